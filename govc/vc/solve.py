"""Discharge obligations: z3 (library, incremental, resource-limited) in forked workers, then a portfolio of
SMT solvers (z3 5, cvc5, z3 4) for what is left."""
import os
import pickle
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
import z3

STAGES = [('z3-new', ['z3-new', '-smt2', '-T:%d'], 3),
          ('cvc5', ['cvc5', '--lang=smt2', '--tlimit=%d000'], 5),
          ('z3-new', ['z3-new', '-smt2', '-T:%d', 'smt.random_seed=3'], 8),
          ('cvc5', ['cvc5', '--lang=smt2', '--tlimit=%d000', '--seed=5'], 12),
          ('z3', ['z3', '-smt2', '-T:%d'], 8),
          ('z3-new', ['z3-new', '-smt2', '-T:%d', 'smt.random_seed=7'], 15),
          ('cvc5', ['cvc5', '--lang=smt2', '--tlimit=%d000', '--enum-inst'], 15)]
Z3HEAD = '(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n'
CVCHEAD = '(set-logic ALL)\n'


def smt2(bg, pc, goal):
    s = z3.Solver()
    for p in bg:
        s.add(p)
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    return s.to_smt2()


def runone(cmd, tmo, text):
    c = [x % tmo if '%d' in x else x for x in cmd]
    if c[0] != 'cvc5':
        c = c + ['-in']
    t0 = time.time()
    try:
        p = subprocess.run(c, input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=tmo + 5)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = 'timeout'
    first = out.strip().split('\n')[0] if out.strip() else 'none'
    return first, out, time.time() - t0


def discharge(text, scale=1.0, stages=STAGES):
    """(result, backend, seconds, log) - 'unsat' means proved."""
    tot = 0
    log = []
    text, fewer = text if isinstance(text, tuple) else (text, [])
    for what, t in fewer:
        for nm, cmd, tmo in stages[:2]:
            r, out, dt = runone(cmd, max(1, int(tmo * scale)), (CVCHEAD if nm == 'cvc5' else Z3HEAD) + t)
            tot += dt
            log.append('%s (%s): %s (%.2fs)' % (nm, what, out.strip()[:200], dt))
            if r == 'unsat':
                return r, nm, tot, log
    for nm, cmd, tmo in stages:
        r, out, dt = runone(cmd, max(1, int(tmo * scale)), (CVCHEAD if nm == 'cvc5' else Z3HEAD) + text)
        tot += dt
        log.append('%s: %s (%.2fs)' % (nm, out.strip()[:200], dt))
        if r in ('unsat', 'sat'):
            return r, nm, tot, log
    return 'unknown', '-', tot, log


_syms = {}


def syms(e):
    """Names of the uninterpreted symbols of a formula (cached: the terms outlive the run)."""
    k = e.get_id()
    r = _syms.get(k)
    if r is not None:
        return r[1]
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo += x.children()
    _syms[k] = (e, frozenset(out))
    return _syms[k][1]


def quantified(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


def select(pc, goal, tol=2.0, depth=3):
    """The facts that look relevant to the goal (fewer facts only ever prove less): all those without quantifiers, and
    the quantified ones reached from the goal through their rarest symbols."""
    ss = [syms(p) for p in pc]
    occ = {}
    for s in ss:
        for x in s:
            occ[x] = occ.get(x, 0) + 1
    trig = [min((occ[x] for x in s), default=0) * tol for s in ss]
    rel = set(syms(goal))
    q = [quantified(p) for p in pc]
    take = set()
    for _ in range(depth):
        new = {i for i in range(len(pc)) if i not in take and any(x in rel and occ[x] <= trig[i] for x in ss[i])}
        if not new:
            break
        take |= new
        for i in new:
            rel |= ss[i]
    return [p for i, p in enumerate(pc) if i in take or not q[i]]


def fewer(bg, o):
    """Smaller problems to try before the full one."""
    out = []
    if o.near is not None:
        t = smt2(bg, o.near, o.goal)
        out.append(('near facts', t))
    for tol, depth in ((2.0, 2), (5.0, 3)):
        u = smt2(bg, select(o.pc, o.goal, tol, depth), o.goal)
        out.append(('facts within %d of the goal' % depth, u))
    return out


MAXFAIL = 16
NOTRUN = 'not attempted'


def portfolio(items, workers=None, scale=1.0, stages=STAGES, deadline=None):
    """items: list of (key, function giving smt2 text).  Once MAXFAIL obligations have failed there is nothing more to
    learn; past the deadline the rest is left undecided."""
    res = {}
    fails = []

    def one(t):
        if len(fails) >= MAXFAIL or (deadline and time.time() > deadline):
            return 'unknown', '-', 0.0, [NOTRUN]
        r = discharge(t, scale, stages)
        if r[0] != 'unsat':
            fails.append(1)
        return r
    with ThreadPoolExecutor(workers or os.cpu_count()) as ex:
        fs = [(k, ex.submit(one, t)) for k, t in items]
        for k, f in fs:
            res[k] = f.result()
    return res


def newsolver(rlimit):
    s = z3.SimpleSolver()
    s.set('mbqi', False)
    if rlimit:
        s.set('rlimit', rlimit)
    return s


def seq_check(bg, obls, rlimit, deadline=None, near=False):
    """Check obligations in order, sharing path-condition prefixes; yields True when proved."""
    s = newsolver(rlimit)
    for b in bg:
        s.add(b)
    cur = []
    for o in obls:
        if z3.is_true(o.goal):
            yield True
            continue
        if deadline and time.time() > deadline:
            yield None
            continue
        pc = o.near if near and o.near is not None else o.pc
        n = 0
        while n < len(cur) and n < len(pc) and cur[n] == pc[n].get_id():
            n += 1
        if len(cur) > n:
            s.pop(len(cur) - n)
            del cur[n:]
        for p in pc[n:]:
            s.push()
            s.add(p)
            cur.append(p.get_id())
        s.push()
        s.add(z3.Not(o.goal))
        r = s.check()
        s.pop()
        yield r == z3.unsat


def forked(jobs, workers=None):
    """Run callables in forked children (z3 terms are inherited); returns their pickled results in order."""
    workers = workers or os.cpu_count()
    res = [None] * len(jobs)
    running = {}
    nxt = 0
    import select
    while nxt < len(jobs) or running:
        while nxt < len(jobs) and len(running) < workers:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    for fd in running:
                        os.close(fd)
                    try:
                        out = (True, jobs[nxt]())
                    except BaseException as e:     # reported to the parent
                        import traceback
                        out = (False, traceback.format_exc())
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            running[r] = (nxt, pid, [])
            nxt += 1
        rd, _, _ = select.select(list(running), [], [])
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if b:
                running[fd][2].append(b)
            else:
                i, pid, buf = running.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                res[i] = pickle.loads(b''.join(buf)) if buf else (False, 'worker died')
    return res


def lastly(bg, obls, again, out, workers, scale, deadline):
    """A few obligations were not settled: every solver on every selection of facts, with more time."""
    done = set()

    def one(j):
        i, what, t, (nm, cmd, tmo) = j
        if i in done or time.time() > deadline:
            return
        r, o, dt = runone(cmd, max(1, int(tmo * scale)), (CVCHEAD if nm == 'cvc5' else Z3HEAD) + t)
        out[i] = (out[i][0], out[i][1], out[i][2] + dt, out[i][3] + ['%s (%s): %s (%.2fs)' % (nm, what, o.strip()[:200], dt)])
        if r == 'unsat':
            done.add(i)
            out[i] = (r, nm) + out[i][2:]
    jobs = []
    for i in again:
        o = obls[i]
        for what, pc in [('near facts', o.near)] * (o.near is not None) + [('facts within %d/%d of the goal' % (tol, d), select(o.pc, o.goal, tol, d))
                                                                           for tol, d in ((1.0, 1), (2.0, 3), (5.0, 2))] + [('all facts', o.pc)]:
            t = smt2(bg, pc, o.goal)
            jobs += [(i, what, t, ('z3-new', ['z3-new', '-smt2', '-T:%d', 'smt.random_seed=11'], 20)),
                     (i, what, t, ('cvc5', ['cvc5', '--lang=smt2', '--tlimit=%d000', '--seed=11'], 20))]
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, jobs))


def solve_all(bg, obls, rlimit=2500000, bg2=None, chunk=None, workers=None, scale=1.0, budget=480):
    """Results list aligned with obls: (result, backend, seconds, log)."""
    workers = workers or os.cpu_count()
    n = len(obls)
    t00 = time.time()
    dl1, dl2 = t00 + 0.7 * budget * scale, t00 + budget * scale
    chunk = chunk or max(20, min(400, n // (workers * 4) + 1))
    parts = [list(range(i, min(n, i + chunk))) for i in range(0, n, chunk)]

    def job(ix):
        def run():
            t0 = time.time()
            ok = list(seq_check(bg if bg2 is None else bg2, [obls[i] for i in ix], rlimit, dl1, near=True))
            for b, nr in ((bg, True), (bg, False)):
                bad = [k for k in range(len(ix)) if not ok[k] and ((bg2 is not None) if nr else obls[ix[k]].near is not None)]
                for k, r in zip(bad, seq_check(b, [obls[ix[k]] for k in bad], rlimit, dl1, near=nr)):
                    ok[k] = r
            return ok, time.time() - t0
        return run
    out = [None] * n
    for ix, (good, val) in zip(parts, forked([job(p) for p in parts], workers)):
        if not good:
            for i in ix:
                out[i] = ('unknown', '-', 0.0, [val])
            continue
        ok, dt = val
        for i, r in zip(ix, ok):
            out[i] = ('unsat', 'simplifier' if z3.is_true(obls[i].goal) else 'z3-lib', dt / len(ix), []) if r \
                else ('unknown', '-', dt / len(ix), [NOTRUN] if r is None else [])
    left = [i for i in range(n) if out[i][0] != 'unsat' and not (time.time() > dl1 and out[i][3] == [NOTRUN])]
    seen = set()
    left.sort(key=lambda i: obls[i].name in seen or seen.add(obls[i].name) or False)     # each name once first
    bad = 0
    for k in range(0, len(left), 150):
        part = left[k:k + 150]
        if bad >= MAXFAIL or time.time() > dl2:
            res = {i: ('unknown', '-', 0.0, [NOTRUN]) for i in part}
        else:
            res = portfolio([(i, (smt2(bg, obls[i].pc, obls[i].goal), fewer(bg, obls[i]))) for i in part], workers, scale, deadline=dl2)
        for i in part:
            out[i] = res[i]
            bad += res[i][0] != 'unsat'
    again = [i for i in range(n) if out[i][0] == 'unknown' and out[i][3] != [NOTRUN]]
    if len(again) <= 8:
        lastly(bg, obls, again, out, workers, scale, dl2)
    return out
