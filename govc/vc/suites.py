"""Proof suites: a verifier, its contracts, and which property each obligation belongs to."""
import json
import os
import re
import time
import z3
from . import solve
from .core import *
from .llrb import LLRBVer
from .cmp import CmpVer
from .lockmode import LockVer
from .cachemode import CacheVer
from .btreemode import BTreeVer
from .config import BTREE

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CONTRACTS = os.path.join(VERIF, 'contracts')

BALANCE = {'rb', 'bh', 'black', 'top', 'kids', 'shape'}
LLRB_API = ('Put', 'PatchByIndex', 'PatchByKey', 'DeleteByIndex', 'DeleteByKey', 'GetByIndex', 'GetByKey', 'Len',
            'BisectLeft', 'BisectRight')


def llrb_owner(o):
    """Properties a failure of this obligation refutes."""
    fn, _, rest = o.name.partition('/')
    kind, _, label = rest.partition(':')
    if fn.startswith('lemma '):
        return {'C02', 'C03'}
    if kind == 'lock' or kind == 'lockfree':
        return {'C10'}
    if label in BALANCE:
        return {'C03'}
    if kind == 'monitor':
        return {'C03'} if balance_goal(o.goal) else {'C02'}
    if 'alidate' in fn:
        return {'C12'}
    if 'ump' in fn.split('.')[-1][:5]:
        return {'C11'}
    own = {'C02'}
    if fn.split('.')[-1] in LLRB_API and (label in ('rejected', 'same', 'err', 'range', 'duplicate', 'found',
                                                    'failed') or kind in ('nil', 'bounds', 'panic')):
        own.add('C11')
    return own


def balance_goal(g):
    """A conjunct of the data-structure invariant that only speaks about balance."""
    names = set()
    seen = set()
    todo = [g]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            names.add(x.decl().name())
            todo.extend(x.children())
    return bool(names & {'rb', 'rbw', 'isred', 'bh'})


class Result:
    """What a suite decided on this run."""

    def __init__(self, name):
        self.name = name
        self.rows = []          # (name, props, status, backend, seconds, pos, trace, log, func)
        self.undecided = []     # (function, reason): outside the verifier's reach on this tree
        self.functions = []
        self.inlined = []
        self.trusted = []
        self.vacuous = []
        self.lemmas = 0
        self.wall = 0.0
        self.solver_s = 0.0
        self.stats = {}
        self.fcon = {}          # function -> properties its obligations serve


def run_verifier(name, v, spec, owner, only=None, scale=1.0):
    res = Result(name)
    t0 = time.time()
    v.prove_lemmas()
    lem = list(v.obls)
    v.obls = []
    v.covers.clear()
    for n, c in spec.contracts.items():
        if c.opts.get('trusted') or (only and not only(n)):
            if c.opts.get('trusted'):
                res.trusted.append(n)
            continue
        k, kc = len(v.obls), len(v.covers)
        try:
            if n.split('@')[0] not in v.funcs:
                raise VerifError('function not found')
            v.verify(n)
            res.functions.append(n)
        except (VerifError, KeyError, IndexError, AttributeError, TypeError, AssertionError, z3.Z3Exception) as e:
            del v.obls[k:]
            del v.covers[kc:]
            res.undecided.append((n, '%s: %s' % (type(e).__name__, e)))
    res.lemmas = len(spec.lemmas)
    res.inlined = sorted(v.inlined)
    res.stats = dict(v.stats)
    gen = time.time() - t0
    t1 = time.time()
    out = []
    for bg, obls in (([], lem), (v.bg, v.obls)):
        if obls:
            rs = solve.solve_all(bg, obls, bg2=v.bgcore if bg else None, scale=scale)
            out += list(zip(obls, rs))
    res.solver_s = time.time() - t1
    late = {}
    for o, (st, be, dt, log) in out:
        if st != 'unsat' and o.name.split('/')[1].startswith('permission'):
            res.undecided.append((o.func, 'permission: ' + o.name))
            continue
        if st != 'unsat' and log == [solve.NOTRUN]:
            late.setdefault(o.func, []).append(o.name)
            continue
        res.rows.append((o.name, owner(o), 'proved' if st == 'unsat' else ('refuted' if st == 'sat' else 'unproved'),
                         be, dt, o.pos, o.trace if st != 'unsat' else [], log if st != 'unsat' else [], o.func))
    for f, ns in late.items():
        res.undecided.append((f, 'time ran out before %d obligations: %s' % (len(ns), ', '.join(sorted(set(ns))[:5]))))
    # vacuity: no precondition may be contradictory
    def cover(pc):
        def run():
            s = z3.SimpleSolver()
            s.set('timeout', 2000)
            s.set('mbqi', False)
            for p in v.bgcore:
                s.add(p)
            for p in pc:
                s.add(p)
            return s.check() == z3.unsat
        return run
    t2 = time.time()
    alive = {}
    for (fn, pc), (good, bad) in zip(v.covers, solve.forked([cover(pc) for fn, pc in v.covers])):
        alive.setdefault(fn, False)
        alive[fn] |= not (good and bad)     # one way of getting there is enough
    res.vacuous = [fn for fn, a in alive.items() if not a]
    res.cover_s = time.time() - t2
    res.wall = time.time() - t0
    res.gen_s = gen
    return res


def load_spec(*names):
    spec = Spec()
    for f in names:
        spec.load(os.path.join(CONTRACTS, f + '.spec'))
    return spec


def suite_llrb(ssa, prop, scale):
    spec = load_spec('llrb', 'llrb_loops', 'llrb_api')
    v = LLRBVer(ssa, spec)
    return run_verifier('llrb', v, spec, llrb_owner, scale=scale)


def suite_cmp(ssa, prop, scale):
    spec = load_spec('cmp')
    v = CmpVer(ssa, spec)
    return run_verifier('cmp', v, spec, lambda o: {'C01'}, scale=scale)


def suite_locks(ssa, prop, scale):
    spec = load_spec('locks')
    v = LockVer(ssa, spec)
    for n in list(spec.contracts):
        if n not in v.funcs and n.split('.')[-1][0].islower():
            del spec.contracts[n]      # an internal function that is gone: its code is executed inline elsewhere
    return run_verifier('locks', v, spec, lambda o: {'C10'}, scale=scale)


def suite_cache(ssa, prop, scale):
    spec = load_spec('cache')
    v = CacheVer(ssa, spec)
    return run_verifier('cache', v, spec, lambda o: {'C09'}, scale=scale)


def suite_btree(ssa, prop, scale, only=None):
    spec = load_spec('btree', 'llrb_api')
    for n, c in spec.contracts.items():
        if n.startswith('llrbTreeStruct.') or n == 'NewLLRBTree':
            c.opts['trusted'] = 'llrb'      # proved by that suite
    c = spec.contracts['NewLLRBTree']       # that its result is newly allocated memory is proved here
    del c.opts['trusted']
    c.opts['elsewhere'] = ' '.join(lb for lb, x in c.ensures)
    c.ensures.append(('alloc', parse('tree >= old(alloctop) and tree < alloctop')))
    v = BTreeVer(ssa, spec)
    if only is None and prop in BTREE:
        def only(n):
            return n.split('.')[-1].split('@')[0] in BTREE[prop]
    return run_verifier('btree', v, spec, btree_owner, only=only, scale=scale)


def btree_owner(o):
    f = o.func.split('.')[-1].split('@')[0]
    return {p for p, fs in BTREE.items() if f in fs or o.func.startswith('lemma ')}


SUITES = {'btree': suite_btree, 'cache': suite_cache, 'locks': suite_locks, 'llrb': suite_llrb, 'cmp': suite_cmp}
