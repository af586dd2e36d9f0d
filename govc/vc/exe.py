"""Symbolic execution of the SSA form against contracts; emits named obligations."""
import time
import z3
from .core import *
from .ev import Ev, gsort

LOCK, UNLOCK = '(*sync.Mutex).Lock', '(*sync.Mutex).Unlock'


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'pos', 'trace', 'func', 'near')

    def __init__(self, name, pc, goal, pos, trace, func, near=None):
        self.name, self.pc, self.goal, self.pos, self.trace, self.func = name, pc, goal, pos, trace, func
        self.near = near        # the same facts without invariants of states long past: often enough, always sound


def hasite(v):
    return z3.is_app(v) and (v.decl().kind() == z3.Z3_OP_ITE or
                             v.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) and any(hasite(c) for c in v.children()))


class Ver:
    """One package, one set of contracts."""

    def __init__(self, ssa, spec, sep=('llrbNodeStruct',), maxpaths=20000):
        self.ssa = ssa
        self.spec = spec
        self.types = Types(ssa['types'])
        self.funcs = {f['name']: f for f in ssa['funcs']}
        self.sep = set(sep)
        self.obls = []
        self.structural = []   # (func, message)
        self.recf = {}
        self.special = {}
        self.loopinfo = {}
        self.maxpaths = maxpaths
        self.bg = list(Tree.axioms)
        self.stats = {'paths': 0, 'pruned': 0}
        self.inlined = set()
        self.called = set()
        self.trustedused = set()
        self.feas_time = 0
        self.embedded = {}
        self.setup_functions()

    # ------------------------------------------------------------ background

    def setup_functions(self):
        for nm, (ps, r) in self.spec.ghostfuncs.items():
            self.recf[nm] = (z3.Function(nm, *[gsort(self, p) for p in ps], gsort(self, r)), r)
        for nm, d in self.spec.recs.items():
            self.recf[nm] = (z3.Function(nm, *[gsort(self, t) for _, t in d['params']], gsort(self, d['ret'])),
                             d['ret'])
        st = State()
        for nm, d in self.spec.recs.items():
            f = self.recf[nm][0]
            ps = d['params']
            tp = ps[0][0]
            rest = [(p, t, z3.Const('%s_%s' % (nm, p), gsort(self, t))) for p, t in ps[1:]]
            env = {p: TV(c, t) for p, t, c in rest}
            leaf = Ev(self, st, dict(env, **{tp: TV(Tree.Leaf, 'Tree')})).val(d['leaf'])
            lhs = f(Tree.Leaf, *[c for _, _, c in rest])
            self.bg.append(z3.ForAll([c for _, _, c in rest], lhs == leaf, patterns=[lhs]) if rest else lhs == leaf)
            comp = [('ref', '*llrbNodeStruct', Int), ('k', 'Key', Any), ('v', 'Value', Any), ('red', 'bool', Bool),
                    ('n', 'int', Int), ('l', 'Tree', Tree.sort), ('r', 'Tree', Tree.sort)]
            cs = [(a, t, z3.Const('%s_%s' % (nm, a), s)) for a, t, s in comp]
            node = Tree.Node(*[c for _, _, c in cs])
            env2 = dict(env)
            env2.update({a: TV(c, t) for a, t, c in cs})
            env2[tp] = TV(node, 'Tree')
            body = Ev(self, st, env2).val(d['node'])
            lhs = f(node, *[c for _, _, c in rest])
            self.bg.append(z3.ForAll([c for _, _, c in cs] + [c for _, _, c in rest], lhs == body, patterns=[lhs]))
        for ax in self.spec.axioms:
            self.bg.append(self.lemma_formula(ax))

    def lemma_formula(self, lem, fixed=None):
        """The lemma as a quantified formula; `fixed` maps some parameters to terms."""
        st = State()
        fixed = fixed or {}
        env, vs = {}, []
        for p, t in lem.params:
            if p in fixed:
                env[p] = TV(fixed[p], t)
            else:
                c = z3.Const('%s_%s' % (lem.name, p), gsort(self, t))
                env[p] = TV(c, t)
                vs.append(c)
        e = Ev(self, st, env)
        f = z3.Implies(mkand([e.b(x) for _, x in lem.requires]), mkand([e.b(x) for _, x in lem.ensures]))
        if not lem.requires:
            f = mkand([e.b(x) for _, x in lem.ensures])
        if not vs:
            return f
        pats = []
        for p in lem.pats:
            ns = parse('(' + p + ',)').elts
            pats.append(z3.MultiPattern(*[e.val(x) for x in ns]))
        return z3.ForAll(vs, f, patterns=pats) if pats else z3.ForAll(vs, f)

    def prove_lemmas(self):
        self.bgcore = list(self.bg)
        self.bgbase = list(self.bg)
        self.lemform = {}
        self._prove_lemmas()

    def _prove_lemmas(self):
        """Each lemma: obligations by structural induction; afterwards it joins the background."""
        for lem in self.spec.lemmas:
            consts = {p: z3.Const('%s_%s0' % (lem.name, p), gsort(self, t)) for p, t in lem.params}

            def case(name, sub, hyps):
                st = State()
                env = {p: TV(sub.get(p, consts[p]), t) for p, t in lem.params}
                e = Ev(self, st, env)
                pc = list(self.bg) + hyps + [e.b(x) for _, x in lem.requires]
                for lb, x in lem.ensures:
                    for hy, g in splitgoal(e.b(x)):
                        self.obls.append(Obl('lemma %s/%s:%s' % (lem.name, name, lb), pc + hy, g, '', [],
                                             'lemma ' + lem.name))
            if lem.induct:
                p = lem.induct
                case('base', {p: Tree.Leaf}, [])
                cs = [z3.Const('%s_c%d' % (lem.name, i), s) for i, s in
                      enumerate((Int, Any, Any, Bool, Int, Tree.sort, Tree.sort))]
                h = [self.lemma_formula(lem, {p: cs[5]}), self.lemma_formula(lem, {p: cs[6]})]
                case('step', {p: Tree.Node(*cs)}, h)
            else:
                case('direct', {}, [])
            self.bg.append(self.lemma_formula(lem))
            self.lemform[lem.name] = self.bg[-1]
            if lem.opts.get('core'):
                self.bgcore.append(self.bg[-1])

    # ------------------------------------------------------------ heap

    def fieldtype(self, struct, field):
        k = struct + '.' + field
        if k in self.spec.ghostfields:
            return self.spec.ghostfields[k]
        r = self.findfield(struct, field)
        if r is None:
            raise VerifError('no field %s in %s' % (field, struct))
        return r

    def findfield(self, struct, field):
        for f in self.types.fields(struct):
            if f['name'] == field:
                return f['type']
        for f in self.types.fields(struct):
            if f['embedded'] and self.types.under(f['type'])['k'] == 'struct' and f['type'] != 'sync.Mutex':
                r = self.findfield(f['type'], field)
                if r is not None:
                    return r
        return None

    def harr(self, st, key):
        if key not in st.heap:
            s, f = key.split('.', 1)
            srt = gsort(self, self.fieldtype(s, f))
            c = z3.Const('H0_' + key, z3.ArraySort(Int, srt))
            st.heap[key] = c
            o = st.old
            seen = set()
            while o is not None and id(o) not in seen:
                seen.add(id(o))
                o.heap.setdefault(key, c)
                o = o.old
        return st.heap[key]

    def hget(self, st, struct, field, ref):
        t = self.fieldtype(struct, field)
        return TV(z3.Select(self.harr(st, struct + '.' + field), ref), t)

    def hset(self, st, struct, field, ref, v):
        k = struct + '.' + field
        if z3.is_expr(v) and v.sort() == Int and hasite(v):     # named, as terms with conditionals make no patterns
            c = fresh(field, Int)
            st.assume(c == v)
            v = c
        st.heap[k] = z3.Store(self.harr(st, k), ref, v)

    def is_held(self, st, struct, ref):
        if st.exit and st.exit[1].opts.get('private') == 'yes' and struct == 'btreeTreeStruct':
            return True         # a tree under construction
        for s, r in st.held:
            if s == struct and self.same(st, r, ref):
                return True
        return False

    # ------------------------------------------------------------ solving helpers (pruning only)

    def quick(self, st, extra, ms=150):
        t0 = time.time()
        s = z3.SolverFor('QF_UFDTLIRA') if False else z3.SimpleSolver()
        s.set('timeout', ms)
        for p in st.pc:
            if not has_quant(p):
                s.add(p)
        s.add(extra)
        r = s.check()
        self.feas_time += time.time() - t0
        return r

    def feasible(self, st, c):
        return self.quick(st, c) != z3.unsat

    def implied(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.quick(st, z3.Not(c)) == z3.unsat

    def same(self, st, a, b):
        if z3.eq(a, b):
            return True
        return self.implied(st, a == b)

    # ------------------------------------------------------------ separation chunks

    def find_pt(self, st, p):
        for i, c in enumerate(st.chunks):
            if z3.eq(c[1], p):
                return i
        for i, c in enumerate(st.chunks):
            if self.same(st, c[1], p):
                return i
        return None

    def access(self, st, p, what):
        """Index of the points-to chunk for p, unfolding if needed."""
        i = self.find_pt(st, p)
        if i is None:
            raise NoPerm(what)
        if st.chunks[i][0] == 'PT':
            return i
        _, ref, T = st.chunks[i]
        self.oblige(st, 'nil', p != 0, what)
        nm = str(freshid())
        k, v = z3.Const('k!' + nm, Any), z3.Const('v!' + nm, Any)
        c, n = z3.Const('c!' + nm, Bool), z3.Const('n!' + nm, Int)
        l, r = z3.Const('pl!' + nm, Int), z3.Const('pr!' + nm, Int)
        L, R = z3.Const('L!' + nm, Tree.sort), z3.Const('R!' + nm, Tree.sort)
        st.assume(T == Tree.Node(ref, k, v, c, n, L, R))
        st.assume(ref != 0)
        st.assume(z3.And(n >= -2**63, n < 2**63))
        st.chunks[i] = ('PT', ref, {'Key': k, 'Value': v, 'color': c, 'len': n, 'left': l, 'right': r})
        for q, S in ((l, L), (r, R)):
            st.chunks.append(('TR', q, S))
            st.assume((q == 0) == (S == Tree.Leaf))
        return i

    def fold(self, st, p, consume=True):
        """The ghost tree rooted at p, consuming its chunks."""
        for i, c in enumerate(st.chunks):
            if z3.eq(c[1], p):
                return self.foldchunk(st, i)
        if self.implied(st, p == 0):
            # a nil pointer may still own a (Leaf) tree chunk; nothing to consume
            return Tree.Leaf
        for i, c in enumerate(st.chunks):
            if self.same(st, c[1], p):
                return self.foldchunk(st, i)
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE:
            raise VerifError('undecided pointer in fold')
        raise NoPerm('fold')

    def foldn(self, st, p, name):
        """fold, with the resulting tree named by a constant (keeps quantifier patterns simple)."""
        T = self.fold(st, p)
        if T.num_args() == 0:
            return T
        c = fresh(name, Tree.sort)
        st.assume(c == T)
        return c

    def foldchunk(self, st, i):
        c = st.chunks.pop(i)
        if c[0] == 'TR':
            return c[2]
        f = c[2]
        L = self.fold(st, f['left'])
        R = self.fold(st, f['right'])
        return Tree.Node(c[1], f['Key'], f['Value'], f['color'], f['len'], L, R)

    def newtree(self, st, p, name):
        T = fresh(name, Tree.sort)
        st.chunks.append(('TR', p, T))
        st.assume((p == 0) == (T == Tree.Leaf))
        return T

    # ------------------------------------------------------------ obligations

    def oblige(self, st, kind, goal, label='', by=None):
        g = z3.simplify(goal)
        if z3.is_true(g):
            # still an obligation, discharged by the simplifier
            self.addobl(st, kind, z3.BoolVal(True), label)
            return
        if z3.is_and(goal):
            for c in goal.children():
                self.oblige(st, kind, c, label, by)
            return
        self.addobl(st, kind, goal, label, by)
        if kind not in ('post', 'lockfree'):
            st.pc.append(goal)
            if label == 'inv':
                st.marks.append((len(st.pc) - 1, len(st.pc), False))

    def addobl(self, st, kind, goal, label, by=None):
        fn = self.cur
        name = '%s/%s%s' % (fn, kind, (':' + label) if label else '')
        near = by if by is not None else self.nearfacts(st, label != 'inv' and (kind == 'post' or 'frame' in kind))
        for hyps, g in splitgoal(goal):
            self.obls.append(Obl(name, list(st.pc) + hyps, g, self.curpos, list(st.trace), fn,
                                 near + hyps if near is not None else None))

    def assumelabel(self, st, lb, x):
        n = len(st.pc)
        st.assume(x)
        st.named[lb] = st.pc[n:]
        if lb == 'inv':
            st.marks.append((n, len(st.pc), True))

    def nearfacts(self, st, entry):
        """The path condition without the invariants of states long past."""
        full = [m for m in st.marks if m[2]]
        if len(full) < 3:
            return None
        keep = full[-2:] + ([full[0]] if entry else [])
        out, at = [], 0
        for m in st.marks:
            out += st.pc[at:m[0]]
            if m in keep or m[0] > full[-1][0]:
                out += st.pc[m[0]:m[1]]
            at = m[1]
        return out + st.pc[at:]

    # ------------------------------------------------------------ loops

    def loops(self, f):
        nm = f['name']
        if nm in self.loopinfo:
            return self.loopinfo[nm]
        bl = f['blocks']
        n = len(bl)
        dom = [set(range(n)) for _ in range(n)]
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for i in range(1, n):
                ps = [dom[p] for p in bl[i]['preds']]
                d = set.intersection(*ps) | {i} if ps else {i}
                if d != dom[i]:
                    dom[i] = d
                    ch = True
        heads = {}
        for i in range(n):
            for s in bl[i]['succs']:
                if s in dom[i]:
                    body = heads.setdefault(s, {s})
                    stack = [i]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(bl[x]['preds'])
        # ordinal by source position of the loop (order of first position in the body)

        def pos(h):
            best = None
            for b in sorted(heads[h]):
                for ins in bl[b]['instrs']:
                    p = ins.get('pos')
                    if p:
                        ln = int(p.split(':')[1])
                        if best is None or ln < best:
                            best = ln
            return (best or 0, h)
        order = sorted(heads, key=lambda h: (pos(h)[0], -len(heads[h])))
        info = {h: {'body': heads[h], 'ord': i + 1} for i, h in enumerate(order)}
        self.loopinfo[nm] = info
        return info

    # ------------------------------------------------------------ values

    def const(self, m):
        t = m['t']
        if 'ci' in m:
            return z3.IntVal(int(m['ci']))
        if 'cs' in m:
            return z3.Const('str:' + m['cs'][:40], Str)
        if 'co' in m:
            raise VerifError('constant ' + m['co'])
        c = m['c']
        if isinstance(c, bool):
            return z3.BoolVal(c)
        return self.zero(t)

    def zero(self, t):
        if t in ('[]byte',):
            return z3.Const('bnil', Bytes)
        d = self.types.under(t)
        if d['k'] == 'slice' and not self.types.isbyte(d['elem']):
            return SliceV(-1, z3.IntVal(0), z3.IntVal(0), d['elem'])
        if d['k'] == 'struct':
            dt = self.types.structsort(t)
            return dt.constructor(0)(*[self.zero(f['type']) for f in d['fields']])
        s = self.types.sort(t)
        if s == Int:
            return z3.IntVal(0)
        if s == Bool:
            return z3.BoolVal(False)
        if s == Any:
            return Any.ANil
        if s == Str:
            return z3.Const('str:', Str)
        if s == Bytes:
            return z3.Const('bnil', Bytes)
        if s == Time:
            return z3.Const('time0', Time)
        raise VerifError('zero of ' + t)

    def freshval(self, st, t, name):
        d = self.types.under(t) if t in self.types.tab else None
        if d and d['k'] == 'slice' and not self.types.isbyte(d['elem']):
            bid = freshid()
            st.back[bid] = fresh('arr', z3.ArraySort(Int, gsort(self, d['elem'])))
            ln = fresh(name + '_len', Int)
            st.assume(ln >= 0)
            st.assume(ln < 2**62)
            return SliceV(bid, z3.IntVal(0), ln, d['elem'])      # an unknown slice starts its own array
        if d and d['k'] == 'tuple':
            return tuple(self.freshval(st, e['type'], name) for e in d['elems'])
        v = fresh(name, gsort(self, t))
        self.typefacts(st, v, t)
        return v

    def typefacts(self, st, v, t):
        if t not in self.types.tab:
            return
        r = self.types.irange(t)
        if r:
            st.assume(z3.And(v >= r[0], v <= r[1]))
        elif v.sort() == Any:
            for bt in ('int', 'uint16', 'uint32', 'uint64'):
                _, un, isx = BOX[bt]
                lo, hi = INTR[bt]
                st.assume(z3.Implies(isx(v), z3.And(un(v) >= lo, un(v) <= hi)))
        else:
            d = self.types.under(t)
            if d['k'] in ('ptr', 'map') and v.sort() == Int:
                st.assume(v >= 0)
                st.assume(v < st.top) if self.usetop else None

    usetop = False
    bidi = False

    def value(self, st, m):
        fr = st.frames[-1]
        if 'r' in m:
            return fr.regs[m['r']]
        if 'p' in m:
            return fr.regs['%' + m['p']]
        if 'g' in m:
            return Addr('global', m['g'])
        if 'f' in m:
            return ('func', m['f'])
        if 'b' in m:
            return ('builtin', m['b'])
        if 'fv' in m:
            raise VerifError('closure')
        return self.const(m)

    # ------------------------------------------------------------ memory

    def load(self, st, a, t):
        if isinstance(a, Addr):
            if a.kind == 'cell':
                v = st.cells[a.a]
                for p in a.path:
                    v = self.proj(v, p)
                if isinstance(v, list):
                    raise VerifError('array value')
                return v
            if a.kind == 'heap':
                return self.heapload(st, a)
            if a.kind == 'elem':
                s, i = a.a, a.b
                return z3.Select(st.back[s.bid], s.off + i)
            if a.kind == 'global':
                return z3.Const('global:' + a.a, gsort(self, t))
        raise VerifError('load through %r' % (a,))

    def proj(self, v, p):
        if isinstance(p, int):
            return v[p]
        struct, field = p
        for i, f in enumerate(self.types.fields(struct)):
            if f['name'] == field:
                dt = self.types.structsort(struct)
                return dt.accessor(0, i)(v)
        raise VerifError('field ' + field)

    def upd(self, v, path, nv):
        if not path:
            return nv
        p = path[0]
        if isinstance(p, int):
            l = list(v)
            l[p] = self.upd(l[p], path[1:], nv)
            return l
        struct, field = p
        dt = self.types.structsort(struct)
        args = []
        for i, f in enumerate(self.types.fields(struct)):
            cur = dt.accessor(0, i)(v)
            args.append(self.upd(cur, path[1:], nv) if f['name'] == field else cur)
        return z3.simplify(dt.constructor(0)(*args))

    def store(self, st, a, v):
        if not isinstance(a, Addr):
            raise VerifError('store through %r' % (a,))
        if a.kind == 'cell':
            st.cells[a.a] = self.upd(st.cells[a.a], a.path, v)
        elif a.kind == 'heap':
            self.heapstore(st, a, v)
        elif a.kind == 'elem':
            s, i = a.a, a.b
            st.back[s.bid] = z3.Store(st.back[s.bid], s.off + i, v)
        else:
            raise VerifError('store to global')

    def guardcheck(self, st, struct, field, ref):
        g = self.spec.guards.get(struct + '.' + field)
        if g:
            if self.fresh_owned(st, ref):
                return
            ok = self.is_held(st, g, ref)
            self.oblige(st, 'lock', z3.BoolVal(ok), '%s.%s accessed only while its lock is held' % (struct, field))

    def fresh_owned(self, st, ref):
        return any(z3.eq(ref, x) for x in st.newrefs)

    def heapload(self, st, a):
        struct, ref, field = a.b, a.a, a.path[-1]
        if struct in self.sep:
            i = self.access(st, ref, field)
            return st.chunks[i][2][field]
        self.nilcheck(st, ref, field)
        self.guardcheck(st, struct, field, ref)
        tv = self.hget(st, struct, field, ref)
        v = tv.v
        self.loadfacts(st, v, tv.t)
        return v

    def loadfacts(self, st, v, t):
        self.typefacts(st, v, t)

    def heapstore(self, st, a, v):
        struct, ref, field = a.b, a.a, a.path[-1]
        if struct in self.sep:
            i = self.access(st, ref, field)
            d = dict(st.chunks[i][2])
            d[field] = v
            st.chunks[i] = ('PT', st.chunks[i][1], d)
            return
        self.nilcheck(st, ref, field)
        self.guardcheck(st, struct, field, ref)
        self.hset(st, struct, field, ref, v)

    def nilcheck(self, st, ref, what):
        if z3.is_int_value(ref) and ref.as_long() == 0:
            self.oblige(st, 'nil', z3.BoolVal(False), what)
            return
        if any(z3.eq(ref, x) for x in st.nn) if hasattr(st, 'nn') else False:
            return
        self.oblige(st, 'nil', ref != 0, what)

    # ------------------------------------------------------------ main loop

    def verify(self, fname):
        """Emit the obligations of one function against its contract."""
        f = self.funcs[fname.split('@')[0]]
        con = self.spec.contracts[fname]
        self.cur = fname
        self.curpos = '%s:%d' % (f['file'], f['line'])
        st = State()
        self.entry(st, f, con)
        fr = Frame(f)
        st.frames = [fr]
        env = {}
        for p in f['params']:
            v = self.freshval(st, p['type'], p['name'])
            if con.opts.get('window') == p['name']:
                v = SliceV(v.bid, fresh('off', Int), v.ln, v.et)
                st.assume(z3.And(v.off >= 0, v.off < 2**62))
            fr.regs['%' + p['name']] = v
            env[p['name']] = TV(v, p['type'])
        if f['method']:
            st.assume(fr.regs['%' + f['params'][0]['name']] != 0) if con.opts.get('nilrecv') != 'yes' else None
        for n, e in con.consumes:
            p = Ev(self, st, env).val(e)
            T = self.newtree(st, p, n)
            env[n] = TV(T, 'Tree')
        for h in con.opts.get('holds', '').split():
            v = env[h]
            st.held.append((v.t[1:], v.v))
        for n, e in con.lets + con.wits:
            env[n] = Ev(self, st, env, st, env).ev(e)
        st.exit = ('func', con, env, list(st.held), None)
        st.old = st.copy()
        st.old.old = None
        for lb, e in con.requires:
            self.assumelabel(st, lb, Ev(self, st, env, st, env).b(e))
        st.old.pc = list(st.pc)
        # vacuity: the preconditions must be satisfiable (reported as a cover)
        self.covers.append((fname, list(st.pc)))
        if not self.lateuse(con):
            base = list(st.pc)
            e = Ev(self, st, env, st, env)
            self.derive(st, con.uses, e)
            if con.entries:     # the lemma is needed for these facts only
                for lb, x in con.entries:
                    self.oblige(st, 'entry', e.b(x), lb)
                st.pc = base
                for lb, x in con.entries:
                    st.assume(e.b(x))
        self.run(st)

    def lateuse(self, con):
        return False

    def derive(self, st, uses, e):
        """Facts that follow from the invariants by induction (proved once, see prove_derives)."""
        for u in uses:
            d = self.spec.derives[u.func.id]
            e2 = e.with_env({p: TV(e.ev(a).v, t) for (p, t), a in zip(d.params, u.args)})
            self.oblige(st, 'given', e2.b(d.given), d.name)
            n = len(st.pc)
            st.assume(self.derived(d, e2))
            st.named[d.name] = st.pc[n:]

    def derived(self, d, e2, m=None):
        vs = e2.binders(d.pairs)
        e3 = e2.with_env({nm: TV(c, t) for nm, t, c in vs})
        h = [e3.b(d.hyp)]
        if m is not None:
            h.append(e3.val(d.measure) < m)
        pats = [z3.MultiPattern(*[e3.val(x) for x in parse('(' + p + ',)').elts]) for p in d.pats]
        cs = [c for _, _, c in vs]
        f = z3.Implies(z3.And(h), e3.b(d.claim))
        return z3.ForAll(cs, f, patterns=pats) if pats else z3.ForAll(cs, f)

    def prove_derives(self):
        for d in self.spec.derives.values():
            st = State()
            st.top = fresh('top', Int)
            env = {p: TV(fresh(p, gsort(self, t)), t) for p, t in d.params}
            e = Ev(self, st, env)
            st.assume(e.b(d.given))
            self.cur, self.curpos = 'lemma ' + d.name, ''
            self.derive(st, d.uses, e)
            vs = e.binders(d.pairs)
            e3 = e.with_env({nm: TV(c, t) for nm, t, c in vs})
            h = e3.b(d.hyp)
            m = e3.val(d.measure)
            fn = 'lemma ' + d.name
            for hx in d.hints:
                t = e3.val(hx)
                st.assume(z3.Function('seen_%s' % t.sort(), t.sort(), Bool)(t))
            for hy, g in splitgoal(z3.Implies(h, m >= 0)):
                self.obls.append(Obl(fn + '/measure', st.pc + hy, g, '', [], fn))
            n = fresh('n', Int)
            ih = self.derived(d, e, n)
            for hy, g in splitgoal(z3.Implies(z3.And(h, m == n), e3.b(d.claim))):
                self.obls.append(Obl(fn + '/step', st.pc + [ih] + hy, g, '', [], fn))

    covers = []

    def entry(self, st, f, con):
        pass

    def run(self, st0):
        work = [st0]
        n = 0
        while work:
            st = work.pop()
            n += 1
            if n > self.maxpaths:
                raise VerifError('too many paths')
            try:
                work.extend(self.step(st))
            except NoPerm as e:
                self.addobl(st, 'permission', z3.BoolVal(False), str(e))

    def step(self, st):
        """Run one state until it ends or forks; returns successor states."""
        while True:
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.bi]['instrs'][fr.ii]
            if 'pos' in ins:
                self.curpos = ins['pos']
            op = ins['op']
            if op == 'If':
                c = self.value(st, ins['cond'])
                s0, s1 = fr.fn['blocks'][fr.bi]['succs']
                c = z3.simplify(c)
                if z3.is_true(c):
                    r = self.jump(st, s0)
                elif z3.is_false(c):
                    r = self.jump(st, s1)
                else:
                    out = []
                    for cond, tgt in ((c, s0), (z3.Not(c), s1)):
                        if self.feasible(st, cond):
                            s2 = st.copy()
                            s2.assume(cond)
                            s2.trace.append('%s %s' % (self.curpos, 'then' if tgt == s0 else 'else'))
                            out.append((s2, tgt))
                        else:
                            self.stats['pruned'] += 1
                    res = []
                    for s2, tgt in out:
                        x = self.jump(s2, tgt)
                        res.extend(x if x is not None else [s2])
                    return res
                if r is not None:
                    return r
                continue
            if op == 'Jump':
                r = self.jump(st, fr.fn['blocks'][fr.bi]['succs'][0])
                if r is not None:
                    return r
                continue
            if op == 'Return':
                vals = [self.value(st, x) for x in ins['results']]
                if len(st.frames) > 1:
                    ret = fr.ret
                    st.frames.pop()
                    cf = st.frames[-1]
                    if ret:
                        cf.regs[ret] = vals[0] if len(vals) == 1 else tuple(vals)
                    continue
                self.exit_func(st, vals)
                return []
            if op == 'Panic':
                self.oblige(st, 'panic', z3.BoolVal(False), 'unreachable')
                return []
            fr.ii += 1
            h = getattr(self, 'i_' + op, None)
            if h is None:
                raise VerifError('instruction ' + op)
            r = h(st, fr, ins)
            if r is not None:
                return r

    def jump(self, st, tgt):
        fr = st.frames[-1]
        src = fr.bi
        info = self.loops(fr.fn)
        fr.prev = src
        fr.bi, fr.ii = tgt, 0
        # leaving loops
        for h in list(fr.active):
            if tgt not in info[h]['body']:
                fr.active.pop(h)
        if tgt in info:
            return self.loophead(st, fr, tgt, info[tgt], src in info[tgt]['body'])
        return None

    # ------------------------------------------------------------ loops

    def loopcon(self, fr, info):
        con = self.spec.contracts.get(fr.fn['name'])
        if self.cur.split('@')[0] == fr.fn['name']:
            con = self.spec.contracts.get(self.cur)
        return con.loops.get(info['ord']) if con else None

    def localenv(self, st, fr):
        env = {}
        for reg, cid in fr.alloc.items():
            nm, t = st.ctype[cid]
            if nm and nm != 'complit' and nm != 'varargs':
                v = st.cells[cid]
                if not isinstance(v, list):
                    env[nm] = TV(v, t)
        # named locals of an enclosing function body override nothing; parameters are cells too
        return env

    def loopcells(self, st, fr, info):
        """Cells and heap fields the loop can modify."""
        cells, fields, elems, calls, locks = set(), set(), False, False, False
        todo = [(fr.fn, info['body'])]
        seen = set()
        while todo:
            fn, body = todo.pop()
            for b in (body if body is not None else range(len(fn['blocks']))):
                for ins in fn['blocks'][b]['instrs']:
                    if ins['op'] == 'Store' and 'r' in ins['addr']:
                        if fn is fr.fn and ins['addr']['r'] in fr.alloc:
                            cells.add(fr.alloc[ins['addr']['r']])
                        else:
                            d = self.addrroot(fn, ins['addr']['r'])
                            if d[0] == 'alloc' and fn is fr.fn:
                                if d[1] in fr.alloc:
                                    cells.add(fr.alloc[d[1]])
                            elif d[0] == 'field':
                                fields.add(d[1])
                            elif d[0] == 'elem':
                                elems = True
                    elif ins['op'] == 'Alloc' and fn is fr.fn and ins['reg'] in fr.alloc:
                        cells.add(fr.alloc[ins['reg']])
                    elif ins['op'] == 'MapUpdate':
                        fields.add('map:' + ins['map']['t'])
                    elif ins['op'] == 'Next':
                        cells.update(c for c, (nm, t) in st.ctype.items() if nm == 'visited')
                    elif ins['op'] == 'Call' and ins['value'].get('b') == 'delete':
                        fields.add('map:' + ins['args'][0]['t'])
                    elif ins['op'] == 'Call':
                        nm = ins['value'].get('f')
                        if 'invoke' in ins:
                            nm = self.invokename(ins)
                        if nm is None:
                            continue
                        if nm in (LOCK, UNLOCK):
                            locks = True
                            continue
                        con = self.spec.contracts.get(self.variant(nm))
                        cur = self.spec.contracts.get(self.cur)
                        for h in (cur.hooks if cur else ()):
                            if h[1] == nm and h[3] == 'set' and h[2] in (None, self.ordinal(fn, ins)):
                                fields.update(self.setfields(h[4]))
                        if con is not None:
                            for m in con.modifies:
                                fields.add(m[0])
                            for s, _ in con.sets:
                                fields.update(self.setfields(s))
                        elif nm in self.funcs and nm not in seen:
                            seen.add(nm)
                            todo.append((self.funcs[nm], None))
                        # pointers to local cells handed to a callee
                        for a in ins['args']:
                            if 'r' in a and fn is fr.fn:
                                d = self.addrroot(fn, a['r'])
                                if d[0] == 'alloc' and d[1] in fr.alloc:
                                    cells.add(fr.alloc[d[1]])
        return cells, fields, elems

    def setfields(self, tgt):
        return []

    def invokename(self, ins):
        return ins['itype'] + '.' + ins['invoke']

    def addrroot(self, fn, reg):
        for b in fn['blocks']:
            for ins in b['instrs']:
                if ins.get('reg') == reg:
                    if ins['op'] == 'FieldAddr':
                        d = self.addrroot(fn, ins['x']['r']) if 'r' in ins['x'] else ('ptr',)
                        if d[0] == 'alloc' and not self.isheapstruct(ins['struct']):
                            return d
                        if d[0] == 'field' and not ins['x']['t'].startswith('**') and self.embeddedaddr(fn, ins):
                            return ('field', d[1].split('.')[0] + '.' + ins['field'])
                        return ('field', ins['struct'] + '.' + ins['field'])
                    if ins['op'] == 'IndexAddr':
                        d = self.addrroot(fn, ins['x']['r']) if 'r' in ins['x'] else ('ptr',)
                        if d[0] == 'alloc' and ins['x']['t'].startswith('*['):
                            return d
                        return ('elem',)
                    if ins['op'] == 'Alloc':
                        if ins['heap'] and self.isheapstruct(ins['elem']):
                            return ('ptr',)
                        return ('alloc', reg)
                    if ins['op'] in ('MakeInterface', 'ChangeType', 'ChangeInterface'):
                        return self.addrroot(fn, ins['x']['r']) if 'r' in ins['x'] else ('ptr',)
                    return ('ptr',)
        return ('ptr',)

    def embeddedaddr(self, fn, ins):
        for b in fn['blocks']:
            for i2 in b['instrs']:
                if i2.get('reg') == ins['x'].get('r'):
                    return i2['op'] == 'FieldAddr'
        return False

    HEAPSTRUCTS = ('llrbNodeStruct', 'llrbTreeStruct', 'btreeNodeStruct', 'btreeTreeStruct', 'btreeNodeCacheStruct',
                   'BPlusTreeCacheStats')

    def isheapstruct(self, t):
        return t in self.HEAPSTRUCTS

    def loophead(self, st, fr, head, info, back):
        lc = self.loopcon(fr, info)
        lname = 'loop%d' % info['ord']
        if lc is None:
            raise VerifError('%s %s has no loop contract' % (fr.fn['name'], lname))
        if lc.opts['style'] == 'procedure':
            return self.loopproc(st, fr, head, info, lc, back, lname)
        return self.loopinv(st, fr, head, info, lc, back, lname)

    def evloop(self, st, fr):
        env = dict(st.exit[2])
        env.update(self.localenv(st, fr))
        return Ev(self, st, env, st.old, st.exit[2])

    def loopinv(self, st, fr, head, info, lc, back, lname):
        if back:
            if head not in fr.active:
                raise VerifError('back edge of inactive loop')
            e = self.evloop(st, fr)
            e.env.update(fr.active[head]['ghost'])
            e.oldenv = dict(e.oldenv, **fr.active[head]['ghost'])
            for lb, x in lc.asserts:
                self.oblige(st, lname + '.assert', e.b(x), lb)
            for lb, x in lc.invs:
                self.oblige(st, lname + '.keep', e.b(x), lb)
            if lc.decreases is not None:
                d0 = fr.active[head]['dec']
                d1 = e.val(lc.decreases)
                self.oblige(st, lname + '.decreases', z3.And(d1 < d0, d0 >= 0))
            for k, x in self.loopframe(st, fr.active[head]['fields']):
                self.oblige(st, lname + ".frame", x, k)
            self.heldsame(st, fr.active[head]['held'], lname)
            self.stats['paths'] += 1
            return []
        e = self.evloop(st, fr)
        g = {}
        for n, x in lc.lets:
            g[n] = e.ev(x)
            e.env[n] = g[n]
            e.oldenv = dict(e.oldenv, **{n: g[n]})
        if g:
            st.ghost = dict(st.ghost, **g)      # in scope of later loops too
        for lb, x in lc.invs:
            self.oblige(st, lname + '.init', e.b(x), lb)
        cells, fields, elems = self.loopcells(st, fr, info)
        for k, x in self.loopframe(st, fields | {m[0] for m in lc.modifies}):
            self.oblige(st, lname + '.frame', x, k)
        for c in cells:
            nm, t = st.ctype[c]
            if isinstance(st.cells[c], list):
                continue
            st.cells[c] = self.freshval(st, t, nm)
        extra = set(m[0] for m in lc.modifies)
        for k in fields | extra:
            self.havocfield(st, k)
        if elems:
            for b in list(st.back):
                st.back[b] = fresh('arr', st.back[b].sort())
        self.loophavoc(st, fr, lc)
        for k, x in self.loopframe(st, fields | extra):
            st.assume(x)
        e = self.evloop(st, fr)
        e.env.update(g)
        e.oldenv = dict(e.oldenv, **g)
        for lb, x in lc.invs:
            self.assumelabel(st, lb, e.b(x))
        fr.active[head] = {'ghost': g, 'dec': e.val(lc.decreases) if lc.decreases is not None else None,
                           'held': list(st.held), 'fields': fields | extra}
        self.covers.append((self.cur + '/' + lname, list(st.pc)))
        self.derive(st, lc.uses, e)
        return None

    def loopframe(self, st, fields):
        return []

    def loophavoc(self, st, fr, lc):
        pass

    def heldsame(self, st, held, what):
        ok = len(held) == len(st.held) and all(self.is_held(st, s, r) for s, r in held)
        self.oblige(st, 'lockstate', z3.BoolVal(ok), what + ' leaves the set of held locks unchanged')

    def havocfield(self, st, k):
        if k.startswith('map:'):
            k = self.mapkey(k[4:])
            if isinstance(k, tuple):
                for x in k:
                    self.havocfield(st, x)
                return
        if k.startswith('sep:') or k.split('.')[0] in self.sep:
            return
        a = self.harr(st, k)
        st.heap[k] = fresh('H_' + k, a.sort())

    def mapkey(self, t):
        return {'map[staleOnDiskReferenceStruct]struct{}': 'btreeTreeStruct.stalemap',
                'LayoutReport': 'map.u64u64', 'map[uint64]uint64': 'map.u64u64'}[t]

    # procedure-style loop contract: the rest of the function, as a tail-recursive procedure

    def loopproc(self, st, fr, head, info, lc, back, lname):
        if len(st.frames) > 1:
            raise VerifError('procedure loop in an inlined function')
        inproc = st.exit[0] == 'loop' and st.exit[4] == head
        env = dict(st.exit[2]) if not inproc else dict(st.exit[5])
        base = dict(env)
        env.update(self.localenv(st, fr))
        Ts = []
        for n, x in lc.consumes:
            p = Ev(self, st, env, st.old, base).val(x)
            T = self.foldn(st, p, n)
            Ts.append((n, x, p, T))
        for n, x, p, T in Ts:
            env[n] = TV(T, 'Tree')
        e = Ev(self, st, env, st.old, base)
        for lb, x in lc.requires:
            self.oblige(st, lname + '.pre', e.b(x), lb)
        if not inproc and not self.loopdone(head, fr):
            self.verify_loopbody(st, fr, head, info, lc, lname, base)
        if inproc and lc.decreases is not None:
            d1 = e.val(lc.decreases)
            d0 = st.exit[6]
            self.oblige(st, lname + '.decreases', z3.And(d1 < d0, d1 >= 0))
        # apply: results and trees after the rest of the function has run
        rs = [self.freshval(st, r['type'], r['name'] or 'r%d' % i) for i, r in enumerate(fr.fn['results'])]
        env2 = dict(env)
        for n, x in lc.produces:
            p = Ev(self, st, env, st.old, base).val(x)
            env2[n] = TV(self.newtree(st, p, n), 'Tree')
        for i, r in enumerate(fr.fn['results']):
            env2[r['name'] or 'r%d' % i] = TV(rs[i], r['type'])
        e2 = Ev(self, st, env2, st.old, base)
        for lb, x in lc.ensures:
            st.assume(e2.b(x))
        # deferred calls have run inside
        self.rundefers(st, fr)
        self.exit_func(st, rs)
        return []

    def loopdone(self, head, fr):
        return False

    def verify_loopbody(self, st, fr, head, info, lc, lname, base):
        s2 = st.copy()
        f2 = s2.frames[-1]
        f2.defers = []     # deferred calls run after the loop's procedure returns
        s2.chunks = []
        cells, fields, elems = self.loopcells(s2, f2, info)
        for c in cells:
            nm, t = s2.ctype[c]
            s2.cells[c] = self.freshval(s2, t, nm)
        for k in fields:
            if k.split('.')[0] not in self.sep:
                raise VerifError('procedure loop modifies ' + k)
        env = dict(base)
        env.update(self.localenv(s2, f2))
        for n, x in lc.consumes:
            p = Ev(self, s2, env, st.old, base).val(x)
            env[n] = TV(self.newtree(s2, p, n), 'Tree')
        e = Ev(self, s2, env, st.old, base)
        for lb, x in lc.requires:
            s2.assume(e.b(x))
        dec = e.val(lc.decreases) if lc.decreases is not None else None
        outer = st.exit
        s2.exit = ('loop', lc, env, list(s2.held), head, base, dec)
        self.covers.append((self.cur + '/' + lname, list(s2.pc)))
        f2.bi, f2.ii = head, 0
        save = self.curpos
        # the produce expressions of the loop are evaluated at the head
        s2.ghost = dict(s2.ghost)
        s2.ghost['#prod'] = TV([(n, Ev(self, s2, env, st.old, base).val(x)) for n, x in lc.produces])
        self.run(s2)
        self.curpos = save

    def rundefers(self, st, fr):
        for ins, args in reversed(fr.defers):
            self.docall(st, fr, ins, args, None)
        fr.defers = []

    # ------------------------------------------------------------ exits

    def exit_func(self, st, vals):
        self.stats['paths'] += 1
        fr = st.frames[0]
        kind, con = st.exit[0], st.exit[1]
        env = dict(st.exit[2])
        base = dict(env)
        held0 = st.exit[3]
        ok = len(held0) == len(st.held) and all(self.is_held(st, s, r) for s, r in held0)
        self.oblige(st, 'lock', z3.BoolVal(ok), 'locks on return are those held on entry')
        for i, r in enumerate(fr.fn['results']):
            env[r['name'] or 'r%d' % i] = TV(vals[i], self.IFACE.get(r['type'], r['type']))
        if kind == 'loop':
            pre = 'loop%d.post' % self.loops(fr.fn)[st.exit[4]]['ord']
            for n, p in st.ghost['#prod'].v:
                env[n] = TV(self.foldn(st, p, n), 'Tree')
            e = Ev(self, st, env, st.old, st.exit[2])
        else:
            pre = 'post'
            for n, x in con.produces:
                p = z3.simplify(Ev(self, st, env, st.old, base).val(x))
                p = self.splitite(st, p)
                env[n] = TV(self.foldn(st, p, n), 'Tree')
            if con.exits:
                for n, x in con.exits:
                    env[n] = base[n] = Ev(self, st, dict(self.localenv(st, fr), **env), st.old, base).ev(x)
            e = Ev(self, st, env, st.old, base)
            self.exitsets(st, con, e)
            self.derive(st, con.usexits, e)
            for lb, x in con.asserts:
                self.oblige(st, 'assert', e.b(x), lb)
        for lb, x in con.ensures:
            if lb in con.opts.get('elsewhere', '').split():
                continue        # shown by another suite
            self.post(st, pre, lb, e.b(x))
        if kind == 'func':
            self.covers.append((self.cur + '/return', list(st.pc)))
            self.framecheck(st, con, e)

    def exitsets(self, st, con, e):
        for tgt, x in con.sets:
            self.ghostset(st, e, tgt, x)

    def ghostset(self, st, e, tgt, x):
        import ast
        if isinstance(tgt, tuple):
            v, k = tgt
            oa = self.harr(st, k)
            na = fresh('H_' + k, oa.sort())
            c = z3.Const('each?%d' % freshid(), oa.sort().domain())
            if ',' in v:        # every element of a ghost map of every object
                v, w = [y.strip() for y in v.split(',')]
                j = z3.Const('each?%d' % freshid(), oa.sort().range().domain())
                r = e.with_env({v: TV(c, '*' + k.split('.')[0]), w: TV(j, 'Int')}).val(x)
                st.assume(z3.ForAll([c, j], na[c][j] == r, patterns=[na[c][j]] + ([oa[c][j]] if z3.is_const(oa) else [])))
                st.heap[k] = na
                return
            r = e.with_env({v: TV(c, '*' + k.split('.')[0])}).val(x)
            st.assume(z3.ForAll([c], z3.Select(na, c) == r, patterns=[z3.Select(na, c)] +
                                ([z3.Select(oa, c)] if z3.is_const(oa) else [])))
            st.heap[k] = na
            return
        if isinstance(tgt, ast.Subscript) and isinstance(tgt.slice, ast.Slice):      # every element of a ghost map
            o = e.ev(tgt.value.value)
            oa = e.val(tgt.value)
            v, t = tgt.slice.lower.id, tgt.slice.upper.id
            na = fresh('M_' + tgt.value.attr, oa.sort())
            c = z3.Const('each?%d' % freshid(), oa.sort().domain())
            st.assume(z3.ForAll([c], z3.Select(na, c) == e.with_env({v: TV(c, t)}).val(x), patterns=[z3.Select(na, c)]))
            self.hset(st, o.t[1:], tgt.value.attr, o.v, na)
            return
        v = e.ev(x)
        if isinstance(tgt, ast.Attribute):
            o = e.ev(tgt.value)
            self.hset(st, o.t[1:], tgt.attr, o.v, v.v)
        elif isinstance(tgt, ast.Name):
            st.heap[self.gkey(tgt.id)] = v.v
        elif isinstance(tgt, ast.Call) and tgt.func.id == 'heap':
            st.heap[tgt.args[0].value] = v.v
        else:
            raise Exception('set target')

    def splitite(self, st, p):
        while z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = p.children()
            if self.implied(st, c):
                p = a
            elif self.implied(st, z3.Not(c)):
                p = b
            else:
                break
        return p

    def post(self, st, kind, label, goal):
        for g in conjuncts(goal):
            self.addobl(st, kind, g, label)

    def framecheck(self, st, con, e):
        mods = {m[0]: m for m in con.modifies}
        for b, a in st.old.back.items():
            if not z3.eq(a, st.back[b]):
                self.addobl(st, 'frame', z3.BoolVal(False), 'elements of a slice it was given')
        if con.opts.get('noframe') == 'yes':
            return
        for k in sorted(st.heap):
            a = st.heap[k]
            o = st.old.heap.get(k)
            if o is None:
                o = z3.Const('H0_' + k, a.sort())
            if z3.eq(a, o):
                continue
            if k in mods:
                m = mods[k]
                if m[1] is None:
                    continue
                c = fresh('fr', Int)
                inside = Ev(self, st.old, dict(e.oldenv, **{m[1]: TV(c, '*' + k.split('.')[0])}), st.old,
                            e.oldenv).b(m[2])
                alloc = c < st.old.top if self.usetop else z3.BoolVal(True)
                self.addobl(st, 'frame', z3.Implies(z3.And(alloc, z3.Not(inside)),
                                                    z3.Select(a, c) == z3.Select(o, c)), k)
            else:
                c = fresh('fr', Int)
                alloc = c < st.old.top if self.usetop else z3.BoolVal(True)
                self.addobl(st, 'frame', z3.Implies(alloc, z3.Select(a, c) == z3.Select(o, c)), k)

    # ------------------------------------------------------------ instructions

    def i_Alloc(self, st, fr, ins):
        t = ins['elem']
        if ins['heap'] and self.isheapstruct(t):
            ref = self.newref(st, t)
            fr.regs[ins['reg']] = ref
            return
        cid = freshid()
        if t.startswith('[') and t[1].isdigit():
            n = int(t[1:t.index(']')])
            et = t[t.index(']') + 1:]
            st.cells[cid] = [None] * n
        elif t == '$ssa.deferStack':
            st.cells[cid] = None
        elif t == 'sync.Mutex':
            raise VerifError('local mutex')
        else:
            st.cells[cid] = self.zero(t)
        st.ctype[cid] = (ins['name'], t)
        if not (t.startswith('[') and t[1].isdigit()) and t != '$ssa.deferStack':
            fr.alloc[ins['reg']] = cid
        fr.regs[ins['reg']] = Addr('cell', cid)

    def newref(self, st, t):
        if t in self.sep:
            ref = fresh('new', Int)
            st.assume(ref != 0)
            d = {}
            for f in self.types.fields(t):
                d[f['name']] = self.zero(f['type'])
            st.chunks.append(('PT', ref, d))
            return ref
        if self.usetop:
            ref = st.top
            st.assume(ref > 0)
            ntop = fresh('top', Int)
            st.assume(ntop == ref + 1)
            st.top = ntop
        else:
            ref = fresh('new', Int)
            st.assume(ref > 0)
        st.newrefs.append(ref)
        self.zerofields(st, t, t, ref)
        return ref

    def zerofields(self, st, t, struct, ref):
        for f in self.types.fields(t):
            if f['type'] == 'sync.Mutex':
                continue
            d = self.types.under(f['type'])
            if f['embedded'] and d['k'] == 'struct':
                self.zerofields(st, f['type'], struct, ref)
            else:
                self.hset(st, struct, f['name'], ref, self.zero(f['type']))

    def i_Store(self, st, fr, ins):
        v = self.value(st, ins['val'])
        if 't' in ins['val'] and ins['val']['t'] == '$ssa.deferStack':
            return
        a = self.value(st, ins['addr'])
        if isinstance(v, Addr) and v.kind != 'cell':
            raise VerifError('address stored')
        self.store(st, self.toaddr(st, a, ins['addr']['t']), v)

    def toaddr(self, st, a, t):
        if isinstance(a, Addr):
            return a
        raise VerifError('store through pointer value of type ' + t)

    def i_UnOp(self, st, fr, ins):
        tok = ins['tok']
        if tok == '*':
            a = self.value(st, ins['x'])
            if ins['type'] == '$ssa.deferStack':
                fr.regs[ins['reg']] = None
                return
            fr.regs[ins['reg']] = self.load(st, a, ins['type'])
        elif tok == '!':
            fr.regs[ins['reg']] = z3.Not(self.value(st, ins['x']))
        elif tok == '-':
            fr.regs[ins['reg']] = self.wrap(-self.value(st, ins['x']), ins['type'], st)
        else:
            raise VerifError('unop ' + tok)

    def wrap(self, v, t, st=None):
        r = self.types.irange(t)
        if r is None:
            return v
        v = z3.simplify(v)
        if z3.is_int_value(v) and r[0] <= v.as_long() <= r[1]:
            return v
        lo, hi = r
        span = hi - lo + 1
        if self.mathint and self.types.undername(t) == 'int':
            return v
        return z3.If(v > hi, v - span, z3.If(v < lo, v + span, v))

    mathint = False

    def i_BinOp(self, st, fr, ins):
        tok = ins['tok']
        x, y = self.value(st, ins['x']), self.value(st, ins['y'])
        t = ins['x'].get('t')
        if isinstance(x, SliceV) or isinstance(y, SliceV):
            raise VerifError('slice comparison')
        if tok == '==':
            r = x == y
        elif tok == '!=':
            r = x != y
        elif tok == '<':
            r = x < y
        elif tok == '<=':
            r = x <= y
        elif tok == '>':
            r = x > y
        elif tok == '>=':
            r = x >= y
        elif tok == '+':
            r = fresh('s', Str) if z3.is_expr(x) and x.sort() == Str else self.wrap(x + y, ins['type'], st)
        elif tok == '-':
            r = self.wrap(x - y, ins['type'], st)
        elif tok == '*':
            if not (z3.is_int_value(x) or z3.is_int_value(y)):
                raise VerifError('nonlinear multiplication')
            lo, hi = self.types.irange(ins['type'])
            r = (x * y - lo) % (hi - lo + 1) + lo
        elif tok == '/':
            if z3.is_int_value(y) and y.as_long() > 0:
                r = z3.If(x >= 0, x / y, -((-x) / y))
            else:
                raise VerifError('division')
        elif tok == '>>':
            if z3.is_int_value(y):
                r = x / z3.IntVal(2 ** y.as_long())
            else:
                raise VerifError('shift')
        else:
            raise VerifError('binop ' + tok)
        if self.mathint and z3.is_expr(r) and r.sort() == Int and hasite(r):
            c = fresh(ins['reg'], Int)
            st.assume(c == r)
            r = c
        fr.regs[ins['reg']] = r

    def i_FieldAddr(self, st, fr, ins):
        x = self.value(st, ins['x'])
        if isinstance(x, Addr):
            if x.kind == 'cell':
                fr.regs[ins['reg']] = Addr('cell', x.a, None, x.path + ((ins['struct'], ins['field']),))
            else:
                fr.regs[ins['reg']] = Addr(x.kind, x.a, x.b, x.path + (ins['field'],))
        else:
            fr.regs[ins['reg']] = Addr('heap', x, ins['struct'], (ins['field'],))

    def i_Field(self, st, fr, ins):
        fr.regs[ins['reg']] = self.proj(self.value(st, ins['x']), (ins['struct'], ins['field']))

    def i_IndexAddr(self, st, fr, ins):
        x = self.value(st, ins['x'])
        i = self.value(st, ins['i'])
        if isinstance(x, Addr):
            fr.regs[ins['reg']] = Addr('cell', x.a, None, x.path + (i.as_long(),))
        elif isinstance(x, SliceV):
            self.oblige(st, 'bounds', z3.And(i >= 0, i < x.ln), 'index')
            fr.regs[ins['reg']] = Addr('elem', x, i)
        else:
            raise VerifError('IndexAddr')

    def i_Slice(self, st, fr, ins):
        x = self.value(st, ins['x'])
        if isinstance(x, Addr):
            v = st.cells[x.a]
            if not v and ins['type'] == '[]byte':
                fr.regs[ins['reg']] = z3.Const('bnil', Bytes)
                return
            d = self.types.under(ins['type'])
            if d['elem'] in ('any', 'interface{}', 'string'):
                fr.regs[ins['reg']] = ('varargs', list(v))
                return
            bid = freshid()
            arr = z3.K(Int, self.zero(d['elem']))
            for i, e in enumerate(v):
                arr = z3.Store(arr, i, e if e is not None else self.zero(d['elem']))
            st.back[bid] = arr
            fr.regs[ins['reg']] = SliceV(bid, z3.IntVal(0), z3.IntVal(len(v)), d['elem'])
            return
        lo = self.value(st, ins['low']) if 'low' in ins else z3.IntVal(0)
        if isinstance(x, SliceV):
            hi = self.value(st, ins['high']) if 'high' in ins else x.ln
            self.oblige(st, 'bounds', z3.And(lo >= 0, lo <= hi, hi <= x.ln), 'slice')
            fr.regs[ins['reg']] = SliceV(x.bid, z3.simplify(x.off + lo), z3.simplify(hi - lo), x.et)
            return
        if z3.is_expr(x) and x.sort() == Bytes:
            if 'high' in ins:
                raise VerifError('byte slice upper bound')
            fr.regs[ins['reg']] = self.byteslice(st, x, lo)
            return
        raise VerifError('Slice')

    def byteslice(self, st, x, lo):
        f = z3.Function('bdrop', Bytes, Int, Bytes)
        return f(x, lo)

    def i_MakeSlice(self, st, fr, ins):
        d = self.types.under(ins['type'])
        n = self.value(st, ins['len'])
        self.oblige(st, 'bounds', n >= 0, 'make')
        bid = freshid()
        st.back[bid] = z3.K(Int, self.zero(d['elem']))
        fr.regs[ins['reg']] = SliceV(bid, z3.IntVal(0), n, d['elem'])

    def i_MakeInterface(self, st, fr, ins):
        x = self.value(st, ins['x'])
        xt = ins['x']['t']
        t = ins['type']
        if self.types.sort(t) == Any:
            if isinstance(x, Addr) or isinstance(x, tuple) or isinstance(x, SliceV):
                fr.regs[ins['reg']] = x if isinstance(x, Addr) else Any.AOther(fresh('o', Int))
            elif xt in BOX:
                fr.regs[ins['reg']] = BOX[xt][0](x)
            elif z3.is_expr(x) and x.sort() not in (Int, Any):
                fr.regs[ins['reg']] = ('boxed', x, xt)
            else:
                fr.regs[ins['reg']] = Any.AOther(fresh('o', Int))
        else:
            if z3.is_expr(x) and x.sort() == Int:
                fr.regs[ins['reg']] = x
            else:
                fr.regs[ins['reg']] = fresh('iface', Int)

    def i_ChangeInterface(self, st, fr, ins):
        x = self.value(st, ins['x'])
        if ins['x']['t'] == 'error' and self.types.sort(ins['type']) == Any:
            x = Any.AErr(x)
        fr.regs[ins['reg']] = x

    def i_ChangeType(self, st, fr, ins):
        fr.regs[ins['reg']] = self.value(st, ins['x'])

    def i_Convert(self, st, fr, ins):
        x = self.value(st, ins['x'])
        t = ins['type']
        lo, hi = self.types.irange(t)
        slo, shi = self.types.irange(ins['x']['t'])
        span = hi - lo + 1
        if slo >= lo and shi <= hi:
            r = x
        elif hi - lo == shi - slo:
            r = z3.If(x > hi, x - span, z3.If(x < lo, x + span, x))
        else:
            r = (x - lo) % span + lo
        fr.regs[ins['reg']] = r

    def i_TypeAssert(self, st, fr, ins):
        x = self.value(st, ins['x'])
        t = ins['asserted']
        if self.types.sort(ins['x']['t']) == Any:
            if not z3.is_expr(x):
                raise VerifError('TypeAssert on %r' % (x,))
            _, un, isx = BOX[t]
            ok = isx(x)
            v = un(x)
            if ins['commaok']:
                fr.regs[ins['reg']] = (z3.If(ok, v, self.zero(t)), ok)
            else:
                self.oblige(st, 'typeassert', ok, t)
                fr.regs[ins['reg']] = v
        else:
            # an interface with methods holding one known implementation in this package
            self.oblige(st, 'nil', x != 0, 'typeassert')
            fr.regs[ins['reg']] = x

    def i_Extract(self, st, fr, ins):
        fr.regs[ins['reg']] = self.value(st, ins['x'])[ins['i']]

    def i_Defer(self, st, fr, ins):
        fr.defers.append((ins, [self.value(st, a) for a in ins['args']]))

    def i_RunDefers(self, st, fr, ins):
        self.rundefers(st, fr)

    def i_Go(self, st, fr, ins):
        self.gostmt(st, fr, ins)

    def gostmt(self, st, fr, ins):
        pass

    def i_Call(self, st, fr, ins):
        args = [self.value(st, a) for a in ins['args']]
        return self.docall(st, fr, ins, args, ins['reg'])

    # ------------------------------------------------------------ calls

    def docall(self, st, fr, ins, args, reg):
        v = ins['value']
        if 'invoke' in ins:
            recv = self.value(st, v)
            nm = self.invokename(ins)
            self.oblige(st, 'nil', recv != 0, 'call ' + nm) if z3.is_expr(recv) else None
            return self.callcontract(st, fr, ins, nm, [recv] + args, reg)
        if 'b' in v:
            return self.builtin(st, fr, ins, v['b'], args, reg)
        if 'f' in v:
            return self.static(st, fr, ins, v['f'], args, reg)
        fv = self.value(st, v)
        t = v['t']
        if t == 'Compare':
            return self.callcompare(st, fr, ins, fv, args, reg)
        raise VerifError('dynamic call of ' + t)

    def callcompare(self, st, fr, ins, fv, args, reg):
        ordf = z3.Function('ord', Any, Real)
        good = z3.Function('good', Any, Bool)
        a, b = args
        r = fresh('cmp', Int)
        e = fresh('cmperr', Int)
        st.assume(e >= 0)
        st.assume((e != 0) == z3.Or(z3.Not(good(a)), z3.Not(good(b))))
        st.assume(z3.Implies(e == 0, z3.And((r < 0) == (ordf(a) < ordf(b)), (r > 0) == (ordf(a) > ordf(b)))))
        self.trustedused.add('Compare callback: a pure total preorder, refusing exactly the keys it cannot compare')
        fr.regs[reg] = (r, e)

    def builtin(self, st, fr, ins, b, args, reg):
        if b == 'len':
            x = args[0]
            if isinstance(x, SliceV):
                fr.regs[reg] = x.ln
            elif z3.is_expr(x) and x.sort() == Bytes:
                n = z3.Function('blen', Bytes, Int)(x)
                st.assume(n >= 0)
                st.assume(n < 2**62)
                fr.regs[reg] = n
            else:
                raise VerifError('len')
        elif b == 'append':
            x, y = args
            if isinstance(x, SliceV) and isinstance(y, SliceV):
                n = y.ln
                if not z3.is_int_value(n):
                    raise VerifError('append of a slice')
                bid = freshid()
                arr = st.back[x.bid] if x.bid != -1 else z3.K(Int, self.zero(x.et))
                for i in range(n.as_long()):
                    arr = z3.Store(arr, x.off + x.ln + i, z3.Select(st.back[y.bid], y.off + i))
                st.back[bid] = arr
                fr.regs[reg] = SliceV(bid, x.off, z3.simplify(x.ln + n), x.et)
            elif z3.is_expr(x) and x.sort() == Bytes:
                fr.regs[reg] = z3.Function('bcat', Bytes, Bytes, Bytes)(x, y)
            else:
                raise VerifError('append')
        elif b.startswith('ssa:'):
            fr.regs[reg] = None
        else:
            raise VerifError('builtin ' + b)

    def static(self, st, fr, ins, name, args, reg):
        if name == LOCK:
            return self.lock(st, fr, args[0])
        if name == UNLOCK:
            return self.unlock(st, fr, args[0])
        if self.variant(name) in self.spec.contracts:
            return self.callcontract(st, fr, ins, name, args, reg)
        h = getattr(self, 'ext_' + name.replace('.', '_').replace('(', '').replace(')', '').replace('*', '')
                    .replace('/', '_').replace('-', '_'), None)
        if h:
            return h(st, fr, ins, args, reg)
        if name in self.funcs:
            f = self.funcs[name]
            if any(x.fn is f for x in st.frames):
                raise VerifError('recursive function %s has no contract' % name)
            self.inlined.add(name)
            nf = Frame(f, reg)
            for p, a in zip(f['params'], args):
                nf.regs['%' + p['name']] = a
            st.frames.append(nf)
            return [st]
        raise VerifError('call of ' + name)

    def ext_fmt_Errorf(self, st, fr, ins, args, reg):
        e = fresh('errorf', Int)
        st.assume(e > 0)
        fr.regs[reg] = e

    def ext_strings_Join(self, st, fr, ins, args, reg):
        fr.regs[reg] = fresh('joined', Str)

    def ext_fmt_Printf(self, st, fr, ins, args, reg):
        e = fresh('perr', Int)
        st.assume(e >= 0)
        fr.regs[reg] = (fresh('n', Int), e)

    def lockkey(self, a):
        if not (isinstance(a, Addr) and a.kind == 'heap'):
            raise VerifError('mutex address')
        return a.b, a.a

    def lock(self, st, fr, a):
        s, ref = self.lockkey(a)
        self.nilcheck(st, ref, 'Mutex')
        for hs, hr in st.held:
            if hs == s:
                self.oblige(st, 'lock', z3.Not(z3.BoolVal(self.same(st, hr, ref))), 'not already held')
        self.lockorder(st, s, ref)
        st.held.append((s, ref))
        self.onlock(st, fr, s, ref)

    def lockorder(self, st, s, ref):
        pass

    def onlock(self, st, fr, s, ref):
        pass

    def onunlock(self, st, fr, s, ref):
        pass

    def unlock(self, st, fr, a):
        s, ref = self.lockkey(a)
        for i, (hs, hr) in enumerate(st.held):
            if hs == s and self.same(st, hr, ref):
                self.onunlock(st, fr, s, ref)
                st.held.pop(i)
                return
        self.oblige(st, 'lock', z3.BoolVal(False), 'unlock of a lock that is held')

    def callcontract(self, st, fr, ins, name, args, reg):
        base, name = name, self.variant(name)
        con = self.spec.contracts.get(name)
        if con is None:
            raise VerifError('no contract for ' + name)
        if con.opts.get('trusted') == 'yes':
            self.trustedused.add('contract of ' + name)
        self.called.add(name)
        params, results = self.signature(ins, base)
        env = {}
        for (pn, pt), a in zip(params, args):
            if isinstance(a, Addr):
                env[pn] = TV(a, pt)
            else:
                env[pn] = TV(a, pt)
        short = name.split('.')[-1]
        self.calleeenv(st, env)
        self.hooks(st, fr, ins, 'before', base, {'arg_' + k: v for k, v in env.items()})
        pre = st.copy()
        for n, x in con.consumes:
            p = Ev(self, st, env, pre, env).val(x)
            env[n] = TV(self.foldn(st, p, n), 'Tree')
        for h in con.opts.get('holds', '').split():
            v = env[h]
            self.oblige(st, 'lock', z3.BoolVal(self.is_held(st, v.t[1:], v.v)), 'held when calling ' + short)
        if con.opts.get('locks') and con.opts['locks'] in env:
            v = env[con.opts['locks']]
            self.oblige(st, 'lock', z3.BoolVal(not self.is_held(st, v.t[1:], v.v)), 'not held when calling ' + short)
        for n, e in con.lets:
            env[n] = Ev(self, pre, env, pre, env).ev(e)
        for n, e in con.wits + con.exits:
            env[n] = TV(fresh(n, Int), 'Int')
        e = Ev(self, st, env, st, env)
        for lb, x in con.requires:
            self.oblige(st, 'call ' + short, e.b(x), lb)
        if con.decreases is not None and st.exit[1] is con and st.exit[0] == 'func':
            d0 = Ev(self, st.old, st.exit[2], st.old, st.exit[2]).val(con.decreases)
            d1 = e.val(con.decreases)
            self.oblige(st, 'decreases', z3.And(d1 < d0, d1 >= 0), short)
        npc = len(st.pc)
        for m in con.modifies:
            self.havocfield(st, m[0])
            if m[1]:
                c = z3.Const('mf_%s' % freshid(), Int)
                inside = Ev(self, pre, dict(env, **{m[1]: TV(c, '*' + m[0].split('.')[0])}), pre, env).b(m[2])
                na, oa = st.heap[m[0]], self.harr(pre, m[0])
                alloc = c < pre.top if self.usetop else z3.BoolVal(True)
                st.assume(z3.ForAll([c], z3.Implies(z3.And(alloc, z3.Not(inside)),
                                                    z3.Select(na, c) == z3.Select(oa, c)),
                                    patterns=[z3.Select(na, c)] +
                                    ([z3.Select(oa, c)] if self.bidi and z3.is_const(oa) else [])))
        st.named['frame'] = st.pc[npc:]
        st.named['frames'] = st.named.get('frames', []) + st.pc[npc:]
        if con.opts.get('allocates') == 'yes' and self.usetop:
            nt = fresh('top', Int)
            st.assume(nt >= st.top)
            st.top = nt
        rs = []
        env2 = dict(env)
        for i, (rn, rt) in enumerate(results):
            v = self.freshval(st, rt, rn or 'r')
            rs.append(v)
            env2[rn or 'r%d' % i] = TV(v, self.IFACE.get(rt, rt))
        for n, x in con.produces:
            p = z3.simplify(Ev(self, st, env2, pre, env).val(x))
            env2[n] = TV(self.newtree(st, p, n), 'Tree')
        e2 = Ev(self, st, env2, pre, env)
        self.callsets(st, con, e2)
        for lb, x in con.ensures:
            self.assumelabel(st, lb, e2.b(x))
        self.aftercall(st, con, env2, pre)
        extra = {'res_' + (rn or 'r%d' % i): TV(rs[i], self.IFACE.get(rt, rt)) for i, (rn, rt) in enumerate(results)}
        extra.update({'arg_' + k: v for k, v in env.items()})
        extra.update({'exit_' + n: env[n] for n, _ in con.exits})
        self.hooks(st, fr, ins, 'at', base, extra)
        if reg:
            fr.regs[reg] = rs[0] if len(rs) == 1 else tuple(rs)
        if con.opts.get('noreturn') == 'yes':
            return []

    def hooks(self, st, fr, ins, when, callee, extra={}):
        cur = self.spec.contracts.get(self.cur)
        if cur is None or not cur.hooks or not st.frames:
            return
        for h in cur.hooks:
            if h[0] != when or h[1] != callee or h[2] is not None and (
                    fr is not st.frames[0] or self.ordinal(fr.fn, ins) != h[2]):
                continue
            e = Ev(self, st, dict(st.exit[2], **dict(self.localenv(st, st.frames[0]), **extra)), st.old, st.exit[2])
            if h[3] == 'set':
                self.ghostset(st, e, h[4], h[5])
            elif h[3] == 'let':
                st.ghost = dict(st.ghost, **{h[4]: e.ev(h[5])})
            elif h[3] == 'assert' and h[4] == 'inv':
                self.post(st, 'assert', h[4], e.b(h[5]))
                self.assumelabel(st, h[4], e.b(h[5]))
            elif h[3] == 'assert':
                n, by = len(st.pc), None
                if h[6]:
                    for lb in h[6]:
                        if lb not in st.named:
                            raise VerifError('no fact called ' + lb)
                    ids = {p.get_id() for lb in h[6] for p in st.named[lb]}
                    by = [p for p in st.pc if not has_quant(p) or p.get_id() in ids]
                self.oblige(st, 'assert', e.b(h[5]), h[4], by)
                st.named[h[4]] = st.pc[n:]
            else:
                self.derive(st, [h[5]], e)

    def ordinal(self, fn, ins):
        """Which of the function's calls of the same callee this is, in the order of the text."""
        if 'ordinals' not in fn:
            cs = {}
            for b, blk in enumerate(fn['blocks']):
                for j, i in enumerate(blk['instrs']):
                    if i['op'] in ('Call', 'Defer', 'Go'):
                        nm = self.invokename(i) if 'invoke' in i else i['value'].get('f')
                        if nm:
                            cs.setdefault(nm, []).append((int(i.get('pos', ':0').split(':')[1]), b, j, i))
            fn['ordinals'] = {id(c[3]): k + 1 for l in cs.values() for k, c in enumerate(sorted(l, key=lambda c: c[:3]))}
        return fn['ordinals'].get(id(ins))

    def variant(self, name):
        """The contract of the callee that the function being verified relies on."""
        cur = self.spec.contracts.get(self.cur)
        for v in cur.opts.get('calls', '').split() if cur else ():
            if v.split('@')[0] == name:
                return v
        return name

    def callsets(self, st, con, e):
        self.exitsets(st, con, e)

    def calleeenv(self, st, env):
        pass

    def aftercall(self, st, con, env, pre):
        pass

    def signature(self, ins, name):
        if name in self.funcs:
            f = self.funcs[name]
            return [(p['name'], p['type']) for p in f['params']], [(r['name'], r['type']) for r in f['results']]
        d = self.types.tab[ins['sig']]
        ps = [(p['name'] or 'a%d' % i, p['type']) for i, p in enumerate(d['params'])]
        if 'invoke' in ins:
            ps = [('self', self.recvtype(ins))] + ps
        return ps, [(r['name'], r['type']) for r in d['results']]

    IFACE = {'LLRBTree': '*llrbTreeStruct', 'BPlusTree': '*btreeTreeStruct', 'BPlusTreeCache': '*btreeNodeCacheStruct'}

    def recvtype(self, ins):
        return self.IFACE.get(ins['itype'], ins['itype'])


def splitgoal(g):
    """[(hypotheses, goal)]: conjunctions, implications and universal quantifiers of the goal opened."""
    if z3.is_and(g):
        return [x for c in g.children() for x in splitgoal(c)]
    if z3.is_implies(g):
        a, b = g.children()
        a = z3.simplify(a)
        if z3.is_false(a):
            return [([], z3.BoolVal(True))]
        h = [] if z3.is_true(a) else conjuncts(a)
        return [(h + hy, x) for hy, x in splitgoal(b)]
    if z3.is_quantifier(g) and g.is_forall():
        vs = [fresh('sk_' + g.var_name(i).split('?')[0], g.var_sort(i)) for i in range(g.num_vars())]
        rv = list(reversed(vs))
        hy = []
        for i in range(g.num_patterns()):
            # keep the terms the quantifier is indexed by in sight of the solver
            for t in g.pattern(i).children():
                hy.append(z3.Function('seen_%s' % t.sort(), t.sort(), Bool)(z3.substitute_vars(t, *rv)))
        return [(hy + h, x) for h, x in splitgoal(z3.substitute_vars(g.body(), *rv))]
    s = z3.simplify(g)
    if z3.is_true(s):
        return [([], s)]
    if z3.is_eq(g) and z3.is_bool(g.arg(0)):
        a, b = g.children()
        return [([a], b), ([b], a)]
    return [([], g)]


class NoPerm(Exception):
    pass


def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out.extend(conjuncts(c))
        return out
    return [g]


_qc = {}


def has_quant(e):
    k = e.get_id()
    if k in _qc:
        return _qc[k][0]
    if z3.is_quantifier(e):
        r = True
    else:
        r = any(has_quant(c) for c in e.children())
    _qc[k] = (r, e)
    return r
