"""Lock mode: data values are arbitrary; what is decided is which locks are held where.

Every function of the B+Tree and the node cache is executed symbolically against contracts/locks.spec.
Obligations: guarded fields only under their lock, lock state at returns and around loops, no lock taken
twice, no tree lock awaited while a cache lock is held, one critical section per exported operation, and
ownership of node pointers (each belongs to the tree it is reached from)."""
import ast
import heapq
import z3
from .core import *
from .ev import Ev
from .exe import Ver, LOCK, UNLOCK

NODE, TREE, CACHE = 'btreeNodeStruct', 'btreeTreeStruct', 'btreeNodeCacheStruct'
LRU = ('nextBTreeNode', 'prevBTreeNode')
TAG = 'btreeNodeCacheTag'
PTRS = ('*' + NODE, '*' + TREE, '*' + CACHE, 'bool')
KINDS = ('lock', 'lockstate', 'lockorder', 'owner')


class LockVer(Ver):
    usetop = True
    mathint = True

    def __init__(self, ssa, spec):
        super().__init__(ssa, spec, sep=())
        self.rpos = {}

    def prove_lemmas(self):
        self.bg = []
        super().prove_lemmas()

    def addobl(self, st, kind, goal, label, by=None):
        k = kind.split('.')[-1]
        if k in KINDS:
            super().addobl(st, k, goal, label)

    def oblige(self, st, kind, goal, label='', by=None):
        if kind.split('.')[-1] in KINDS:
            super().oblige(st, kind, goal, label)
        elif not has_and_false(goal):
            st.assume(goal)

    # ---------------------------------------------------------------- entry and exit

    def entry(self, st, f, con):
        st.mon = {'crit': 0, 'pending': []}
        st.top = fresh('top', Int)
        st.assume(st.top > 0)

    def verify(self, fname):
        self.curcon = self.spec.contracts[fname]
        super().verify(fname)

    def ownerterm(self, st, env, con):
        h = con.opts.get('lockheld')
        if not h:
            return None
        e = parse(h)
        if not isinstance(e, ast.Name):
            st.assume(Ev(self, st, env).ev(e.value).v != 0)     # a method called through a nil node would panic
        return Ev(self, st, env).ev(e)

    def run(self, st):
        if len(st.frames) == 1 and not st.mon.get('begun'):
            st.mon['begun'] = True
            con = st.exit[1]
            env = st.exit[2]
            h = self.ownerterm(st, env, con)
            if h is not None:
                st.held = [(TREE, h.v)]
                st.exit = st.exit[:3] + (list(st.held),) + st.exit[4:]
                st.assume(h.v != 0)
                for n, tv in env.items():
                    if tv.t == '*' + NODE:
                        st.assume(self.owned(st, tv.v, h.v))
        self.runmerged(st)

    # ---------------------------------------------------------------- paths, merged where they meet again

    def rpo(self, f):
        k = f['name']
        if k not in self.rpos:
            order, seen = [], set()
            stack = [(0, iter(f['blocks'][0]['succs']))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(f['blocks'][s]['succs'])))
                        break
                else:
                    order.append(b)
                    stack.pop()
            n = len(order)
            self.rpos[k] = {b: n - i for i, b in enumerate(order)}
        return self.rpos[k]

    def rank(self, st):
        return tuple(self.rpo(f.fn)[f.bi] * 10000 + f.ii for f in st.frames)

    def runmerged(self, st0):
        work = [(self.rank(st0), 0, st0)]
        merging = self.curcon.opts.get('merge') == 'yes'
        n = 0
        while work:
            _, _, st = heapq.heappop(work)
            while merging and work and work[0][0] == self.rank(st):
                m = self.merge(st, work[0][2])
                if m is None:
                    break
                heapq.heappop(work)
                st = m
            n += 1
            if n > self.maxpaths:
                raise VerifError('too many paths')
            for s in self.step(st):
                work_n = freshid()
                heapq.heappush(work, (self.rank(s), work_n, s))

    def jump(self, st, tgt):
        r = super().jump(st, tgt)
        if r is None and self.curcon.opts.get('merge') == 'yes' and len(st.frames[-1].fn['blocks'][tgt]['preds']) > 1:
            return [st]
        return r

    def merge(self, a, b):
        """One state that covers both, or None when they differ in something that matters here."""
        if len(a.held) != len(b.held) or any(x[0] != y[0] or not z3.eq(x[1], y[1]) for x, y in zip(a.held, b.held)):
            return None
        if a.mon['crit'] != b.mon['crit']:
            return None
        for k in (NODE + '.tree', TREE + '.nodeCache'):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is not None and y is not None and not z3.eq(x, y):
                return None
        for f, g in zip(a.frames, b.frames):
            if f.fn is not g.fn or f.bi != g.bi or f.ii != g.ii or len(f.defers) != len(g.defers) or \
                    set(f.active) != set(g.active) or f.ret != g.ret:
                return None
        for c in a.cells:
            if c in b.cells and same(a.cells[c], b.cells[c]) is False and a.ctype[c][1] in PTRS[:3]:
                return None
        m = a.copy()
        if not z3.eq(a.top, b.top):
            m.top = fresh('top', Int)
        m.newrefs = [r for r in a.newrefs if any(z3.eq(r, q) for q in b.newrefs)]
        ids = {p.get_id() for p in b.pc}
        m.pc = [p for p in a.pc if p.get_id() in ids]
        for f, g in zip(m.frames, b.frames):
            f.regs = {r: v for r, v in f.regs.items() if r in g.regs and same(v, g.regs[r])}
        for c in list(m.cells):
            if c not in b.cells:
                del m.cells[c]
            elif not same(m.cells[c], b.cells[c]) and not isinstance(m.cells[c], list):
                m.cells[c] = self.anyval(m, m.ctype[c][1])
        for k in list(m.heap):
            if k not in b.heap or not z3.eq(m.heap[k], b.heap[k]):
                if k in (NODE + '.tree', TREE + '.nodeCache'):
                    continue
                m.heap[k] = fresh('H_' + k, m.heap[k].sort())
        for t in (a.top, b.top):
            if not z3.eq(t, m.top):
                m.assume(m.top >= t)
        seen = {(p[0], p[1].get_id(), p[2]) for p in m.mon['pending']}
        m.mon = dict(m.mon, pending=m.mon['pending'] + [p for p in b.mon['pending']
                                                        if (p[0], p[1].get_id(), p[2]) not in seen])
        m.trace = [t for t, u in zip(a.trace, b.trace) if t == u]
        return m

    def exit_func(self, st, vals):
        self.stats['paths'] += 1
        fr = st.frames[0]
        held0 = st.exit[3]
        ok = len(held0) == len(st.held) and all(self.is_held(st, s, r) for s, r in held0)
        self.oblige(st, 'lock', z3.BoolVal(ok), 'locks on return are those held on entry')
        self.settle(st)
        h = self.ownerterm(st, st.exit[2], st.exit[1])
        for r, v in zip(fr.fn['results'], vals):
            if r['type'] == '*' + NODE and h is not None:
                self.oblige(st, 'owner', self.owned(st, v, h.v), 'returned node')

    # ---------------------------------------------------------------- ownership

    def treeof(self, st, n):
        return self.hget(st, NODE, 'tree', n).v

    def owned(self, st, n, t):
        return z3.Or(n == 0, self.treeof(st, n) == t)

    def heldtrees(self, st):
        return [r for s, r in st.held if s == TREE]

    def curtrees(self, st):
        return self.heldtrees(st) or [r for r in st.newrefs if ('T', r.get_id()) in st.mon]

    def newref(self, st, t):
        r = super().newref(st, t)
        if t == TREE:
            st.mon[('T', r.get_id())] = True
        return r

    def settle(self, st):
        """Fields of objects under construction satisfy ownership once anyone else can look."""
        for s, ref, f, v in st.mon['pending']:
            self.oblige(st, 'owner', self.owned(st, v, ref if s == TREE else self.treeof(st, ref)),
                        'new %s.%s' % (s, f))
        st.mon['pending'] = []

    def guardcheck(self, st, struct, field, ref):
        pass

    def fresh_owned(self, st, ref):
        return super().fresh_owned(st, z3.simplify(ref))

    def access2(self, st, struct, field, ref, write):
        if self.fresh_owned(st, ref):
            return
        what = '%s of %s.%s' % ('write' if write else 'read', struct, field)
        if struct == NODE:
            if field == 'tree':
                self.oblige(st, 'lock', z3.BoolVal(not write), 'the owning tree of a node never changes')
                return
            cache = any(s == CACHE for s, _ in st.held)
            if field in LRU:
                self.oblige(st, 'lock', z3.BoolVal(cache), what + ' only under the cache lock')
                return
            tree = self.is_held(st, TREE, self.treeof(st, ref))
            if field == TAG:
                self.oblige(st, 'lock', z3.BoolVal(tree and cache if write else tree or cache),
                            what + ' only under the locks')
                return
            self.oblige(st, 'lock', z3.BoolVal(tree), what + ' only under its lock')
        elif struct + '.' + field in self.spec.guards:
            self.oblige(st, 'lock', z3.BoolVal(self.is_held(st, struct, ref)), what + ' only under its lock')

    def heapload(self, st, a):
        struct, ref, field = a.b, a.a, a.path[-1]
        st.assume(ref != 0)
        self.access2(st, struct, field, ref, False)
        tv = self.hget(st, struct, field, ref)
        self.typefacts(st, tv.v, tv.t)
        if tv.t == '*' + NODE and field not in LRU and struct in (NODE, TREE):
            if not self.fresh_owned(st, ref):
                st.assume(self.owned(st, tv.v, ref if struct == TREE else self.treeof(st, ref)))
        return tv.v

    def heapstore(self, st, a, v):
        struct, ref, field = a.b, a.a, a.path[-1]
        st.assume(ref != 0)
        self.access2(st, struct, field, ref, True)
        t = self.fieldtype(struct, field)
        if not z3.is_expr(v):
            v = fresh('sv', self.types.sort(t) or Int)
        if t == '*' + NODE and field not in LRU and struct in (NODE, TREE):
            if self.fresh_owned(st, ref):
                st.mon['pending'] = [p for p in st.mon['pending'] if not (p[0] == struct and p[2] == field and
                                                                         z3.eq(p[1], ref))] + [(struct, ref, field, v)]
            else:
                self.oblige(st, 'owner', self.owned(st, v, ref if struct == TREE else self.treeof(st, ref)),
                            'node stored in %s.%s' % (struct, field))
        if struct == TREE and field == 'root':
            self.oblige(st, 'owner', z3.BoolVal(self.fresh_owned(st, ref) or self.curcon.opts.get('keeps') != 'root'),
                        'this function leaves the root where it is')
        if struct == TREE and field == 'nodeCache' and not self.fresh_owned(st, ref):
            self.oblige(st, 'lock', z3.BoolVal(self.curcon.opts.get('atomic') == 'yes'),
                        'only an exported operation may change which cache a tree uses')
        self.hset(st, struct, field, ref, v)

    def load(self, st, a, t):
        if isinstance(a, Addr) and a.kind == 'elem':
            v = self.anyval(st, t)
            if t == '*' + NODE and self.curtrees(st):
                st.assume(self.owned(st, v, self.curtrees(st)[0]))
            return v
        if isinstance(a, Addr) and a.kind == 'global':
            return self.anyval(st, t)
        if not isinstance(a, Addr):
            return self.anyval(st, t)
        try:
            return super().load(st, a, t)
        except VerifError:
            return self.anyval(st, t)

    def store(self, st, a, v):
        if isinstance(a, Addr) and a.kind == 'elem':
            if a.a.et == '*' + NODE:
                self.ownbox(st, v, 'node stored in a slice')
            return
        if isinstance(a, Addr) and a.kind == 'cell':
            try:
                return super().store(st, a, v)
            except (VerifError, z3.Z3Exception, AttributeError):
                if st.ctype[a.a][1] in ('*' + NODE, '*' + TREE, '*' + CACHE):
                    raise
                st.cells[a.a] = self.anyval(st, st.ctype[a.a][1])
                return
        return super().store(st, a, v)

    def ownbox(self, st, v, what):
        ts = self.curtrees(st)
        if not ts:
            self.oblige(st, 'owner', z3.BoolVal(False), what + ' outside any operation')
            return
        self.oblige(st, 'owner', self.owned(st, v, ts[0]), what)

    # ---------------------------------------------------------------- values

    def anyval(self, st, t):
        d = self.types.under(t) if t in self.types.tab else None
        if d is not None and d['k'] == 'tuple':
            return tuple(self.anyval(st, e['type']) for e in d['elems'])
        try:
            return self.freshval(st, t, 'v')
        except (VerifError, KeyError, TypeError, AttributeError, z3.Z3Exception):
            return ('opaque', t)

    def freshval(self, st, t, name):
        d = self.types.under(t) if t in self.types.tab else None
        if d and d['k'] == 'slice' and not self.types.isbyte(d['elem']):
            return SliceV(freshid(), z3.IntVal(0), z3.IntVal(0), d['elem'])
        return super().freshval(st, t, name)

    def typefacts(self, st, v, t):
        if t in ('*' + NODE, '*' + TREE, '*' + CACHE):
            st.assume(z3.And(v >= 0, v < st.top))

    def pure(self, st, fr, ins, f):
        try:
            f(st, fr, ins)
            if fr.regs[ins['reg']] is not None:
                return
        except (VerifError, KeyError, TypeError, AttributeError, z3.Z3Exception):
            pass
        fr.regs[ins['reg']] = self.anyval(st, ins['type'])

    def i_BinOp(self, st, fr, ins):
        if ins['tok'] in ('==', '!='):
            return self.pure(st, fr, ins, super().i_BinOp)
        fr.regs[ins['reg']] = self.anyval(st, ins['type'])

    def i_Convert(self, st, fr, ins):
        fr.regs[ins['reg']] = self.anyval(st, ins['type'])

    i_MakeSlice = i_Lookup = i_MakeMap = i_Index = i_Field = i_Convert

    def i_Slice(self, st, fr, ins):
        fr.regs[ins['reg']] = self.anyval(st, ins['type'])

    def i_IndexAddr(self, st, fr, ins):
        x = self.value(st, ins['x'])
        if isinstance(x, SliceV):
            fr.regs[ins['reg']] = Addr('elem', x, z3.IntVal(0))
        else:
            fr.regs[ins['reg']] = Addr('elem', SliceV(0, z3.IntVal(0), z3.IntVal(0), ins['type'][1:]), z3.IntVal(0))

    def i_MapUpdate(self, st, fr, ins):
        pass

    def i_Range(self, st, fr, ins):
        fr.regs[ins['reg']] = None

    def i_Next(self, st, fr, ins):
        d = self.types.tab[ins['type']]
        fr.regs[ins['reg']] = tuple(self.anyval(st, e['type']) for e in d['elems'])

    def i_UnOp(self, st, fr, ins):
        if ins['tok'] in ('*', '!'):
            return super().i_UnOp(st, fr, ins)
        fr.regs[ins['reg']] = self.anyval(st, ins['type'])

    def i_MakeInterface(self, st, fr, ins):
        if ins['x'].get('t') == '*' + NODE and ins['type'] in ('Value', 'Key'):
            self.ownbox(st, self.value(st, ins['x']), 'node stored as a map value')
        if ins['type'] in ('BPlusTree', 'BPlusTreeCache', 'LLRBTree', 'error'):
            fr.regs[ins['reg']] = self.value(st, ins['x'])
            return
        fr.regs[ins['reg']] = self.anyval(st, ins['type'])

    def i_ChangeInterface(self, st, fr, ins):
        fr.regs[ins['reg']] = self.anyval(st, ins['type'])

    def i_TypeAssert(self, st, fr, ins):
        t = ins['asserted']
        x = self.value(st, ins['x'])
        if t in ('*' + CACHE, '*' + TREE) and z3.is_expr(x) and x.sort() == Int:
            v = x
        else:
            v = self.anyval(st, t)
        if t == '*' + NODE:
            ts = self.curtrees(st)
            if ts:
                st.assume(self.owned(st, v, ts[0]))
        if ins['commaok']:
            ok = fresh('ok', Bool)
            if t == '*' + NODE:
                v2 = z3.If(ok, v, z3.IntVal(0))
                fr.regs[ins['reg']] = (v2, ok)
                st.assume(self.owned(st, v2, ts[0])) if ts else None
            else:
                fr.regs[ins['reg']] = (v, ok)
        else:
            fr.regs[ins['reg']] = v

    def nilcheck(self, st, ref, what):
        st.assume(ref != 0)

    # ---------------------------------------------------------------- loops

    def loophead(self, st, fr, head, info, back):
        if back:
            act = fr.active.get(head)
            if act is None:
                raise VerifError('irreducible loop')
            self.heldsame(st, act['held'], 'loop')
            for c, t in act['inv']:
                self.oblige(st, 'owner', self.owned(st, st.cells[c], t), 'node variable of a loop')
            self.stats['paths'] += 1
            return []
        cells, fields, elems = self.loopcells(st, fr, info)
        inv = []
        for c in cells:
            nm, t = st.ctype[c]
            if t == '*' + NODE:
                for ht in self.curtrees(st):
                    if self.implied(st, self.owned(st, st.cells[c], ht)):
                        inv.append((c, ht))
        for c in cells:
            nm, t = st.ctype[c]
            if not isinstance(st.cells[c], list):
                st.cells[c] = self.anyval(st, t)
        self.havocall(st)
        for c, t in inv:
            st.assume(self.owned(st, st.cells[c], t))
        fr.active[head] = {'held': list(st.held), 'inv': inv}
        return None

    def loopcells(self, st, fr, info):
        try:
            return super().loopcells(st, fr, info)
        except KeyError:
            raise VerifError('loop effects')

    def havocall(self, st, keeps=False):
        """Everything another step may have changed; the owning tree and the cache of a tree stay."""
        for k in list(st.heap):
            if keeps and k == TREE + '.root':
                continue
            if k in (NODE + '.tree', TREE + '.nodeCache'):
                continue
            st.heap[k] = fresh('H_' + k, st.heap[k].sort())

    # ---------------------------------------------------------------- calls and locks

    def callcontract(self, st, fr, ins, name, args, reg):
        con = self.spec.contracts.get(name)
        if con is None:
            self.trustedused.add('callback ' + name)
            return self.external(st, fr, ins, reg)
        params, results = self.signature(ins, name)
        env = {pn: TV(a, pt) for (pn, pt), a in zip(params, args)}
        short = name.split('.')[-1]
        h = self.ownerterm(st, env, con)
        self.settle(st)
        if h is not None:
            private = self.fresh_owned(st, h.v)
            self.oblige(st, 'lock', z3.BoolVal(private or self.is_held(st, TREE, h.v)), 'held when calling ' + short)
            for (pn, pt) in params:
                if pt == '*' + NODE:
                    self.oblige(st, 'owner', self.owned(st, env[pn].v, h.v), 'node handed to ' + short)
        else:
            self.oblige(st, 'lock', z3.BoolVal(not st.held), 'nothing held when calling ' + short)
        if any(s == CACHE for s, _ in st.held):
            self.oblige(st, 'lock', z3.BoolVal(False), 'cache lock held when calling ' + short)
        keeps = con.opts.get('keeps') == 'root'
        if self.curcon.opts.get('keeps') == 'root':
            self.oblige(st, 'owner', z3.BoolVal(keeps), 'the root stays across ' + short)
        self.havocall(st, keeps)
        if 'markNode' in short:
            # from here on the cache knows the node
            st.newrefs = [r for r in st.newrefs if not any(z3.is_expr(a) and z3.eq(z3.simplify(a), r)
                                                              for a in args)]
        nt = fresh('top', Int)
        st.assume(nt >= st.top)
        st.top = nt
        rs = []
        for rn, rt in results:
            v = self.anyval(st, rt)
            if rt == '*' + NODE and h is not None:
                st.assume(self.owned(st, v, h.v))
            rs.append(v)
        if reg:
            fr.regs[reg] = rs[0] if len(rs) == 1 else tuple(rs)

    def external(self, st, fr, ins, reg):
        if reg:
            fr.regs[reg] = self.anyval(st, ins['type'])

    def callcompare(self, st, fr, ins, fv, args, reg):
        self.external(st, fr, ins, reg)

    def docall(self, st, fr, ins, args, reg):
        v = ins['value']
        if 'invoke' in ins:
            # the in-memory map's own operations take its own lock; callbacks are the user's
            return self.external(st, fr, ins, reg)
        if 'f' not in v and 'b' not in v:
            return self.external(st, fr, ins, reg)
        return super().docall(st, fr, ins, args, reg)

    def builtin(self, st, fr, ins, b, args, reg):
        if reg:
            fr.regs[reg] = self.anyval(st, ins['type']) if ins.get('type') not in (None, '()') else None

    def static(self, st, fr, ins, name, args, reg):
        if name == 'runtime.Goexit':
            self.rundefers(st, fr)
            self.oblige(st, 'lock', z3.BoolVal(not st.held), 'no lock is held when the goroutine ends')
            return []
        if name in (LOCK, UNLOCK) or name in self.spec.contracts and name in self.funcs:
            return super().static(st, fr, ins, name, args, reg)
        if name in self.funcs and name.split('.')[0] in ('llrbTreeStruct', 'NewLLRBTree'):
            return self.external(st, fr, ins, reg)
        if name in self.funcs:
            return super().static(st, fr, ins, name, args, reg)
        if name.startswith('(*sync.') or name.startswith('sync.'):
            raise VerifError('synchronisation by ' + name)
        return self.external(st, fr, ins, reg)

    def i_Go(self, st, fr, ins):
        f = ins['value'].get('f')
        if f is None:
            raise VerifError('go of a dynamic function')
        con = self.spec.contracts.get(f)
        self.oblige(st, 'lock', z3.BoolVal(con is not None and not con.opts.get('lockheld')),
                    'a goroutine starts with no locks')

    def lock(self, st, fr, a):
        s, ref = self.lockkey(a)
        if s == TREE:
            self.oblige(st, 'lockorder', z3.BoolVal(not any(x == CACHE for x, _ in st.held)),
                        'a tree lock is never awaited while a cache lock is held')
        if s in (TREE, CACHE):
            self.oblige(st, 'lock', z3.BoolVal(not any(x == s for x, _ in st.held)), 'no second lock of its kind')
        mine = (TREE if self.cur.startswith(TREE) else CACHE)
        if self.curcon.opts.get('atomic') == 'yes' and s == mine:
            self.oblige(st, 'lock', z3.BoolVal(st.mon['crit'] == 0), 'one critical section per operation')
            st.mon = dict(st.mon, crit=st.mon['crit'] + 1)
        st.assume(ref != 0)
        st.held.append((s, ref))
        if s == TREE:
            # what other operations did meanwhile
            self.havocall(st)
        else:
            for k in list(st.heap):
                if k.startswith(CACHE + '.') or k.split('.')[-1] in LRU:
                    st.heap[k] = fresh('H_' + k, st.heap[k].sort())

    def unlock(self, st, fr, a):
        s, ref = self.lockkey(a)
        for i, (hs, hr) in enumerate(st.held):
            if hs == s and self.same(st, hr, ref):
                st.held.pop(i)
                return
        self.oblige(st, 'lock', z3.BoolVal(False), 'unlock of a lock that is held')


def same(x, y):
    if x is y:
        return True
    if z3.is_expr(x) and z3.is_expr(y):
        return z3.eq(x, y)
    if isinstance(x, (tuple, list)) and type(x) is type(y) and len(x) == len(y):
        return all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, Addr) and isinstance(y, Addr):
        return x.kind == y.kind and same(x.a, y.a) and same(x.b, y.b) and x.path == y.path
    if isinstance(x, SliceV) and isinstance(y, SliceV):
        return x.et == y.et
    return x == y if not (z3.is_expr(x) or z3.is_expr(y)) else False


def has_and_false(g):
    return z3.is_false(z3.simplify(g))
