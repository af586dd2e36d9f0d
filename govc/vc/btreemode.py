"""B+Tree mode: the tree's lock is a monitor over the structure invariant of contracts/btree.spec."""
import ast
import z3
from .core import *
from .ev import Ev
from .exe import Ver

NODE, TREE, CACHE, LLRB = 'btreeNodeStruct', 'btreeTreeStruct', 'btreeNodeCacheStruct', 'llrbTreeStruct'


class BTreeVer(Ver):
    mathint = True
    usetop = True
    bidi = False

    def __init__(self, ssa, spec):
        super().__init__(ssa, spec, sep=())
        for c in spec.contracts.values():
            if c.opts.get('mutates'):
                for k in ('mlen', 'mk', 'mv'):
                    c.modifies.append((LLRB + '.' + k, 't', parse('t == ' + c.opts['mutates'])))
        for c in spec.contracts.values():
            for s in c.opts.get('makes', '').split():
                have = {m[0] for m in c.modifies}
                for k in self.allfields(s):
                    if k not in have:
                        c.modifies.append((k, 'x', parse('False')))
        # the chain of prefix-sum parents
        arr, x, i, j = z3.Const('pu_a', z3.ArraySort(Int, Int)), z3.Int('pu_x'), z3.Int('pu_i'), z3.Int('pu_j')
        f = self.recf['pup'][0]
        self.bg.append(z3.ForAll([arr, x], f(arr, x, 0) == x, patterns=[f(arr, x, 0)]))
        self.bg.append(z3.ForAll([arr, x, i, j], z3.Implies(z3.And(i >= 0, j == i + 1),
                                                            f(arr, x, j) == z3.Select(arr, f(arr, x, i))),
                                 patterns=[z3.MultiPattern(f(arr, x, i), f(arr, x, j))]))

        # sums of stored lengths by object number, modulo 2^64 as the report's counters are
        dt = self.types.structsort('staleOnDiskReferenceStruct')
        us = self.recf['usum'][0]
        S, l, n = z3.Const('us_s', z3.ArraySort(dt, Bool)), z3.Const('us_l', dt), z3.Int('us_n')
        num, ln = dt.accessor(0, 0)(l), dt.accessor(0, 2)(l)
        self.bg.append(z3.ForAll([n], us(z3.K(dt, z3.BoolVal(False)), n) == 0, patterns=[us(z3.K(dt, z3.BoolVal(False)), n)]))
        self.bg.append(z3.ForAll([S, n], z3.And(us(S, n) >= 0, us(S, n) < 2**64), patterns=[us(S, n)]))
        more = us(S, n) + ln
        self.bg.append(z3.ForAll([S, l, n], z3.Implies(
            z3.And(z3.Not(z3.Select(S, l)), ln >= 0, ln < 2**64),
            us(z3.Store(S, l, z3.BoolVal(True)), n) == z3.If(num == n, z3.If(more >= 2**64, more - 2**64, more), us(S, n))),
            patterns=[us(z3.Store(S, l, z3.BoolVal(True)), n)]))

    def allfields(self, s):
        out = [k for k in self.spec.ghostfields if k.startswith(s + '.')]

        def rec(t):
            for f in self.types.fields(t):
                d = self.types.under(f['type'])
                if f['type'] == 'sync.Mutex':
                    continue
                if f['embedded'] and d['k'] == 'struct':
                    rec(f['type'])
                elif f['name'] not in ('nextBTreeNode', 'prevBTreeNode'):
                    out.append(s + '.' + f['name'])
        rec(s)
        return out

    def _prove_lemmas(self):
        super()._prove_lemmas()
        self.prove_derives()

    def entry(self, st, f, con):
        st.top = fresh('top', Int)
        st.assume(st.top > 0)
        st.crit = 0
        st.ghost['llrb_r'] = TV(fresh('r', Int), 'Int')

    def inv(self, st, t):
        e = Ev(self, st, {'t': TV(t, '*' + TREE)})
        return flat(e.b(parse('TI(t)')))

    def onlock(self, st, fr, s, ref):
        if s != TREE:
            return
        self.oblige(st, 'lock', z3.BoolVal(st.crit == 0), 'one critical section per operation')
        st.crit += 1
        self.assumelabel(st, 'inv', z3.And(self.inv(st, ref)))
        self.covers.append((self.cur + '/Lock', list(st.pc)))
        self.derive(st, st.exit[1].uses, Ev(self, st, st.exit[2], st.old, st.exit[2]))

    def lateuse(self, con):
        return con.opts.get('noframe') == 'yes'

    def onunlock(self, st, fr, s, ref):
        if s != TREE:
            return
        e = Ev(self, st, {'t': TV(ref, '*' + TREE)})
        final = st.exit[1].opts.get('final') == 'yes'     # the tree may be gone for good
        for d in INVS:
            g = e.b(parse(d + '(t)'))
            self.oblige(st, 'invariant', z3.Implies(self.hget(st, TREE, 'root', ref).v != 0, g) if final else g, d)

    def invokename(self, ins):
        if ins['itype'] == 'LLRBTree':
            return LLRB + '.' + ins['invoke']
        return super().invokename(ins)

    def aftercall(self, st, con, env, pre):
        super().aftercall(st, con, env, pre)
        if 'r' in env and con.name.startswith(LLRB + '.'):
            st.ghost = dict(st.ghost, llrb_r=env['r'])

    def callsets(self, st, con, e):
        for tgt, x in con.sets:     # the field is among those the contract modifies
            if not isinstance(tgt, tuple):
                st.assume(e.val(tgt) == e.val(x))

    def loopframe(self, st, fields):
        """What the contract lets this function change bounds its loops as well."""
        con = st.exit[1]
        out = []
        fields = {y for k in fields for y in (self.MAPS[k[4:]] if k.startswith('map:') else (k,))}
        if con.opts.get('noframe') == 'yes' or st.exit[0] != 'func':
            return out
        for m in con.modifies:
            if m[0] in fields and m[1]:
                na, oa = self.harr(st, m[0]), self.harr(st.old, m[0])
                if z3.eq(na, oa):
                    continue
                c = z3.Const('lf?%d' % freshid(), Int)
                inside = Ev(self, st.old, dict(st.exit[2], **{m[1]: TV(c, '*' + m[0].split('.')[0])}), st.old,
                            st.exit[2]).b(m[2])
                pats = [z3.Select(a, c) for a in (na,) if z3.is_const(a)]
                f = z3.Implies(z3.And(c < st.old.top, z3.Not(inside)), z3.Select(na, c) == z3.Select(oa, c))
                out.append((m[0], z3.ForAll([c], f, patterns=pats) if pats else z3.ForAll([c], f)))
        return out

    def setfields(self, tgt):
        if isinstance(tgt, tuple):
            return [tgt[1]]
        if isinstance(tgt, ast.Subscript) and isinstance(tgt.slice, ast.Slice):
            tgt = tgt.value
        if isinstance(tgt, ast.Attribute):
            return [k for k in self.spec.ghostfields if k.endswith('.' + tgt.attr)]
        return []

    # ---------------------------------------------------------------- maps

    MAPS = {'map[staleOnDiskReferenceStruct]struct{}': ('staleMap.set',), 'map[uint64]uint64': ('layoutMap.has', 'layoutMap.val', 'layoutMap.seen')}
    MAPS['LayoutReport'] = MAPS['map[uint64]uint64']

    def mapkey(self, t):
        return self.MAPS[t]

    def marr(self, st, k, ref):
        return z3.Select(self.harr(st, k), ref)

    def mset(self, st, k, ref, v):
        st.heap[k] = z3.Store(self.harr(st, k), ref, v)

    def i_MakeMap(self, st, fr, ins):
        ref = st.top
        st.assume(ref > 0)
        st.top = fresh('top', Int)
        st.assume(st.top == ref + 1)
        for k in self.MAPS[ins['type']]:
            s = self.harr(st, k).sort().range()
            self.mset(st, k, ref, z3.K(s.domain(), z3.BoolVal(False) if s.range() == Bool else z3.IntVal(0)))
        fr.regs[ins['reg']] = ref

    def i_MapUpdate(self, st, fr, ins):
        m, key, v = (self.value(st, ins[k]) for k in ('map', 'key', 'val'))
        self.oblige(st, 'nil', m != 0, 'store into a map')
        ks = self.MAPS[ins['map']['t']]
        self.mset(st, ks[0], m, z3.Store(self.marr(st, ks[0], m), key, z3.BoolVal(True)))
        if len(ks) > 1:
            self.mset(st, ks[1], m, z3.Store(self.marr(st, ks[1], m), key, v))
        self.hooks(st, fr, ins, 'at', 'mapupdate')

    def i_Lookup(self, st, fr, ins):
        ks = self.MAPS[ins['x']['t']]
        m, key = self.value(st, ins['x']), self.value(st, ins['i'])
        has = z3.And(m != 0, z3.Select(self.marr(st, ks[0], m), key))
        v = z3.If(has, z3.Select(self.marr(st, ks[1], m), key), 0)
        st.assume(z3.And(v >= 0, v < 2**64))
        fr.regs[ins['reg']] = (v, has) if ins['commaok'] else v

    def i_Range(self, st, fr, ins):
        ks = self.MAPS[ins['x']['t']]
        m = self.value(st, ins['x'])
        cid = freshid()
        srt = self.harr(st, ks[0]).sort().range()
        st.cells[cid] = z3.K(srt.domain(), z3.BoolVal(False))
        st.ctype[cid] = ('visited', self.fieldtype(*ks[0].split('.')))
        fr.alloc['visited' + ins['reg']] = cid
        fr.regs[ins['reg']] = (ks[0], m, cid)

    def i_Next(self, st, fr, ins):
        k0, m, cid = self.value(st, ins['x'])
        ok = fresh('more', Bool)
        seen = st.cells[cid]
        cur = self.marr(st, k0, m)
        key = fresh('key', seen.sort().domain())
        q = z3.Const('q?%d' % freshid(), seen.sort().domain())
        st.assume(z3.Implies(ok, z3.And(z3.Select(cur, key), z3.Not(z3.Select(seen, key)))))
        st.assume(z3.Implies(z3.Not(ok), z3.ForAll([q], z3.Implies(z3.Select(cur, q), z3.Select(seen, q)),
                                                   patterns=[z3.Select(cur, q)])))
        st.cells[cid] = z3.Store(seen, key, z3.BoolVal(True))
        fr.regs[ins['reg']] = (ok, key, None)

    def builtin(self, st, fr, ins, b, args, reg):
        if b == 'delete':
            k0 = self.MAPS[ins['args'][0]['t']][0]
            self.mset(st, k0, args[0], z3.Store(self.marr(st, k0, args[0]), args[1], z3.BoolVal(False)))
            fr.regs[reg] = None
            return
        return super().builtin(st, fr, ins, b, args, reg)

    # ---------------------------------------------------------------- storage callbacks

    def docall(self, st, fr, ins, args, reg):
        if 'invoke' in ins and ins['itype'] == 'BPlusTreeCallbacks':
            return self.callcontract(st, fr, ins, self.invokename(ins), [self.value(st, ins['value'])] + args, reg)
        return super().docall(st, fr, ins, args, reg)

    def calleeenv(self, st, env):
        if 'tree' not in env:
            ts = [r for s, r in st.held if s == TREE]
            if ts:
                env['tree'] = TV(ts[0], '*' + TREE)
            elif 'tree' in st.exit[2]:
                env['tree'] = st.exit[2]['tree']

    def nilcheck(self, st, ref, what):
        if self.spec.contracts[self.cur].opts.get('nilfree'):
            return      # shown by the suite named there
        return super().nilcheck(st, ref, what)

    def gostmt(self, st, fr, ins):
        if ins['value'].get('f') != CACHE + '.btreeNodeCacheDrainer':
            raise VerifError('go of %s' % ins['value'].get('f'))

    def heapstore(self, st, a, v):
        super().heapstore(st, a, v)
        if a.b == NODE and a.path[-1] == 'kvLLRB' and z3.is_expr(v) and not z3.is_int_value(v):
            self.hset(st, LLRB, 'owner', v, a.a)


INVS = ('DLoc', 'DUp', 'Use', 'Stale', 'Held', 'Disk', 'Seq', 'Top', 'Own', 'Res', 'Occ', 'Leaves', 'First', 'Kids', 'Seps', 'Parents', 'Disj', 'Items',
        'PLeft', 'PRight', 'PUp', 'PTop', 'PNest', 'PDisj', 'PSum', 'Tags')


def flat(e):
    return [x for c in e.children() for x in flat(c)] if z3.is_and(e) else [e]
