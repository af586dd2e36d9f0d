"""The node cache as a monitor: its lock protects two lists; see contracts/cache.spec.

At Lock the invariant is assumed for an arbitrary state (other operations ran), except that tags of nodes of a tree
whose lock is held cannot have changed.  At Unlock the lists the operation must have produced are computed from its
contract ("moves ...") and the invariant is proved for them, together with what the statistics and the drainer need."""
import z3
from .core import *
from .ev import Ev
from .exe import Ver

NODE, TREE, CACHE = 'btreeNodeStruct', 'btreeTreeStruct', 'btreeNodeCacheStruct'
TAG = 'btreeNodeCacheTag'
PROT = [CACHE + '.' + f for f in ('evictLowLimit', 'evictHighLimit', 'cleanLRUHead', 'cleanLRUTail', 'cleanLRUItems',
                                  'dirtyLRUHead', 'dirtyLRUTail', 'dirtyLRUItems', 'drainerActive', 'cacheHits',
                                  'cacheMisses', 'cl', 'dl')] + \
       [NODE + '.' + f for f in (TAG, 'nextBTreeNode', 'prevBTreeNode', 'lpos')]


class CacheVer(Ver):
    usetop = True

    def __init__(self, ssa, spec):
        super().__init__(ssa, spec, sep=())

    def entry(self, st, f, con):
        st.top = fresh('top', Int)
        st.assume(st.top > 0)
        st.mon = {'spawned': 0, 'lasthead': None, 'cs': 0}

    def verify(self, fname):
        self.curcon = self.spec.contracts[fname]
        super().verify(fname)

    def H(self, st, s, f, r):
        return self.hget(st, s, f, r).v

    def onlock(self, st, fr, s, ref):
        own = [r for x, r in st.held if x == TREE]
        keep = {k: self.harr(st, k) for k in (NODE + '.' + TAG, NODE + '.lpos')}
        if s == TREE:
            for k in list(st.heap):
                if k not in (NODE + '.tree',):
                    self.havocfield(st, k)
            return
        for k in PROT:
            self.havocfield(st, k)
        # another tree may have been discarded meanwhile
        tn = self.harr(st, TREE + '.nodeCache')
        self.havocfield(st, TREE + '.nodeCache')
        for t in own:
            st.assume(self.H(st, TREE, 'nodeCache', t) == z3.Select(tn, t))
            x = fresh('x', Int)
            st.assume(z3.ForAll([x], z3.Implies(z3.Select(self.harr(st, NODE + '.tree'), x) == t,
                                                self.H(st, NODE, TAG, x) == z3.Select(keep[NODE + '.' + TAG], x)),
                                patterns=[self.H(st, NODE, TAG, x)]))
        for f in ('cleanLRUItems', 'dirtyLRUItems', 'cacheHits', 'cacheMisses'):
            v = self.H(st, CACHE, f, ref)
            st.assume(z3.And(v >= 0, v < 2**62))
        for f in ('evictLowLimit', 'evictHighLimit'):
            v = self.H(st, CACHE, f, ref)
            st.assume(z3.And(v >= 0, v < 2**64))
        st.assume(self.ci(st, ref))
        if self.curcon.opts.get('drainer'):
            # only the one running drainer clears the flag
            st.assume(self.H(st, CACHE, 'drainerActive', ref))
        self.covers.append((self.cur + '/Lock', list(st.pc)))
        snap = st.copy()
        st.mon = dict(st.mon, snap=snap, spawned=0)

    def ci(self, st, c):
        return Ev(self, st, {'c': TV(c, '*' + CACHE)}).b(parse('CI(c)'))

    def onunlock(self, st, fr, s, c):
        if s != CACHE:
            return
        o = st.mon['snap']
        con = self.curcon
        old = lambda f, r=c, S=CACHE: self.H(o, S, f, r)
        new = lambda f, r=c, S=CACHE: self.H(st, S, f, r)
        T0, P0 = self.harr(o, NODE + '.' + TAG), self.harr(o, NODE + '.lpos')
        mv = con.opts.get('moves')
        nc0, nd0 = old('cleanLRUItems'), old('dirtyLRUItems')
        if mv:
            node = st.exit[2]['node'].v
            p = z3.Select(P0, node)
            t0 = z3.Select(T0, node)
            inC, inD = t0 == 1, t0 == 2
            toC = {'clean': z3.BoolVal(True), 'used': inC}.get(mv, z3.BoolVal(False))
            toD = {'dirty': z3.BoolVal(True), 'used': inD}.get(mv, z3.BoolVal(False))
            lens = {}
            for nm, inL, toL, n0, f in (('cl', inC, toC, nc0, 'cleanLRUItems'), ('dl', inD, toD, nd0, 'dirtyLRUItems')):
                l1 = n0 - z3.If(inL, 1, 0)
                s0 = old(nm)
                s1 = fresh(nm, s0.sort())
                i = fresh('i', Int)
                st.assume(z3.ForAll([i], z3.Select(s1, i) == z3.If(z3.And(toL, i == l1), node,
                                                                   z3.If(z3.And(inL, i >= p), z3.Select(s0, i + 1),
                                                                         z3.Select(s0, i))),
                                    patterns=[z3.Select(s1, i)]))
                self.hset(st, CACHE, nm, c, s1)
                lens[nm] = l1
                self.oblige(st, 'cache', new(f) == l1 + z3.If(toL, 1, 0), 'count in ' + f)
            P1 = fresh('lpos', P0.sort())
            x = fresh('x', Int)
            tx, px = z3.Select(T0, x), z3.Select(P0, x)
            mine = z3.Select(self.harr(o, TREE + '.nodeCache'), z3.Select(self.harr(o, NODE + '.tree'), x)) == c
            st.assume(z3.ForAll([x], z3.Select(P1, x) ==
                                z3.If(x == node, z3.If(toC, lens['cl'], z3.If(toD, lens['dl'], px)),
                                      z3.If(z3.And(mine, tx == t0, z3.Or(inC, inD), px > p), px - 1, px)),
                                patterns=[z3.Select(P1, x)]))
            st.heap[NODE + '.lpos'] = P1
            y = fresh('y', Int)
            self.oblige(st, 'cache', z3.ForAll([y], z3.Implies(y != node, z3.Select(self.harr(st, NODE + '.' + TAG), y) ==
                                                               z3.Select(T0, y))), 'no other node changes lists')
        # the invariant, conjunct by conjunct
        for i, g in enumerate(self.ci(st, c).children()):
            self.oblige(st, 'cache', g, ('clean list', 'dirty list', 'every node on its list')[i] if i < 3 else 'inv')
        if not mv:
            x = fresh('x', Int)
            self.oblige(st, 'cache', z3.ForAll([x], z3.Select(self.harr(st, NODE + '.' + TAG), x) == z3.Select(T0, x)),
                        'lists unchanged')
            self.oblige(st, 'cache', z3.And(new('cleanLRUItems') == nc0, new('dirtyLRUItems') == nd0), 'lists unchanged')
        for f, opt in (('cacheHits', 'hits'), ('cacheMisses', 'misses')):
            self.oblige(st, 'cache', new(f) == old(f) + int(con.opts.get(opt, '0')), f)
        if self.cur != CACHE + '.UpdateLimits':
            for f in ('evictLowLimit', 'evictHighLimit'):
                self.oblige(st, 'cache', new(f) == old(f), f + ' only changed by UpdateLimits')
        tot = new('cleanLRUItems') + new('dirtyLRUItems')
        a0, a1 = old('drainerActive'), new('drainerActive')
        self.oblige(st, 'cache', z3.Implies(z3.And(a0, z3.Not(a1)), z3.And(
            z3.BoolVal(con.opts.get('drainer') == 'yes'),
            z3.Or(new('cleanLRUItems') == 0, tot <= new('evictLowLimit')))), 'eviction stops only when it is done')
        started = z3.BoolVal(st.mon['spawned'] == 1) if st.mon['spawned'] <= 1 else z3.BoolVal(False)
        self.oblige(st, 'cache', started == z3.And(z3.Not(a0), a1), 'one drainer, started when the flag is set')
        if con.opts.get('drains'):
            self.oblige(st, 'cache', z3.Implies(z3.And(tot > new('evictHighLimit'), new('cleanLRUItems') > 0), a1),
                        'eviction starts above the high limit')
        st.mon = dict(st.mon, cs=st.mon['cs'] + 1, lasthead=new('cleanLRUHead'), cleared=z3.And(a0, z3.Not(a1)),
                      spawned=0)

    def gostmt(self, st, fr, ins):
        f = ins['value'].get('f')
        if f != CACHE + '.btreeNodeCacheDrainer':
            raise VerifError('go of %s' % f)
        c = self.value(st, ins['args'][0])
        self.oblige(st, 'cache', z3.BoolVal(self.is_held(st, CACHE, c)), 'drainer started under the lock, for this cache')
        st.mon = dict(st.mon, spawned=st.mon['spawned'] + 1)

    def static(self, st, fr, ins, name, args, reg):
        if name == 'runtime.Goexit':
            self.oblige(st, 'cache', st.mon.get('cleared', z3.BoolVal(False)), 'the drainer ends only with its flag cleared')
            self.oblige(st, 'lock', z3.BoolVal(not st.held), 'no lock is held when the goroutine ends')
            self.stats['paths'] += 1
            return []
        if name == TREE + '.purgeNode':
            self.oblige(st, 'cache', args[1] == st.mon['lasthead'], 'the least recently used clean node is evicted')
        return super().static(st, fr, ins, name, args, reg)

    def post(self, st, kind, label, goal):
        super().post(st, kind, label, goal)

    def framecheck(self, st, con, e):
        """What the cache lock does not protect: only the dirty flag of this node may change."""
        for k in sorted(st.heap):
            if k in PROT or k.split('.')[0] not in (NODE, TREE, CACHE) or k == TREE + '.nodeCache':
                continue
            a, o = st.heap[k], st.old.heap.get(k)
            if o is None or z3.eq(a, o):
                continue
            c = fresh('fr', Int)
            out = c < st.old.top
            if k == NODE + '.dirty' and 'node' in st.exit[2]:
                out = z3.And(out, c != st.exit[2]['node'].v)
            self.addobl(st, 'frame', z3.Implies(out, z3.Select(a, c) == z3.Select(o, c)), k)
