"""LLRB mode: the tree's lock is a monitor over a ghost tree value."""
import z3
from .core import *
from .ev import Ev
from .exe import Ver


class LLRBVer(Ver):
    mathint = True
    usetop = True
    mapfields = ('llrbTreeStruct.root', 'llrbTreeStruct.T')

    def __init__(self, ssa, spec):
        super().__init__(ssa, spec, sep=('llrbNodeStruct',))
        for c in spec.contracts.values():
            if c.opts.get('mutates'):
                for k in self.mapfields:
                    c.modifies.append((k, 't', parse('t == ' + c.opts['mutates'])))

    def fieldtype(self, struct, field):
        return super().fieldtype(struct, field)

    def entry(self, st, f, con):
        st.crit = 0
        st.top = fresh('top', Int)
        st.assume(st.top > 0)

    def onlock(self, st, fr, s, ref):
        if s != 'llrbTreeStruct':
            return
        self.oblige(st, 'lock', z3.BoolVal(st.crit == 0), 'one critical section per operation')
        st.crit += 1
        T = self.hget(st, s, 'T', ref).v
        root = self.hget(st, s, 'root', ref).v
        st.chunks.append(('TR', root, T))
        st.assume((root == 0) == (T == Tree.Leaf))
        e = Ev(self, st, {'T': TV(T, 'Tree')})
        for lb, x in self.spec.monitors[s].invs:
            st.assume(e.b(x))
        # declared capacity assumption: fewer than 2^62 items
        st.assume(self.recf['size'][0](T) < 2**62)

    def onunlock(self, st, fr, s, ref):
        if s != 'llrbTreeStruct':
            return
        root = self.hget(st, s, 'root', ref).v
        T = self.foldn(st, self.splitite(st, z3.simplify(root)), 'T')
        e = Ev(self, st, {'T': TV(T, 'Tree')})
        for lb, x in self.spec.monitors[s].invs:
            self.oblige(st, 'monitor', e.b(x), lb)
        self.hset(st, s, 'T', ref, T)

    def newref(self, st, t):
        r = super().newref(st, t)
        if t == 'llrbTreeStruct':
            self.hset(st, t, 'T', r, Tree.Leaf)
        return r
