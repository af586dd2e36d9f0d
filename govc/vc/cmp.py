"""Comparator mode: no heap, no locks; the standard library's comparison functions by contract."""
import z3
from .core import *
from .exe import Ver


class CmpVer(Ver):
    """mathint is off: every integer operation wraps as on the machine."""

    def __init__(self, ssa, spec):
        super().__init__(ssa, spec, sep=())

    def prove_lemmas(self):
        self.bg = [b for b in self.bg if b not in Tree.axioms]
        super().prove_lemmas()

    def ordered(self, st, fr, fn, args, reg):
        f = self.recf[fn][0]
        a, b = f(args[0]), f(args[1])
        fr.regs[reg] = z3.If(a < b, z3.IntVal(-1), z3.If(a > b, z3.IntVal(1), z3.IntVal(0)))
        self.trustedused.add(fn)

    def ext_strings_Compare(self, st, fr, ins, args, reg):
        self.ordered(st, fr, 'strord', args, reg)

    def ext_bytes_Compare(self, st, fr, ins, args, reg):
        self.ordered(st, fr, 'byteord', args, reg)

    def ext_bytes_Equal(self, st, fr, ins, args, reg):
        f = self.recf['byteord'][0]
        fr.regs[reg] = f(args[0]) == f(args[1])

    def ext_time_Time_Compare(self, st, fr, ins, args, reg):
        self.ordered(st, fr, 'timeord', args, reg)

    def timerel(self, fr, args, reg, rel):
        f = self.recf['timeord'][0]
        fr.regs[reg] = rel(f(args[0]), f(args[1]))

    def ext_time_Time_Before(self, st, fr, ins, args, reg):
        self.timerel(fr, args, reg, lambda a, b: a < b)

    def ext_time_Time_After(self, st, fr, ins, args, reg):
        self.timerel(fr, args, reg, lambda a, b: a > b)

    def ext_time_Time_Equal(self, st, fr, ins, args, reg):
        self.timerel(fr, args, reg, lambda a, b: a == b)

    def i_BinOp(self, st, fr, ins):
        x, y = self.value(st, ins['x']), self.value(st, ins['y'])
        if z3.is_expr(x) and x.sort() == Str and ins['tok'] in ('<', '<=', '>', '>='):
            f = self.recf['strord'][0]
            a, b = f(x), f(y)
            fr.regs[ins['reg']] = {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[ins['tok']]
            return
        if z3.is_expr(x) and x.sort() == Time:
            raise VerifError('comparison of time.Time values with ' + ins['tok'])
        return super().i_BinOp(st, fr, ins)
