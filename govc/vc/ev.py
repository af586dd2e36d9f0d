"""Evaluator for contract expressions (Python expression grammar over z3 terms)."""
import ast
import z3
from .core import *

SORTN = {'Int': Int, 'Real': Real, 'Bool': Bool, 'Any': Any, 'Tree': Tree.sort, 'Str': Str, 'Bytes': Bytes,
         'Time': Time, 'ref': Int, 'Key': Any, 'Value': Any, 'Set': z3.ArraySort(Int, Bool), 'Seq': z3.ArraySort(Int, Any),
         'RSeq': z3.ArraySort(Int, Int), 'IMap': z3.ArraySort(Int, Int),
         'RMap': z3.ArraySort(Int, Real), 'KSeq': z3.ArraySort(Int, Any)}


def gsort(ver, t):
    if t in SORTN:
        return SORTN[t]
    if t.startswith('Array(') or '->' in t:
        a, b = t.replace('Array(', '').rstrip(')').split('->', 1)
        return z3.ArraySort(gsort(ver, a.strip()), gsort(ver, b.strip()))
    s = ver.types.sort(t)
    if s is None:
        raise VerifError('no sort for ' + t)
    return s


class Ev:
    def __init__(self, ver, st, env, oldst=None, oldenv=None):
        self.ver, self.st, self.env = ver, st, env
        self.oldst = oldst
        self.oldenv = oldenv if oldenv is not None else env

    def b(self, node):
        v = self.ev(node).v
        if not z3.is_bool(v):
            raise Exception('not boolean: ' + ast.unparse(node))
        return v

    def val(self, node):
        return self.ev(node).v

    def with_env(self, extra):
        e = Ev(self.ver, self.st, dict(self.env, **extra), self.oldst, dict(self.oldenv, **extra))
        return e

    def ev(self, n):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Exception('contract expression: ' + ast.dump(n))
        return m(n)

    def x_Constant(self, n):
        if isinstance(n.value, bool):
            return TV(z3.BoolVal(n.value), 'bool')
        if isinstance(n.value, int):
            return TV(z3.IntVal(n.value), 'Int')
        if isinstance(n.value, str):
            return TV(n.value, 'str')
        raise Exception('constant')

    def x_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        if n.id == 'nil':
            return TV(None, 'nil')
        if n.id == 'nilany':
            return TV(Any.ANil, 'Key')
        if n.id == 'Leaf':
            return TV(Tree.Leaf, 'Tree')
        if n.id in ('true', 'false'):
            return TV(z3.BoolVal(n.id == 'true'), 'bool')
        if n.id in self.st.ghost:
            return self.st.ghost[n.id]
        if n.id == 'alloctop':
            return TV(self.st.top, 'Int')
        raise VerifError('contract name %r is not in scope' % n.id)

    def x_Attribute(self, n):
        o = self.ev(n.value)
        if isinstance(o.v, SliceV):
            return TV(o.v.ln, 'Int')
        if z3.is_expr(o.v) and o.v.sort() == Tree.sort:
            f = {'k': Tree.tkey, 'v': Tree.tval, 'red': Tree.tred, 'l': Tree.tl, 'r': Tree.tr, 'n': Tree.tlen,
                 'ref': Tree.tref}[n.attr]
            return TV(f(o.v), 'Tree' if n.attr in 'lr' else None)
        t = o.t or ''
        t = self.ver.IFACE.get(t, t)
        base = t[1:] if t.startswith('*') else None
        if base is None:
            d = self.ver.types.under(t) if t in self.ver.types.tab else None
            if d and d['k'] == 'struct':
                dt = self.ver.types.structsort(t)
                for i, f in enumerate(d['fields']):
                    if f['name'] == n.attr:
                        return TV(dt.accessor(0, i)(o.v), f['type'])
            raise Exception('attribute %s on %s' % (n.attr, t))
        return self.ver.hget(self.st, base, n.attr, o.v)

    def x_Subscript(self, n):
        o = self.ev(n.value)
        i = self.ev(n.slice)
        if isinstance(o.v, SliceV):
            return TV(z3.Select(self.st.back[o.v.bid], i.v if z3.is_int_value(o.v.off) and o.v.off.as_long() == 0 else o.v.off + i.v), o.v.et)
        et = None
        if o.t and '->' in o.t:
            et = o.t.split('->', 1)[1].strip()
        return TV(z3.Select(o.v, i.v), et)

    def x_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return TV(z3.Not(self.b(n.operand)), 'bool')
        if isinstance(n.op, ast.USub):
            return TV(-self.val(n.operand), 'Int')
        raise Exception('unary')

    def x_BoolOp(self, n):
        vs = [self.b(x) for x in n.values]
        return TV(z3.And(vs) if isinstance(n.op, ast.And) else z3.Or(vs), 'bool')

    def x_BinOp(self, n):
        a, b = self.val(n.left), self.val(n.right)
        op = type(n.op).__name__
        if op == 'Pow':
            return TV(z3.IntVal(z3.simplify(a).as_long() ** z3.simplify(b).as_long()), 'Int')
        r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b,
             'FloorDiv': lambda: a / b, 'Mod': lambda: a % b}[op]()
        return TV(r, 'Int')

    def x_IfExp(self, n):
        c = self.b(n.test)
        x, y = self.ev(n.body), self.ev(n.orelse)
        xv, yv = self.nilfix(x, y)
        return TV(z3.If(c, xv, yv), x.t if x.t != 'nil' else y.t)

    def nilfix(self, a, b):
        if a.v is None and b.v is None:
            return z3.IntVal(0), z3.IntVal(0)
        if a.v is None:
            return self.nilof(b.v), b.v
        if b.v is None:
            return a.v, self.nilof(a.v)
        return a.v, b.v

    def nilof(self, v):
        if z3.is_expr(v) and v.sort() == Any:
            return Any.ANil
        return z3.IntVal(0)

    def x_Compare(self, n):
        out = []
        l = self.ev(n.left)
        for op, rn in zip(n.ops, n.comparators):
            r = self.ev(rn)
            a, b = self.nilfix(l, r)
            o = type(op).__name__
            if o == 'In':
                out.append(z3.Select(b, a))
            elif o == 'NotIn':
                out.append(z3.Not(z3.Select(b, a)))
            else:
                out.append({'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Lt': lambda: a < b,
                            'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b,
                            'Is': lambda: a == b}[o]())
            l = r
        return TV(mkand(out), 'bool')

    def binders(self, spec):
        vs = []
        for p in spec.split(','):
            nm, _, t = p.strip().partition(':')
            t = t.strip() or 'Int'
            nm = nm.strip()
            vs.append((nm, t, z3.Const('%s?%d' % (nm, freshid()), gsort(self.ver, t))))
        return vs

    def quant(self, n, q):
        vs = self.binders(n.args[0].value)
        e = self.with_env({nm: TV(c, t) for nm, t, c in vs})
        body = e.b(n.args[1])
        pats = []
        for p in n.args[2:]:
            if isinstance(p, ast.Tuple):
                pats.append(z3.MultiPattern(*[e.val(x) for x in p.elts]))
            else:
                pats.append(e.val(p))
        cs = [c for _, _, c in vs]
        if pats:
            return TV(q(cs, body, patterns=pats), 'bool')
        return TV(q(cs, body), 'bool')

    def x_Call(self, n):
        if not isinstance(n.func, ast.Name):
            raise Exception('call')
        f = n.func.id
        if f == 'imp':
            return TV(z3.Implies(self.b(n.args[0]), self.b(n.args[1])), 'bool')
        if f == 'iff':
            return TV(self.b(n.args[0]) == self.b(n.args[1]), 'bool')
        if f == 'forall':
            return self.quant(n, z3.ForAll)
        if f == 'exists':
            return self.quant(n, z3.Exists)
        if f == 'old':
            if self.oldst is None:
                raise VerifError('old() without an old state')
            return Ev(self.ver, self.oldst, self.oldenv, self.oldst, self.oldenv).ev(n.args[0])
        if f == 'lam':
            vs = self.binders(n.args[0].value)
            e = self.with_env({nm: TV(c, t) for nm, t, c in vs})
            return TV(z3.Lambda([c for _, _, c in vs], e.val(n.args[1])), None)
        if f == 'len':
            return TV(self.ev(n.args[0]).v.ln, 'Int')
        if f == 'off':
            return TV(self.ev(n.args[0]).v.off, 'Int')
        if f == 'arr':          # the array a slice is a window of
            s = self.ev(n.args[0]).v
            return TV(self.st.back[s.bid], 'Int->' + s.et)
        if f == 'store':
            a = self.ev(n.args[0])
            return TV(z3.Store(a.v, self.val(n.args[1]), self.val(n.args[2])), a.t)
        if f == 'real':
            return TV(z3.ToReal(self.val(n.args[0])), 'Real')
        if f == 'isNode':
            return TV(Any.is_ANode(self.val(n.args[0])), 'bool')
        if f == 'asNode':
            return TV(Any.anode(self.val(n.args[0])), '*btreeNodeStruct')
        if f == 'boxNode':
            return TV(Any.ANode(self.val(n.args[0])), 'Value')
        if f == 'is_int':
            return TV(Any.is_AInt(self.val(n.args[0])), 'bool')
        if f in ('is_box', 'unbox'):
            t = n.args[0].value
            bx = BOX[t]
            return TV((bx[2] if f == 'is_box' else bx[1])(self.val(n.args[1])), 'bool' if f == 'is_box' else t)
        if f == 'isNodeT':
            return TV(Tree.is_Node(self.val(n.args[0])), 'bool')
        if f == 'NodeT':
            return TV(Tree.Node(*[self.val(a) for a in n.args]), 'Tree')
        if f == 'held':
            o = self.ev(n.args[0])
            return TV(z3.BoolVal(self.ver.is_held(self.st, o.t[1:], o.v)), 'bool')
        if f == 'mk':
            t = n.args[0].value
            dt = self.ver.types.structsort(t)
            return TV(dt.constructor(0)(*[self.val(a) for a in n.args[1:]]), t)
        if f == 'heap':
            return TV(self.ver.harr(self.st, n.args[0].value), None)
        if f in self.ver.special:
            return self.ver.special[f](self, n)
        if f in self.ver.spec.defs:
            ps, body = self.ver.spec.defs[f]
            args = [self.ev(a) for a in n.args]
            env = {}
            for p, a in zip(ps, args):
                nm, _, t = p.partition(':')
                if t and a.v is None:
                    a = TV(Any.ANil if gsort(self.ver, t.strip()) == Any else z3.IntVal(0), t)
                env[nm.strip()] = TV(a.v, (t.strip() if t else None) or a.t)
            if len(ps) != len(args):
                raise Exception('arity of ' + f)
            return self.with_env(env).ev(body)
        if f in self.ver.recf:
            args = [self.ev(a) for a in n.args]
            fn, rt = self.ver.recf[f]
            return TV(fn(*[a.v if a.v is not None else z3.IntVal(0) for a in args]), rt)
        raise VerifError('contract function %r' % f)
