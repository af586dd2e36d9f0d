"""Sorts, state and the contract-expression evaluator of the govc verifier."""
import ast
import re
import z3

z3.set_param('smt.auto_config', False)

Int, Bool, Real = z3.IntSort(), z3.BoolSort(), z3.RealSort()
Str = z3.DeclareSort('Str')
Bytes = z3.DeclareSort('Bytes')
Time = z3.DeclareSort('Time')

_a = z3.Datatype('Any')
_a.declare('ANil')
_a.declare('AInt', ('aint', Int))
_a.declare('AU16', ('au16', Int))
_a.declare('AU32', ('au32', Int))
_a.declare('AU64', ('au64', Int))
_a.declare('AStr', ('astr', Str))
_a.declare('ABytes', ('abytes', Bytes))
_a.declare('ATime', ('atime', Time))
_a.declare('ANode', ('anode', Int))
_a.declare('AErr', ('aerr', Int))
_a.declare('AOther', ('aother', Int))
Any = _a.create()



class TreeSort:
    """Ghost trees: an uninterpreted sort with axiomatised constructors (solvers then never case-split on it);
    the structural-induction rule used for the lemmas is the meta-level one of the inductive type."""

    def __init__(self):
        T = self.sort = z3.DeclareSort('Tree')
        comp = [('tref', Int), ('tkey', Any), ('tval', Any), ('tred', Bool), ('tlen', Int), ('tl', T), ('tr', T)]
        self.Leaf = z3.Const('Leaf', T)
        self.Node = z3.Function('Node', *([s for _, s in comp] + [T]))
        for n, s in comp:
            setattr(self, n, z3.Function(n, T, s))
        cs = [z3.Const('nd_' + n, s) for n, s in comp]
        t = self.Node(*cs)
        self.axioms = [z3.ForAll(cs, z3.And([t != self.Leaf] + [getattr(self, n)(t) == c
                                                               for (n, _), c in zip(comp, cs)]), patterns=[t])]

        u = z3.Const('nd_u', T)
        whole = self.Node(*[getattr(self, n)(u) for n, _ in comp])
        self.axioms.append(z3.ForAll([u], z3.Or(u == self.Leaf, u == whole),
                                     patterns=[getattr(self, n)(u) for n, _ in comp]))

    def is_Node(self, t):
        return t != self.Leaf


Tree = TreeSort()

BOX = {'int': (Any.AInt, Any.aint, Any.is_AInt), 'uint16': (Any.AU16, Any.au16, Any.is_AU16),
       'uint32': (Any.AU32, Any.au32, Any.is_AU32), 'uint64': (Any.AU64, Any.au64, Any.is_AU64),
       'string': (Any.AStr, Any.astr, Any.is_AStr), '[]byte': (Any.ABytes, Any.abytes, Any.is_ABytes),
       'time.Time': (Any.ATime, Any.atime, Any.is_ATime),
       '*btreeNodeStruct': (Any.ANode, Any.anode, Any.is_ANode), 'error': (Any.AErr, Any.aerr, Any.is_AErr)}

INTR = {'int': (-2**63, 2**63 - 1), 'int64': (-2**63, 2**63 - 1), 'uint64': (0, 2**64 - 1),
        'uint': (0, 2**64 - 1), 'uint32': (0, 2**32 - 1), 'uint16': (0, 2**16 - 1), 'uint8': (0, 255),
        'byte': (0, 255), 'int32': (-2**31, 2**31 - 1)}


class VerifError(Exception):
    """The code uses something the verifier cannot express (structural)."""


class TV:
    __slots__ = ('v', 't')

    def __init__(self, v, t=None):
        self.v = v
        self.t = t


class SliceV:
    """A slice value: backing-array id, offset and length (z3 Int), element Go type."""
    __slots__ = ('bid', 'off', 'ln', 'et')

    def __init__(self, bid, off, ln, et):
        self.bid, self.off, self.ln, self.et = bid, off, ln, et


class Addr:
    __slots__ = ('kind', 'a', 'b', 'path')

    def __init__(self, kind, a, b=None, path=()):
        self.kind, self.a, self.b, self.path = kind, a, b, path


_n = [0]


def fresh(name, sort):
    _n[0] += 1
    return z3.Const('%s!%d' % (name, _n[0]), sort)


def freshid():
    _n[0] += 1
    return _n[0]


def is_true(e):
    return z3.is_true(e)


def mkand(l):
    l = [x for x in l if not z3.is_true(x)]
    if not l:
        return z3.BoolVal(True)
    return l[0] if len(l) == 1 else z3.And(l)


class Frame:
    def __init__(self, fn, ret=None):
        self.fn = fn
        self.regs = {}
        self.alloc = {}     # alloc reg -> cell id
        self.bi = 0
        self.ii = 0
        self.prev = None
        self.defers = []
        self.ret = ret      # register of the caller receiving the result
        self.active = {}    # loop header -> info (invariant mode)

    def copy(self):
        f = Frame(self.fn, self.ret)
        f.regs = dict(self.regs)
        f.alloc = dict(self.alloc)
        f.bi, f.ii, f.prev = self.bi, self.ii, self.prev
        f.defers = list(self.defers)
        f.active = dict(self.active)
        return f


class State:
    def __init__(self):
        self.pc = []
        self.frames = []
        self.cells = {}
        self.ctype = {}
        self.heap = {}
        self.back = {}       # slice backing id -> z3 array
        self.chunks = []
        self.held = []       # list of (struct, ref)
        self.ghost = {}      # named ghost values (TV)
        self.top = z3.IntVal(0)
        self.trace = []
        self.exit = None
        self.old = None      # State snapshot
        self.mon = {}        # monitor snapshots
        self.crit = 0
        self.newrefs = []
        self.named = {}      # facts under the label they were shown or assumed with
        self.marks = []      # stretches of pc that are an invariant: (from, to, whole)

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.cells = dict(self.cells)
        s.ctype = dict(self.ctype)
        s.heap = dict(self.heap)
        s.back = dict(self.back)
        s.chunks = list(self.chunks)
        s.held = list(self.held)
        s.ghost = dict(self.ghost)
        s.top = self.top
        s.trace = list(self.trace)
        s.exit = self.exit
        s.old = self.old
        s.mon = dict(self.mon)
        s.crit = self.crit
        s.newrefs = list(self.newrefs)
        s.marks = list(self.marks)
        s.named = dict(self.named)
        return s

    def assume(self, e):
        if z3.is_and(e):
            for c in e.children():
                self.assume(c)
            return
        if not z3.is_true(e):
            self.pc.append(e)


class Types:
    def __init__(self, tab):
        self.tab = tab
        self.structs = {}

    def under(self, t):
        d = self.tab.get(t)
        while d is not None and d['k'] == 'named':
            if t == 'time.Time':
                return {'k': 'time'}
            t = d['under']
            d = self.tab.get(t)
        return d

    def undername(self, t):
        d = self.tab.get(t)
        while d is not None and d['k'] == 'named':
            t = d['under']
            d = self.tab.get(t)
        return t

    def sort(self, t):
        if t in ('Key', 'Value', 'interface{}', 'any'):
            return Any
        if t == 'error':
            return Int
        if t == 'time.Time':
            return Time
        if t in ('Tree',):
            return Tree.sort
        if t in ('Real', 'real'):
            return Real
        d = self.under(t)
        if d is None:
            raise VerifError('unknown type ' + t)
        k = d['k']
        if k == 'basic':
            if d['bool']:
                return Bool
            if d['string']:
                return Str
            return Int
        if k in ('ptr', 'func', 'map', 'chan', 'iface'):
            return Int
        if k == 'time':
            return Time
        if k == 'slice':
            if self.isbyte(d['elem']):
                return Bytes
            return None
        if k == 'struct':
            return self.structsort(t)
        return None

    def isbyte(self, t):
        return t in ('byte', 'uint8')

    def structsort(self, t):
        if t not in self.structs:
            d = self.under(t)
            dt = z3.Datatype('S_' + re.sub(r'\W', '_', t))
            fs = []
            for f in d['fields']:
                s = self.sort(f['type'])
                if s is None:
                    s = Int
                fs.append(('%s_%s' % (re.sub(r'\W', '_', t), f['name']), s))
            dt.declare('mk_' + re.sub(r'\W', '_', t), *fs)
            self.structs[t] = dt.create()
        return self.structs[t]

    def fields(self, t):
        return self.under(t)['fields']

    def irange(self, t):
        return INTR.get(self.undername(t))


# ---------------------------------------------------------------- contracts

class Contract:
    def __init__(self, name, kind='func'):
        self.name = name
        self.kind = kind
        self.requires, self.ensures, self.invs = [], [], []
        self.consumes, self.produces = [], []
        self.modifies = []
        self.opts = {}
        self.loops = {}
        self.ghosts = []     # (name, type, expr) ghost bindings at entry
        self.sets = []       # ghost updates at exit
        self.decreases = None
        self.lets = []
        self.wits = []
        self.hooks = []      # (at/before, callee, ordinal, set/let/assert/use, ...): ghost code around calls
        self.exits = []      # (name, expr) bound on return, locals in scope; callers see an unknown
        self.asserts = []
        self.uses = []
        self.usexits = []
        self.entries = []


KEYS = ('func', 'loop', 'requires', 'ensures', 'invariant', 'consume', 'produce', 'modifies', 'option', 'def',
        'rec', 'leaf', 'node', 'lemma', 'induction', 'ghostfield', 'ghostfunc', 'axiom', 'monitor', 'tree',
        'guard', 'decreases', 'let', 'use', 'set', 'end', 'pattern', 'property', 'trusted', 'onlock', 'onunlock',
        'derive', 'given', 'pairs', 'measure', 'hyp', 'claim', 'hint', 'useexit', 'witness', 'exitlet', 'at', 'havoc', 'assumes', 'forallcase', 'assert', 'entry', 'before')


class Spec:
    def __init__(self):
        self.contracts = {}
        self.defs = {}
        self.recs = {}
        self.lemmas = []
        self.derives = {}
        self.axioms = []
        self.ghostfields = {}
        self.ghostfuncs = {}
        self.monitors = {}
        self.guards = {}

    def load(self, path):
        lines = []
        for raw in open(path):
            s = raw.split('#', 1)[0].rstrip()
            if not s.strip():
                continue
            w = s.strip().split(None, 1)
            if w[0] in KEYS:
                lines.append([w[0], w[1] if len(w) > 1 else ''])
            else:
                lines[-1][1] += ' ' + s.strip()
        cur = None
        top = None
        for kw, rest in lines:
            if kw == 'func':
                top = cur = self.contracts.setdefault(rest.strip(), Contract(rest.strip()))
            elif kw == 'trusted':
                top = cur = self.contracts.setdefault(rest.strip(), Contract(rest.strip()))
                cur.opts['trusted'] = 'yes'
            elif kw == 'loop':
                p = rest.split()
                cur = Contract(top.name + '#loop' + p[0], 'loop')
                cur.opts['style'] = p[1] if len(p) > 1 else 'invariant'
                top.loops[int(p[0])] = cur
            elif kw == 'requires':
                cur.requires.append(self.label(rest, 'pre', len(cur.requires)))
            elif kw == 'ensures':
                cur.ensures.append(self.label(rest, 'post', len(cur.ensures)))
            elif kw == 'invariant':
                cur.invs.append(self.label(rest, 'inv', len(cur.invs)))
            elif kw == 'consume':
                n, e = rest.split('=', 1)
                cur.consumes.append((n.strip(), parse(e)))
            elif kw == 'produce':
                n, e = rest.split('=', 1)
                cur.produces.append((n.strip(), parse(e)))
            elif kw == 'modifies':
                m = re.match(r'(\S+)(?:\s+at\s+(\w+)\s*:\s*(.*))?$', rest)
                cur.modifies.append((m.group(1), m.group(2), parse(m.group(3)) if m.group(3) else None))
            elif kw == 'option':
                p = rest.split(None, 1)
                cur.opts[p[0]] = p[1] if len(p) > 1 else 'yes'
            elif kw == 'let':
                n, e = rest.split('=', 1)
                cur.lets.append((n.strip(), parse(e)))
            elif kw == 'witness':
                n, e = rest.split('=', 1)
                cur.wits.append((n.strip(), parse(e)))
            elif kw in ('at', 'before'):
                # ghost code after (before) calls of a function, or of its k-th call in the text: CALLEE/k
                where, rest = rest.split(None, 1)
                callee, _, k = where.partition('/')
                site = (kw, callee, int(k) if k else None)
                m = re.match(r'each\s+(\w+(?:,\s*\w+)?):\s*(\S+)\s*=\s*(.*)$', rest)
                m2 = re.match(r'(let|assert|use)\s+(.*)$', rest)
                if m:       # a ghost field of every object at once
                    h = ('set', (m.group(1), m.group(2)), parse(m.group(3)))
                elif m2 and m2.group(1) == 'let':
                    n, e = m2.group(2).split('=', 1)
                    h = ('let', n.strip(), parse(e))
                elif m2 and m2.group(1) == 'assert':
                    by = re.match(r'(\w+)\s+by\s+([\w ,]+):(.*)$', m2.group(2))
                    h = ('assert',) + (self.label(by.group(1) + ':' + by.group(3), '', 0) + (re.split(r'[ ,]+', by.group(2).strip()),) if by else
                                       self.label(m2.group(2), 'assert', len(top.hooks)) + (None,))
                elif m2:
                    h = ('use', None, parse(m2.group(2)))
                else:
                    m = re.match(r'(.*?)\s*=(?!=)\s*(.*)$', rest)
                    h = ('set', parse(m.group(1)), parse(m.group(2)))
                top.hooks.append(site + h)
            elif kw == 'derive':
                m = re.match(r'(\w+)\(([^)]*)\)$', rest)
                cur = Contract(m.group(1), 'derive')
                cur.pats = []
                cur.hints = []
                cur.params = [tuple(x.strip() for x in a.split(':')) for a in m.group(2).split(',')]
                self.derives[cur.name] = cur
            elif kw == 'hint':
                cur.hints.append(parse(rest))
            elif kw in ('given', 'measure', 'hyp', 'claim'):
                setattr(cur, kw, parse(rest))
            elif kw == 'pairs':
                cur.pairs = rest
            elif kw == 'use':
                cur.uses.append(parse(rest))
            elif kw == 'useexit':
                cur.usexits.append(parse(rest))
            elif kw == 'exitlet':
                n, e = rest.split('=', 1)
                cur.exits.append((n.strip(), parse(e)))
            elif kw == 'set' and rest.startswith('each '):
                m = re.match(r'each\s+(\w+):\s*(\S+)\s*=\s*(.*)$', rest)
                cur.sets.append(((m.group(1), m.group(2)), parse(m.group(3))))
            elif kw == 'set':
                n, e = rest.split('=', 1)
                cur.sets.append((parse(n), parse(e)))
            elif kw == 'decreases':
                cur.decreases = parse(rest)
            elif kw == 'entry':
                cur.entries.append(self.label(rest, 'entry', len(cur.entries)))
            elif kw == 'assert':
                cur.asserts.append(self.label(rest, 'assert', len(cur.asserts)))
            elif kw == 'def':
                m = re.match(r'(\w+)\(([^)]*)\)\s*[:=]\s*(.*)$', rest)
                self.defs[m.group(1)] = ([a.strip() for a in m.group(2).split(',') if a.strip()], parse(m.group(3)))
            elif kw == 'rec':
                m = re.match(r'(\w+)\(([^)]*)\)\s*->\s*(\w+)$', rest)
                ps = [a.strip().split(':') for a in m.group(2).split(',')]
                cur = {'name': m.group(1), 'params': [(a.strip(), b.strip()) for a, b in ps], 'ret': m.group(3)}
                self.recs[m.group(1)] = cur
            elif kw == 'leaf':
                cur['leaf'] = parse(rest)
            elif kw == 'node':
                cur['node'] = parse(rest)
            elif kw == 'lemma':
                m = re.match(r'(\w+)\(([^)]*)\)(.*)$', rest)
                ps = [a.strip().split(':') for a in m.group(2).split(',')]
                cur = Contract(m.group(1), 'lemma')
                cur.params = [(a.strip(), b.strip()) for a, b in ps]
                cur.pats = []
                cur.induct = None
                self.lemmas.append(cur)
            elif kw == 'induction':
                cur.induct = rest.strip()
            elif kw == 'pattern':
                cur.pats.append(rest)
            elif kw == 'axiom':
                m = re.match(r'(\w+)\(([^)]*)\)\s*:\s*(.*)$', rest)
                ps = [a.strip().split(':') for a in m.group(2).split(',') if a.strip()]
                cur = Contract(m.group(1), 'axiom')
                cur.params = [(a.strip(), b.strip()) for a, b in ps]
                cur.pats = []
                cur.ensures.append(('ax', parse(m.group(3))))
                self.axioms.append(cur)
            elif kw == 'ghostfield':
                p = rest.split(None, 1)
                self.ghostfields[p[0]] = p[1].strip()
            elif kw == 'ghostfunc':
                m = re.match(r'(\w+)\(([^)]*)\)\s*->\s*(\S+)$', rest)
                self.ghostfuncs[m.group(1)] = ([a.strip() for a in m.group(2).split(',') if a.strip()], m.group(3))
            elif kw == 'monitor':
                cur = Contract(rest.strip(), 'monitor')
                self.monitors[rest.strip()] = cur
            elif kw == 'havoc':
                cur.modifies.append((rest.strip(), None, None))
            elif kw == 'guard':
                s, f = rest.split(':')
                for x in f.split(','):
                    self.guards[s.strip() + '.' + x.strip()] = s.strip()
            else:
                raise Exception('spec keyword ' + kw)

    def label(self, rest, dflt, n):
        m = re.match(r'([A-Za-z_]\w*)\s*:(?!=)\s*(.*)$', rest)
        if m:
            return (m.group(1), parse(m.group(2)))
        return ('%s%d' % (dflt, n), parse(rest))


def parse(s):
    try:
        return ast.parse(s.strip(), mode='eval').body
    except SyntaxError:
        raise Exception('contract syntax: ' + s)
