"""P15: every access, operation and loop of a kernel is accounted for, or the kernel is rejected."""
import ast

from ksa.interp import Client, Interp, State
from ksa.program import AnalysisBroken
from ksa.roots import param, root_inst, run_entry
from ksa.terms import T, V, C, mk, walk_terms, show, show_alts

EXPLANATION = (
    'Exhaustive case analysis of the functions that walk the syntax tree of a kernel: each is '
    'interpreted abstractly for every class of node, and every operator, that the C grammar '
    'allows at the places it looks at (classes of inner nodes are split on demand, names and '
    'values stay symbolic, recursive calls stand for the treatment of the part they are given). '
    'A function must either end in an error or, on every path to a normal return, have recorded '
    'exactly the reads, writes, operations, loop bounds and variables that the meaning of the '
    'construct in C prescribes, and have handed every part of it on exactly once.')
ASSUMPTIONS = [
    'the parser delivers trees of the C grammar of pycparser',
    'symbols and integers are built from the names and values they are given',
]
MIN = {'accounted': 30, 'rejected': 30, 'accepted-constructs': 8}

EXPR = ['ID', 'Constant', 'ArrayRef', 'BinaryOp', 'UnaryOp', 'Assignment', 'TernaryOp',
        'FuncCall', 'Cast', 'StructRef', 'ExprList']
STMT = ['Assignment', 'For', 'Compound', 'Pragma', 'Decl', 'UnaryOp', 'FuncCall', 'While',
        'DoWhile', 'If', 'Return', 'Break', 'Continue', 'EmptyStatement', 'BinaryOp', 'ID',
        'Switch', 'ExprList', 'TernaryOp', 'Label']
TYPE = ['TypeDecl', 'ArrayDecl', 'PtrDecl', 'FuncDecl']
# class -> field -> candidates for its node (list: [..], scalar: None)
FIELDS = {
    'ID': {'name': None},
    'Constant': {'type': None, 'value': None},
    'ArrayRef': {'name': ['ID', 'ArrayRef', 'StructRef', 'FuncCall', 'UnaryOp', 'BinaryOp'],
                 'subscript': EXPR},
    'BinaryOp': {'op': ['+', '-', '*', '/', '%', '<', '<=', '>', '>=', '==', '!=', '&&', '<<'],
                 'left': EXPR, 'right': EXPR},
    'UnaryOp': {'op': ['-', '+', '++', '--', 'p++', 'p--', '!', '~', '&', '*'], 'expr': EXPR},
    'Assignment': {'op': ['=', '+=', '-=', '*=', '/=', '%=', '<<='],
                   'lvalue': ['ArrayRef', 'ID', 'UnaryOp', 'StructRef'], 'rvalue': EXPR},
    'TernaryOp': {'cond': EXPR, 'iftrue': EXPR, 'iffalse': EXPR},
    'FuncCall': {'name': ['ID', 'StructRef'], 'args': ['ExprList', 'NoneType']},
    'Cast': {'to_type': ['Typename'], 'expr': EXPR},
    'StructRef': {'name': EXPR, 'type': None, 'field': ['ID']},
    'ExprList': {'exprs': ('list', EXPR)},
    'For': {'init': ['DeclList', 'Assignment', 'ExprList', 'NoneType'],
            'cond': ['BinaryOp', 'NoneType', 'ID', 'UnaryOp', 'FuncCall', 'Constant'],
            'next': ['UnaryOp', 'Assignment', 'NoneType', 'ExprList', 'BinaryOp'],
            'stmt': ['Compound', 'For', 'Assignment', 'EmptyStatement', 'If', 'While',
                     'FuncCall', 'UnaryOp', 'Pragma']},
    'DeclList': {'decls': ('list', ['Decl'])},
    'Decl': {'name': None, 'quals': None, 'align': None, 'storage': None, 'funcspec': None,
             'type': TYPE, 'init': EXPR + ['InitList', 'NoneType'], 'bitsize': ['NoneType']},
    'TypeDecl': {'declname': None, 'quals': None, 'align': None,
                 'type': ['IdentifierType', 'Struct']},
    'ArrayDecl': {'type': TYPE, 'dim': ['ID', 'Constant', 'BinaryOp', 'UnaryOp', 'NoneType',
                                        'FuncCall', 'Cast'], 'dim_quals': None},
    'PtrDecl': {'quals': None, 'type': TYPE},
    'FuncDecl': {'args': ['NoneType'], 'type': TYPE},
    'IdentifierType': {'names': None},
    'Struct': {'name': None, 'decls': None},
    'Typename': {'name': None, 'quals': None, 'align': None, 'type': TYPE},
    'Compound': {'block_items': ('list', STMT)},
    'Pragma': {'string': None},
    'While': {'cond': EXPR, 'stmt': STMT}, 'DoWhile': {'cond': EXPR, 'stmt': STMT},
    'If': {'cond': EXPR, 'iftrue': STMT, 'iffalse': STMT + ['NoneType']},
    'Switch': {'cond': EXPR, 'stmt': STMT},
    'Return': {'expr': EXPR + ['NoneType']}, 'Break': {}, 'Continue': {}, 'EmptyStatement': {},
    'Label': {'name': None, 'stmt': STMT},
    'InitList': {'exprs': ('list', EXPR)}, 'NoneType': {},
}
ACC = {'sources', 'destinations', '_flops', '_loop_stack', 'variables'}
COMPARES = {'<', '<=', '>', '>=', '==', '!=', '&&', '<<'}
# the candidate an unrestricted walk is most likely to accept
NOMINAL = [('.cond', 'op', '<'), ('.next.rvalue', 'cls', 'Constant'),
           ('.next.lvalue', 'cls', 'ID'), ('.init.decls0.init', 'cls', 'Constant'),
           ('.block_items0', 'cls', 'Assignment'), ('.block_items1', 'cls', 'Assignment'),
           ('.block_items2', 'cls', 'Assignment'), ('k.block_items0', 'cls', 'Decl'),
           ('k.block_items1', 'cls', 'For'), ('k.block_items2', 'cls', 'FuncCall')]


class Need(Exception):
    def __init__(self, path, what, cands):
        self.path, self.what, self.cands = path, what, cands


def node(path):
    return mk('ast', path)


class WalkClient(Client):
    max_depth = 40
    unroll = 8
    recursion = 4
    strict_none = True

    def __init__(self, prog, env, rec, root, depth, kinds):
        self.prog, self.env, self.rec, self.root, self.depth = prog, env, rec, root, depth
        self.kinds = kinds
        self.unknown = []

    # ---- the tree
    def cls(self, path):
        c = self.env.get((path, 'cls'))
        if c is None:
            raise Need(path, 'cls', self.kinds[path])
        return c

    def child(self, path, field, cands):
        p = '%s.%s' % (path, field)
        self.kinds[p] = cands
        return node(p)

    def attr(self, it, st, base, name):
        if name in ACC and any(t.op == 'obj' or t.op == 'param' for t in base.alts):
            return V(mk('acc', name))
        if name == 'kernel_ast' and any(t.op == 'obj' for t in base.alts):
            self.kinds['k'] = ['Compound', 'For', 'Assignment']
            return V(node('k'))
        vals = []
        for t in base.alts:
            if t.op == 'ext' and t.args[0].startswith('pycparser.c_ast.') and name == '__name__':
                vals.append(C(t.args[0].rsplit('.', 1)[1]))
                continue
            if t.op != 'ast':
                return None
            p = t.args[0]
            f = FIELDS[self.cls(p)]
            if name == '__class__':
                vals.append(V(self.type_of(p)))
            elif name == 'coord':
                vals.append(V(mk('attr', t, name)))
            elif name not in f:
                it.raise_(st, {'AttributeError'}, it.fn and it.fn.node, False)
            elif f[name] is None:
                vals.append(V(mk('attr', t, name)))
            elif name == 'op':
                o = self.env.get((p, 'op'))
                if o is None:
                    raise Need(p, 'op', f['op'])
                vals.append(C(o))
            elif f[name][0] == 'list':
                n = self.env.get((p + '.' + name, 'len'))
                if n is None:
                    raise Need(p + '.' + name, 'len',
                               [2, 1, 3, 'None'] if name == 'block_items' else [1, 2])
                if n == 'None':
                    vals.append(C(None))
                    continue
                vals.append(V(mk('tup', tuple(
                    frozenset([self.child(p, '%s%d' % (name, i), f[name][1])])
                    for i in range(n)))))
            else:
                vals.append(V(self.child(p, name, f[name])))
        if not vals:
            return []
        v = vals[0]
        for x in vals[1:]:
            v = v.join(x)
        return v

    def type_of(self, p):
        c = self.cls(p)
        return mk('ext', 'NoneType' if c == 'NoneType' else 'pycparser.c_ast.' + c)

    def call(self, it, st, n, name, fn, args, kwargs):
        a0 = args[0].one if args else None
        if a0 is not None and a0.op == 'ast':
            if name == 'type':
                return [(st, V(self.type_of(a0.args[0])))]
            if name == 'isinstance' and len(args) == 2:
                ts = it.type_list(st, args[1])
                if ts is None:
                    # plain Python types: a node is none of them
                    return [(st, C(False))] if args[1].one is not None and \
                        args[1].one.op == 'ext' else None
                me = self.type_of(a0.args[0])
                return [(st, C(any(x is me or x.op == 'ext' and me.args[0] != 'NoneType' and
                                   x.args[0].endswith('c_ast.Node') for x in ts)))]
            if name == 'hasattr' and args[1].is_const():
                return [(st, C(args[1].const() in FIELDS[self.cls(a0.args[0])]))]
        elif name == 'isinstance' and a0 is not None and a0.op == 'attr' and \
                a0.args[0].op == 'ast' and len(args) == 2 and a0.args[1] in ('name', 'value'):
            ts = it.type_list(st, args[1])
            if ts is not None:        # names and values of leaves are text
                return [(st, C(any(x.op == 'ext' and x.args[0] == 'str' for x in ts)))]
        fi = it.callee_fi(fn) if fn is not None else None
        if fi is not None and fi in self.rec:
            if fi is self.root and sum(1 for f in it.fstack if f is fi) < self.depth:
                return None
            ps = {x for a in list(args) + list(kwargs.values()) for x in a.alts if x.op == 'ast'}
            if len(ps) == 1:
                p = ps.pop().args[0]
                m = (fi, p)
                return [(self.mark(st, ('rec',) + m), V(mk('rec', fi, p)))]
            if not ps:
                return [(self.mark(st, ('rec', fi, '?')), V(mk('rec', fi, '?')))]
        return None

    def mark(self, st, m):
        k = ('m', m)
        return st.setts(k, min(2, (st.ts.get(k) or 0) + 1))

    def decide(self, it, st, cond):
        t, neg = cond
        if t.op == 'ast':
            return (self.cls(t.args[0]) != 'NoneType') != neg
        if t.op in ('is', 'eq') and len(t.args[0]) == 1 and len(t.args[1]) == 1:
            x, = t.args[0]
            y, = t.args[1]
            for a, b in ((x, y), (y, x)):
                if a.op == 'ast' and b.op == 'const':      # no node equals a text or a number
                    return (b.args[1] is None and self.cls(a.args[0]) == 'NoneType') != neg
        return None

    # ---- effects
    def container(self, v):
        """('acc', name, None) or ('acc', name, key alternatives) of what v denotes."""
        t = v.one
        if t is None:
            return None
        if t.op == 'acc':
            return t.args[0], None
        b = key = None
        if t.op == 'item':
            b, key = t.args[0], frozenset([t.args[1]]) if isinstance(t.args[1], T) else t.args[1]
        elif t.op == 'idx':
            b, key = t.args[0], t.args[1]
        elif t.op == 'mcall' and t.args[1] in ('setdefault', 'get', '__getitem__') and t.args[2]:
            b, key = t.args[0], t.args[2][0]
        if b is None:
            return None
        if isinstance(b, frozenset):
            if len(b) != 1:
                return None
            b, = b
        if b.op != 'acc':
            return None
        if not isinstance(key, frozenset):
            key = frozenset([key if isinstance(key, T) else mk('const', type(key).__name__, key)])
        return b.args[0], key

    def elements(self, st, v, it):
        items = it.static_items(st, v)
        if items is not None:
            return items
        t = v.one
        if t is not None and t.op == 'obj' and t.args[0] in st.heap:
            h = st.heap[t.args[0]]
            if h.kind in ('list', 'set') and all(g.kind == 'one' for g in h.segs):
                return [g.v for g in h.segs]
        return None

    def on_event(self, ev):
        d = ev.data
        it = self.it
        st = ev.st
        if ev.kind == 'mutate':
            c = self.container(d['target'])
            if c is None:
                return True
            name, key = c
            how, args = d.get('how'), d.get('args') or []
            if how in ('setdefault', 'get', 'keys', 'items', 'values') and key is None:
                return True
            vals = None
            if how in ('add', 'append') and args:
                vals = [args[0]]
            elif how in ('update', '|=', '+=', 'extend', 'union'):
                vals = self.elements(st, d['value'] if d.get('value') is not None else args[0], it)
            if vals is None or (key is None) != (name == '_loop_stack'):
                self.unknown.append((ev.where, '%s of %s' % (how, name)))
                return True
            for v in vals:
                st = self.mark(st, ('eff', name, key, self.flat(st, v)))
            ev.st = st
        elif ev.kind in ('setitem', 'augassign'):
            b = d.get('base') if ev.kind == 'setitem' else None
            if b is None:
                return True
            c = self.container(b)
            if c is None or c[1] is not None:
                return True
            name = c[0]
            if name == '_flops':
                key = d['key'].alts
                k = ('m', ('eff', name, key, None))
                n = st.ts.get(k) or 0
                if all(x.op == 'const' and x.args[1] == 0 for x in d['value'].alts) and \
                        self.absent(st, key):
                    return True           # starts counting
                st = st.setts(k, min(9, n + 1))
                if not counts_up(d['value'].alts, key, n):
                    st = self.mark(st, ('eff', name, key, d['value'].alts))
                ev.st = st
            elif name == 'variables':
                ev.st = self.mark(st, ('eff', name, d['key'].alts, self.flat(st, d['value'])))
            elif name == 'sources' or name == 'destinations':
                t = d['value'].one
                if t is not None and t.op == 'obj' and st.heap[t.args[0]].kind in ('set', 'list') \
                        and not st.heap[t.args[0]].segs:
                    return True           # an empty set to be filled
                vals = self.union(st, d['value'], name, d['key'].alts)
                if vals is None:
                    self.unknown.append((ev.where, 'assignment to %s' % name))
                    return True
                for v in vals:
                    st = self.mark(st, ('eff', name, d['key'].alts, v))
                ev.st = st
            else:
                self.unknown.append((ev.where, 'assignment to %s' % name))
        elif ev.kind == 'setattr' and d.get('name') in ACC:
            t = d['value'].one
            if t is not None and t.op == 'obj' and t.args[0] in st.heap and \
                    not st.heap[t.args[0]].segs and not st.heap[t.args[0]].slots:
                return True
            if any(y.op == 'acc' for x in d['value'].alts for y in walk_terms(x)) or \
                    t is None or t.op not in ('param', 'obj'):
                self.unknown.append((ev.where, 'assignment to %s' % d['name']))
        return True

    def absent(self, st, key):
        want = {frozenset([mk('acc', '_flops')])}
        return any(v is False and isinstance(k, T) and k.op == 'in' and k.args[0] == key and
                   k.args[1] in want for k, v in st.facts.items())

    def flat(self, st, v):
        """value terms, tuples that live on the heap included"""
        r = set()
        for t in v.alts:
            if t.op == 'obj' and t.args[0] in st.heap and st.heap[t.args[0]].kind == 'list':
                h = st.heap[t.args[0]]
                r.add(mk('tup', tuple(self.flat(st, g.v) for g in h.segs)))
            elif t.op == 'tup':
                r.add(mk('tup', tuple(self.flat(st, V(a)) for a in t.args[0])))
            else:
                r.add(t)
        return frozenset(r)

    def union(self, st, v, name, key):
        """what is added by X | {a}, X.union({a})"""
        out = []
        for t in v.alts:
            if t.op == 'bin' and t.args[0] == '|':
                sides = list(t.args[1]) + list(t.args[2])
            elif t.op == 'mcall' and t.args[1] == 'union':
                sides = list(t.args[0]) + [y for a in t.args[2] for y in a]
            else:
                return None
            for x in sides:
                c = self.container(V(x))
                if c is not None and c[0] == name and c[1] == key:
                    continue
                els = self.elements(st, V(x), self.it)
                if els is None:
                    return None
                out += [self.flat(st, e) for e in els]
        return out


def explore(make, start, budget, limit=60000):
    """All completed runs: yields (env, result)."""
    todo = [(dict(start), 0)]
    n = 0
    while todo:
        env, dev = todo.pop()
        n += 1
        if n > limit:
            raise AnalysisBroken('case analysis does not end')
        try:
            r = make(env)
        except Need as e:
            cands = list(e.cands)
            for suffix, what, c in NOMINAL:
                if e.what == what and e.path.endswith(suffix) and c in cands:
                    cands.remove(c)
                    cands.insert(0, c)
            if e.what == 'op' and e.path.endswith('.next'):
                cands.sort(key=lambda c: c not in ('p++', '+='))
            for i, c in enumerate(cands):
                d = dev + (1 if i and e.what != 'len' else 0)
                if d <= budget:
                    todo.append((dict(env, **{}) | {(e.path, e.what): c}, d))
            continue
        yield env, r


def counts_up(alts, key, n):
    """alts are the number of operations key counted before (n of them in this walk) plus one"""
    def depth(x):
        if x.op == 'const':
            return (x.args[1], False) if isinstance(x.args[1], int) else None
        if x.op == 'bin' and x.args[0] == '+':
            for l, r in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                if all(y.op == 'const' and y.args[1] == 1 for y in r):
                    ds = [depth(y) for y in l]
                    if None not in ds:
                        return max(d for d, _ in ds) + 1, any(o for _, o in ds)
            return None
        b = k = None
        if x.op in ('item', 'idx'):
            b, k = x.args[0], x.args[1]
        elif x.op == 'mcall' and x.args[1] in ('get', 'setdefault', 'pop') and x.args[2]:
            b, k = x.args[0], x.args[2][0]
            if len(x.args[2]) > 1 and not all(
                    y.op == 'const' and y.args[1] == 0 for y in x.args[2][1]):
                return None
        if b is None:
            return None
        ks = k if isinstance(k, frozenset) else frozenset(
            [k if isinstance(k, T) else mk('const', type(k).__name__, k)])
        if ks != key or (b if isinstance(b, frozenset) else frozenset([b])) != \
                frozenset([mk('acc', '_flops')]):
            return None
        return 0, True
    ds = [depth(t) for t in alts]
    return None not in ds and max(d for d, o in ds) == n + 1 and any(o for d, o in ds)


# ---------------------------------------------------------------- what C means
OPS = {'+': ('operator.add', '+'), '-': ('operator.sub', '-'), '*': ('operator.mul', '*'),
       '/': ('operator.floordiv', '//'), '%': ('operator.mod', '%')}


class Judge:
    def __init__(self, env, kinds, demands, pure):
        self.env, self.kinds, self.demands, self.pure = env, kinds, demands, pure
        self.own = None

    def cls(self, p):
        return self.env.get((p, 'cls'))

    def op(self, p):
        return self.env.get((p, 'op'))

    def demand(self, fi, role, p):
        c = self.cls(p)
        if role in ('base', 'offs') and c is None:
            cs = ['ID', 'ArrayRef']
        else:
            cs = [c] if c else self.kinds.get(p, EXPR)
        self.demands.setdefault((fi, role), set()).update(cs)
        return True

    def is_val(self, t, p):
        """t is the value of the integer expression p"""
        if t.op == 'rec' and t.args[1] == p and t.args[0] in self.pure:
            return self.demand(t.args[0], 'val', p)
        c = self.cls(p)
        if c == 'ID':
            return t.op == 'call' and t.args[0].endswith('Symbol') and \
                t.args[1] and self.is_attr(t.args[1][0], p, 'name')
        if c == 'Constant':
            return t.op == 'call' and t.args[0].split('.')[-1] in ('Integer', 'int', 'sympify') and \
                t.args[1] and (self.is_attr(t.args[1][0], p, 'value') or
                               all(self.is_val(x, p) for x in t.args[1][0]))
        if c == 'BinaryOp' and self.op(p) in OPS:
            want = OPS[self.op(p)]
            if t.op == 'call' and t.args[0] == want[0] and len(t.args[1]) == 2:
                a, b = t.args[1]
            elif t.op == 'bin' and t.args[0] == want[1]:
                a, b = t.args[1], t.args[2]
            else:
                return False
            sides = [(a, b)] + ([(b, a)] if self.op(p) in '+*' else [])
            return any(all(self.is_val(x, p + '.left') for x in l) and
                       all(self.is_val(x, p + '.right') for x in r) for l, r in sides)
        if c == 'UnaryOp' and self.op(p) == '-':
            if t.op == 'call' and t.args[0] == 'operator.neg':
                return all(self.is_val(x, p + '.expr') for x in t.args[1][0])
            if t.op in ('neg', 'unary', 'un'):
                return all(self.is_val(x, p + '.expr') for x in t.args[-1])
        return False

    def is_attr(self, alts, p, name):
        return bool(alts) and all(x is mk('attr', node(p), name) for x in alts)

    def is_base(self, t, p):
        if t.op == 'rec' and t.args[1] == p and t.args[0] in self.pure:
            return self.demand(t.args[0], 'base', p)
        if self.cls(p) == 'ID':
            return self.is_attr([t], p, 'name')
        if self.cls(p) == 'ArrayRef':
            return self.is_base(t, p + '.name')
        return False

    def chain(self, p):
        """subscripts of p from left to right"""
        if self.cls(p) == 'ArrayRef':
            r = self.chain(p + '.name')
            return None if r is None else r + [p + '.subscript']
        return [] if self.cls(p) == 'ID' else None

    def is_offs(self, t, p):
        if t.op == 'rec' and t.args[1] == p and t.args[0] in self.pure:
            return self.demand(t.args[0], 'offs', p)
        if self.cls(p) == 'ID':
            return t.op == 'const' and t.args[1] is None
        ch = self.chain(p)
        return ch is not None and t.op == 'tup' and len(t.args[0]) == len(ch) and all(
            all(self.is_val(x, q) for x in a) for a, q in zip(t.args[0], ch))

    # ---- expected effects: list of (kind, data)
    def uses(self, marks, p):
        return [m for m in marks if m[0] == 'rec' and m[1] not in self.pure and m[2] == p]

    def expect(self, marks, role, p, top=False):
        """expected marks for p in role, or None if it must be refused"""
        if not top:
            u = self.uses(marks, p)
            if u:
                for m in u:
                    self.demand(m[1], role, p)
                return [('use', p)]
        c = self.cls(p)
        if c is None:
            return [('use', p)]
        if role == 'expr':
            if c in ('ID', 'ArrayRef'):
                return [('sources', p)]
            if c == 'Constant':
                return []
            if c == 'BinaryOp':
                return self.all(marks, 'expr', [p + '.left', p + '.right'], [('flop', self.op(p))])
            if c == 'UnaryOp' and self.op(p) in ('-', '+', '++', '--', 'p++', 'p--'):
                x = [('flop', self.op(p)[-1])] if self.op(p) != '+' else []
                if len(self.op(p)) > 1:
                    x.append(('destinations', p + '.expr'))
                return self.all(marks, 'expr', [p + '.expr'], x)
            kids = [p + '.' + f for f, k in FIELDS[c].items() if k and k is EXPR]
            if kids and c in ('TernaryOp', 'Cast'):
                return self.all(marks, 'expr', kids, [])
            return None
        if role == 'stmt':
            if c == 'Assignment':
                x = [('destinations', p + '.lvalue')]
                if self.cls(p + '.lvalue') not in (None, 'ID', 'ArrayRef'):
                    return None
                if self.op(p) is None:    # never looked at: no plain treatment of it can be right
                    return None
                if self.op(p) != '=':
                    x += [('sources', p + '.lvalue'), ('flop', self.op(p)[:-1])]
                return self.all(marks, 'expr', [p + '.rvalue'], x)
            if c in ('Pragma', 'EmptyStatement'):
                return []
            if c == 'For':
                return self.all(marks, 'stmt', [p + '.stmt'], [('loop', p)])
            if c == 'Compound':
                n = self.env.get((p + '.block_items', 'len'))
                if n == 'None':
                    return []
                if n is None:
                    return None
                items = [p + '.block_items%d' % i for i in range(n)]
                loops = [q for q in items if self.cls(q) == 'For']
                if loops and any(self.cls(q) not in ('Pragma', 'EmptyStatement', 'For')
                                 for q in items) or len(loops) > 1:
                    return None          # imperfect nests have no single loop stack
                return self.all(marks, 'stmt', items, [])
            if c == 'UnaryOp' and self.op(p) in ('++', '--', 'p++', 'p--'):
                return self.all(marks, 'expr', [p], [])
            return None
        raise AssertionError(role)

    def all(self, marks, role, ps, extra):
        out = list(extra)
        for q in ps:
            e = self.expect(marks, role, q)
            if e is None:
                return None
            out += e
        return out

    def loop_ok(self, alts, p, facts):
        """the entry of the loop stack for loop p; -> list of complaints"""
        bad = []
        d = p + '.init.decls0'
        counter = mk('attr', node(d), 'name')
        if self.env.get((p + '.init.decls', 'len')) != 1:
            bad.append('a loop with several counters is accepted')
        if self.op(p + '.cond') not in ('<', '<='):
            bad.append('condition %s is accepted' % self.op(p + '.cond'))
        if self.cls(p + '.cond') != 'BinaryOp' or self.cls(p + '.cond.left') != 'ID':
            bad.append('a condition other than counter < bound is accepted')
        nx, no = self.cls(p + '.next'), self.op(p + '.next')
        step = None
        if nx == 'UnaryOp' and no in ('++', 'p++'):
            step, who = 1, p + '.next.expr'
        elif nx == 'UnaryOp' and no in ('--', 'p--'):
            step, who = -1, p + '.next.expr'
        elif nx == 'Assignment' and no in ('+=',):
            step, who = p + '.next.rvalue', p + '.next.lvalue'
        else:
            bad.append('%s %s is accepted as next statement' % (nx, no))
            who = None
        if step == -1:
            bad.append('counting down is accepted together with an upper bound')

        def same(path):
            a = mk('attr', node(path), 'name')
            fs = [k for k, v in facts.items() if v is True and isinstance(k, T) and k.op in ('eq', 'is')]
            pairs = [(f.args[0], f.args[1]) for f in fs]
            groups = {a}
            for _ in range(4):
                for f in pairs:
                    x, y = f
                    if len(x) == 1 and len(y) == 1:
                        x, = x
                        y, = y
                        if x in groups:
                            groups.add(y)
                        elif y in groups:
                            groups.add(x)
            return counter in groups
        if not same(p + '.cond.left'):
            bad.append('the variable of the condition need not be the counter')
        if who is not None and not (self.cls(who) == 'ID' and same(who)):
            bad.append('the variable that is incremented need not be the counter')
        for t in alts:
            if t.op != 'tup' or len(t.args[0]) != 4:
                bad.append('the entry has another form')
                continue
            n, lo, hi, s = t.args[0]
            if not (all(x is counter for x in n) or
                    all(x.op == 'call' and x.args[0].endswith('Symbol') and
                        all(y is counter for y in x.args[1][0]) for x in n)):
                bad.append('the name is not that of the counter')
            if not all(self.is_val(x, d + '.init') for x in lo):
                bad.append('the lower bound is not the initial value')
            if self.op(p + '.cond') == '<=':
                if not all(x.op == 'bin' and x.args[0] == '+' and any(
                        z.op == 'const' and z.args[1] == 1 for z in x.args[2]) and
                        all(self.is_val(y, p + '.cond.right') for y in x.args[1]) for x in hi):
                    bad.append('the upper bound is not one more than the limit')
            elif not all(self.is_val(x, p + '.cond.right') for x in hi):
                bad.append('the upper bound is not the limit of the condition')
            if step == 1 or step == -1:
                ok = all(literal(x) == step for x in s)
            else:
                ok = step is None or all(self.is_val(x, step) for x in s)
            if not ok:
                bad.append('the step is not the increment')
        return bad

    def variable_ok(self, key, alts, p):
        bad = []
        if not self.is_attr(key, p, 'name'):
            bad.append('is not recorded under its name')
        dims, q = [], p + '.type'
        while self.cls(q) == 'ArrayDecl':
            dims.append(q + '.dim')
            q += '.type'
        for t in alts:
            if t.op != 'tup' or len(t.args[0]) != 2:
                bad.append('is recorded in another form')
                continue
            ty, size = t.args[0]
            if not any(x is mk('attr', node(q + '.type'), 'names') for a in ty
                       for x in walk_terms(a)):
                bad.append('is not recorded with its type')
            for x in size:
                if not dims:
                    if not (x.op == 'const' and x.args[1] is None):
                        bad.append('is recorded as array although it is a scalar')
                elif not (x.op == 'tup' and len(x.args[0]) == len(dims) and
                          all(all(self.is_val(y, d) for y in a)
                              for a, d in zip(x.args[0], dims))):
                    bad.append('is not recorded with its dimensions in order')
        return bad


def literal(x):
    if x.op == 'const':
        try:
            return int(x.args[1])
        except (TypeError, ValueError):
            return None
    if x.op == 'call' and x.args[0].split('.')[-1] in ('Integer', 'int') and len(x.args[1]) == 1 \
            and len(x.args[1][0]) == 1:
        y, = x.args[1][0]
        return literal(y)
    return None


def recursive_methods(prog, K):
    """functions of the kernel class and its module that walk a tree: every recursion passes
    through one of them; -> (those, the ones among them that record nothing)"""
    ms = {}
    for k in prog.mro(K):
        for n, f in getattr(k, 'methods', {}).items():
            ms.setdefault(n, f)
    fs = K.module.functions
    edges = {}
    for f in list(ms.values()) + list(fs.values()):
        edges[f] = {ms[x.attr] for x in ast.walk(f.node)
                    if isinstance(x, ast.Attribute) and x.attr in ms and isinstance(x.value, ast.Name)
                    and x.value.id in ('self', 'cls', K.name)} | \
                   {fs[x.id] for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id in fs}

    def reach(f, avoid=()):
        seen, todo = set(), [g for g in edges[f] if g not in avoid]
        while todo:
            m = todo.pop()
            if m not in seen:
                seen.add(m)
                todo += [g for g in edges[m] if g not in avoid]
        return seen
    live = reach(ms['__init__']) | set(fs.values())
    cyc = {f for f in live if f in reach(f)}
    rec = set(cyc)

    def entered(f):            # from outside of its recursion
        return any(f in edges[g] and g not in reach(f) for g in live | {ms['__init__']})
    for f in sorted(cyc, key=lambda f: (entered(f), f.qual)):
        if not any(g in reach(g, rec - {f}) for g in cyc if g not in rec or g is f):
            rec.discard(f)

    def touches(f):            # what the walk fills in
        return any(isinstance(x, ast.Attribute) and x.attr in ACC
                   for g in {f} | reach(f) for x in ast.walk(g.node))
    return rec, {f for f in rec if not touches(f)}


def short(fi):
    return fi.qual.replace('kerncraft.', '', 1)


class Driver:
    def __init__(self, prog, rep, tier):
        self.prog, self.rep = prog, rep
        self.K = prog.cls('KernelCode')
        self.rec, self.pure = recursive_methods(prog, self.K)
        self.demands = {}
        self.budget = 3 if tier == 'thorough' else 2
        self.accepted = set()

    def once(self, fi, env, kinds, top, depth):
        c = WalkClient(self.prog, env, self.rec, fi, depth, kinds)
        it = Interp(self.prog, c)
        c.it = it
        st = State()
        st, sv = root_inst(st, self.K, 'kernel')
        if top:
            h = st.heap[('root', 'kernel')].copy()
            h.root = None
            st = st.sethobj(('root', 'kernel'), h)
            args = [sv] + [param(p) for p in fi.params[1:]]
            kw = {}
        else:
            ps = list(fi.params)
            args = []
            if fi.cls is not None and not fi.deco('staticmethod'):
                args.append(V(mk('cls', self.K)) if fi.deco('classmethod') else sv)
                ps = ps[1:]
            args.append(V(node('n')))
            nd = len(fi.node.args.defaults)
            args += [param(p) for p in ps[1:len(ps) - nd]]
            kw = {}
        res, raised = run_entry(it, st, fi, args, kw)
        self.rep.seen(it)
        if c.unknown:
            raise AnalysisBroken('%s at %s is not understood' % (c.unknown[0][1], c.unknown[0][0]))
        return res

    def marks(self, st):
        return {m[1]: n for m, n in st.ts.items() if isinstance(m, tuple) and m[0] == 'm'}

    def root(self):
        init = self.prog.find_method(self.K, '__init__')
        kinds = {}

        def make(env):
            return self.once(init, env, kinds, True, 1)
        for env, res in explore(make, {}, self.budget):
            j = Judge(env, kinds, self.demands, self.pure)
            what = self.describe(env, 'k')
            if not res:
                self.rep.ok('rejected', '%s: %s' % (short(init), what))
                continue
            if env.get(('k', 'cls')) is None:
                raise AnalysisBroken('the syntax tree of the kernel is not walked')
            for s, _ in res:
                marks = self.marks(s)
                bad = self.kernel(j, marks, s.facts)
                self.verdict(init, 'kernel', what, bad)
            self.accepted.add('kernel')
            for q in [q for (q, w), c in env.items() if w == 'cls' and c == 'Decl' and q.count('.') == 1]:
                n = 0
                while env.get((q + '.type' * (n + 1), 'cls')) == 'ArrayDecl':
                    n += 1
                self.accepted.add(('variable', n))

    def kernel(self, j, marks, facts):
        if j.cls('k') != 'Compound':
            return ['is accepted']
        n = j.env.get(('k.block_items', 'len'))
        if not isinstance(n, int):
            return ['is accepted although it is empty']
        items = ['k.block_items%d' % i for i in range(n)]
        exp, loops, phase = [], 0, 0
        for q in items:
            c = j.cls(q)
            if c == 'Decl' and phase == 0:
                exp.append(('variable', q))
            elif c in ('Pragma', 'EmptyStatement'):
                pass
            elif c == 'For':
                loops += 1
                phase = 1
                e = j.expect(marks, 'stmt', q)
                exp += e or [('refuse', q)]
            elif c == 'FuncCall' and loops:
                nm = mk('attr', node(q + '.name'), 'name')
                if not any(v is True and isinstance(k, T) and k.op == 'eq' and
                           {k.args[0], k.args[1]} == {frozenset([nm]),
                                                      frozenset([mk('const', 'str', 'swap')])}
                           for k, v in facts.items()):
                    exp.append(('refuse', q))
            else:
                exp.append(('refuse', q))
        if not loops:
            us = [m for q in items if j.cls(q) != 'Decl' for m in j.uses(marks, q)]
            if us and not any(x[0] == 'refuse' for x in exp):
                for m in us:              # the walk of what is there has to fail
                    j.demand(m[1], 'refuse', m[2])
                return []
        if loops != 1:
            return ['is accepted although it has %s loop nest' % ('no' if not loops else
                                                                 'more than one')]
        return self.compare(j, marks, exp, facts)

    def describe(self, env, p):
        out = []
        for (q, w), v in sorted(env.items(), key=lambda x: (x[0][0].count('.'), x[0])):
            out.append('%s%s %s' % ('' if w == 'cls' else w + ' ', q.replace('block_items', 'item'), v))
        return ', '.join(out)

    def compare(self, j, marks, exp, facts):
        bad = []
        want = {}
        for e in exp:
            want[e] = want.get(e, 0) + 1
        left = dict(marks)
        for e, n in sorted(want.items(), key=str):
            kind, p = e
            if kind == 'refuse':
                bad.append('%s is accepted but not accounted for' % self.name(j, p))
                continue
            if kind == 'use':
                ms = [m for m in left if m[0] == 'rec' and m[1] not in j.pure and m[2] == p]
                got = sum(left.pop(m) for m in ms)
                if got == 0:
                    bad.append('%s is not looked at' % self.name(j, p))
                elif got > n:
                    bad.append('%s is counted more than once' % self.name(j, p))
                continue
            hit = None
            for m in list(left):
                if m[0] != 'eff':
                    continue
                _, name, key, val = m
                if kind in ('sources', 'destinations') and name == kind:
                    if all(j.is_base(x, p) for x in key) and all(j.is_offs(x, p) for x in val):
                        hit = m
                        left.pop(m)       # recorded in a set: how often does not matter
                        break
                elif kind == 'flop' and name == '_flops':
                    if key == frozenset([mk('const', 'str', p)]) and val is None:
                        hit = m
                        got = left.pop(m)
                        if got != n:
                            bad.append('%s is counted %d times' % (p, got))
                        break
                elif kind == 'loop' and name == '_loop_stack':
                    x = j.loop_ok(val, p, facts)
                    got = left.pop(m)
                    hit = m
                    bad += x
                    if got > 1:
                        bad.append('the loop is recorded more than once')
                    break
                elif kind == 'variable' and name == 'variables':
                    if j.is_attr(key, p, 'name'):
                        hit = m
                        left.pop(m)
                        bad += ['the variable %s' % x for x in j.variable_ok(key, val, p)]
                        break
            if hit is None:
                bad.append({'sources': 'the read of %s is not recorded',
                            'destinations': 'the write of %s is not recorded',
                            'flop': 'operation %s is not counted',
                            'loop': 'the loop is not recorded (%s)',
                            'variable': 'the variable %s is not recorded'}[kind] %
                           (p if kind == 'flop' else self.name(j, p)))
        for m in left:
            if m[0] == 'rec' and m[1] not in j.pure:
                bad.append('%s is looked at out of place' % self.name(j, m[2]))
            elif m[0] == 'eff':
                bad.append('something else is recorded in %s: %s' % (
                    m[1].strip('_'), show_alts(m[3] if m[3] is not None else m[2])[:80]))
        return bad

    def name(self, j, p):
        c = j.cls(p)
        q = p.split('.', 1)[1] if '.' in p else 'it'
        return '%s%s' % (q, ' (%s)' % c if c else '')

    def verdict(self, fi, role, what, bad):
        where = '%s:%s' % (fi.module.path, fi.node.lineno)
        if not bad:
            self.rep.ok('accounted', '%s: %s' % (short(fi), what))
        for b in bad:
            self.rep.bad('accounted', '%s %s: %s' % (short(fi), role, b), where,
                         'for a tree with %s, %s' % (what, b))

    CORE = {'expr': ['ID', 'ArrayRef', 'Constant', 'BinaryOp'], 'stmt': ['For'],
            'val': ['ID', 'Constant', 'BinaryOp'], 'base': ['ID', 'ArrayRef'],
            'offs': ['ID', 'ArrayRef']}

    def walker(self, fi, role, c):
        kinds = {'n': [c]}
        depth = 6 if role == 'offs' else 1
        start = {('n', 'cls'): c}

        def make(env):
            return self.once(fi, env, kinds, False, depth)
        for env, res in explore(make, start, self.budget):
            what = self.describe(env, 'n')
            j = Judge(env, kinds, self.demands, self.pure)
            if not res:
                self.rep.ok('rejected', '%s: %s' % (short(fi), what))
                continue
            bad = ['%s is accepted' % c] if role == 'refuse' else []
            for s, v in res if role != 'refuse' else ():
                marks = self.marks(s)
                if role in ('expr', 'stmt'):
                    exp = j.expect(marks, role, 'n', top=True)
                    bad += ['%s %s is accepted but not accounted for' % (c, j.op('n') or '')] \
                        if exp is None else self.compare(j, marks, exp, s.facts)
                    continue
                if role == 'base' and j.cls('n.name') not in (None, 'ID', 'ArrayRef'):
                    continue              # refused by the function that gives the subscripts
                alts = self.flatv(s, v)
                ok = {'val': j.is_val, 'base': j.is_base, 'offs': j.is_offs}[role]
                j.demands = {}
                alts = [t for t in alts if not (t.op == 'rec' and t.args == (fi, 'n'))]
                j.demands = self.demands
                if not alts or not all(ok(t, 'n') for t in alts):
                    bad.append('%s %s gives %s' % (c, j.op('n') or '', show_alts(v.alts)[:120]))
            self.verdict(fi, role, what, sorted(set(bad)))
            self.accepted.add((role, c))

    def flatv(self, st, v):
        r = []
        for t in v.alts:
            if t.op == 'obj' and t.args[0] in st.heap and st.heap[t.args[0]].kind == 'list' and \
                    all(g.kind == 'one' for g in st.heap[t.args[0]].segs):
                r.append(mk('tup', tuple(g.v.alts for g in st.heap[t.args[0]].segs)))
            else:
                r.append(t)
        return r

    def run(self):
        self.root()
        done = set()
        while True:
            new = [(k, c) for k, cs in self.demands.items() for c in sorted(cs)
                   if (k, c) not in done]
            if not new:
                break
            for (fi, role), c in sorted(new, key=lambda x: (x[0][0].qual, x[0][1], x[1])):
                done.add(((fi, role), c))
                self.walker(fi, role, c)
        for role, cs in self.CORE.items():
            if not any(k[0][1] == role for k in done):
                continue
            for c in cs:
                self.rep.check((role, c) in self.accepted, 'accepted-constructs',
                               '%s %s' % (role, c), 'kerncraft/kernel.py:1',
                               '%s is not accepted any more as %s' % (c, role))
        for n in range(3):
            self.rep.check(('variable', n) in self.accepted, 'accepted-constructs',
                           'declaration with %d dimensions' % n, 'kerncraft/kernel.py:1',
                           'a declaration with %d dimensions is not accepted any more' % n)
        self.rep.require('kernel' in self.accepted, 'no kernel is accepted')
        self.rep.count('cases', sum(o[0] for o in self.rep.obligations.values()))


def run(prog, rep, tier):
    rep.rule('accounted', 'an accepted construct leaves exactly the records its meaning demands')
    rep.rule('rejected', 'what is not accounted for ends in an error')
    rep.rule('accepted-constructs', 'loops, assignments, expressions and declarations are accepted')
    Driver(prog, rep, tier).run()
