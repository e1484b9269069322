"""P14: loop counters, iteration numbers, elements and bytes are never taken for one another."""
import ast
import os
import re

from checks.p12 import (ANY, PURE, UNK, Dims, alts, chain_keys, mul, same, short, show, vec)
from ksa.interp import Client, Interp
from ksa.models import kernel_machine, set_slot
from ksa.roots import param, root_inst, run_entry
from ksa.terms import T, V, mk, walk_terms

EXPLANATION = (
    'Dimension analysis of the geometry of kernels: bounds, steps, counters and subscripts of '
    'loops count elements, lengths and iteration numbers are bare counts, sizes of data types are '
    'bytes per element, caches have bytes. The functions of kernels that turn one into the other '
    'and the cache predictors that use them are interpreted abstractly; what each of them hands '
    'out must have the dimension its callers assume, sums and comparisons must agree, and every '
    'address must be made of one array only: its own subscripts, its own sizes, its own base. '
    'Positions and distances are told apart by their affine degree, the parts of a loop by their '
    'role, and the flattening of subscripts in generated code is interpreted on symbolic trees.')
ASSUMPTIONS = [
    'the warm-up of the cache simulator may be longer than needed (it counts elements there)',
]
MIN = {'dimension': 50, 'same-dimension': 20, 'stride': 2, 'own-array': 4, 'layout': 6,
       'position': 4, 'role': 4, 'order': 3}

EL = vec(El=1)
DEBUG = os.environ.get('KSA_P14_DEBUG')
BY = vec(B=1)
CONTRACT = {'array_sizes': None, 'access_to_sympy': EL, '_calculate_relative_offset': EL,
            'iteration_length': PURE, 'global_iterator': PURE,
            'indices_to_global_iterator': PURE, 'max_global_iteration': PURE,
            'global_iterator_to_indices': EL, 'compile_sympy_accesses': EL,
            'compile_relative_distances': EL, 'bytes_per_iteration': BY,
            'compile_global_offsets': BY, '_align_iteration_with_cl_boundary': PURE}
KEYS = {'distances': EL, 'distances_bytes': BY, 'tail': BY, 'hits': PURE, 'misses': PURE,
        'evicts': PURE, 'start': EL, 'stop': EL, 'increment': EL}
PASS = {'numpy.asarray', 'numpy.array', 'list', 'tuple', 'sorted', 'set', 'frozenset', 'reversed',
        'iter', 'numpy.arange', 'range', 'numpy.transpose', 'force_iterable', 'abs', 'sympy_expr_abs_distance_key', 'sympy.expand',
        'numpy.atleast_1d', 'sympy.Add', 'sympy.Number', 'numpy.stack', 'numpy.column_stack'}
MPASS = {'max', 'min', 'astype', 'subs', 'simplify', 'expand', 'factor', 'copy', 'doit', 'item',
         'transpose', 'canonical', 'evalf', 'tolist', 'levels'}


def literal(t):
    if t.op == 'const':
        return t.args[1]
    if t.op == 'call' and t.args[0] in ('sympy.Integer', 'sympy.Number', 'sympy.Float') and \
            len(t.args[1]) == 1:
        xs = alts(t.args[1][0])
        if len(xs) == 1 and xs[0].op == 'const':
            return xs[0].args[1]
    return None


def about_loops(t):
    return any(x.op == 'attr' and x.args[1] == '_loop_stack' or short(x) == 'get_loop_stack'
               for x in walk_terms(t))


def sizes(t):
    """The array whose sizes this is (variables[name][1]), or None."""
    keys, base = chain_keys(t)
    if t.op == 'item' and keys[0] == 1 and base.op == 'attr' and base.args[1] == 'variables' and \
            len(keys) == 2:
        inner = alts(t.args[0])
        return inner[0].args[1]
    return None


# what the figures of a predictor are called and which of the simulator's counters they stem from
FIGURES = {'get_loads': {'LOAD'}, 'get_hits': {'HIT'}, 'get_misses': {'MISS'},
           'get_stores': {'STORE'}, 'get_evicts': {'EVICT'}}
OPTIONS = {'get_loads': {'misses'}, 'get_hits': {'hits', 'misses'}, 'get_misses': {'misses'},
           'get_stores': {'evicts'}, 'get_evicts': {'evicts'}}
TOTALS = re.compile(r'^total (lines )?(load|store|hit|misse|evict)s?$')
COUNTERS = re.compile(r'^(LOAD|STORE|HIT|MISS|EVICT)_(count|byte)$')
ROLES = {'index': 0, 'start': 1, 'stop': 2, 'increment': 3}
CL = vec(CL=1)


def loop_position(t):
    """Position in the description of a loop (index, start, stop, step), or None."""
    if t.op != 'item':
        return None
    keys, base = chain_keys(t)
    k = keys[0]
    if k in ROLES and about_loops(t):
        return ROLES[k]
    if base.op == 'attr' and base.args[1] == '_loop_stack' and len(keys) > 1 or \
            base.op == 'elem' and about_loops(base) and len(keys) == 1:
        return k if k in (0, 1, 2, 3) else None
    return None


class Affine:
    """Positions (start, stop, counters) have degree 1, distances between them degree 0."""
    def __init__(self, it, st):
        self.it = it
        self.st = st
        self.memo = {}

    def of(self, xs):
        r = set()
        for t in alts(xs):
            r |= self.one(t)
        return r

    def one(self, t):
        if t not in self.memo:
            self.memo[t] = set()
            self.memo[t] = self.raw(t)
        return self.memo[t]

    def raw(self, t):
        k = loop_position(t)
        if k in (1, 2):
            return {1}
        if k == 3:
            return {0}
        if literal(t) is not None:
            return {0}
        fn = short(t)
        if t.op == 'call' and fn == 'symbol_pos_int' and t.args[1]:
            xs = alts(t.args[1][0])
            if all(x.op == 'const' for x in xs):
                return {0} if all('iterat' in str(x.args[1]) for x in xs) else {'?'}
            return {1} if any(about_loops(x) for x in xs) else {'?'}
        if t.op in ('call', 'mcall') and CONTRACT.get(fn) == PURE:
            return {0}
        if t.op == 'param' and t.args[0] in ('iteration', 'git'):
            return {0}
        if t.op == 'loopvar':
            return self.of(self.it.loopvars.get(t, ()))
        if t.op == 'obj':
            h = self.st.heap.get(t.args[0])
            r = set()
            if h is not None and h.kind == 'dict':
                for x in h.slots.values():
                    r |= self.of(x[0].alts)
                if h.other is not None:
                    r |= self.of(h.other[1].alts)
            elif h is not None:
                for g in h.segs or []:
                    r |= self.of(g.v.alts)
            return r or {'?'}
        if t.op == 'lambda':
            return self.of(t.args[0])
        if t.op == 'bin':
            a, b = self.of(t.args[1]), self.of(t.args[2])
            if t.args[0] in ('+', '-'):
                s = 1 if t.args[0] == '+' else -1
                return {'?' if '?' in (x, y) else 'bad' if 'bad' in (x, y) else x + s*y
                        for x in a for y in b}
            if t.args[0] in ('*', '/', '//', '%'):
                return {self.scaled(x, y) for x in a for y in b}
            return {'?'}
        if t.op == 'call' and fn in ('int_ceil', 'int_floor', 'ceildiv') and len(t.args[1]) > 1:
            return {self.scaled(x, y) for x in self.of(t.args[1][0])
                    for y in self.of(t.args[1][1])}
        if t.op == 'call' and fn in ('subs_consts',) and len(t.args[1]) > 1:
            return self.of(t.args[1][1])
        if t.op == 'mcall' and fn == 'subs_consts' and t.args[2]:
            return self.of(t.args[2][0])
        if t.op == 'call' and (fn in ('int', 'Integer', 'float') or t.args[0] in PASS) and \
                len(t.args[1]) == 1:
            return self.of(t.args[1][0])
        if t.op == 'mcall' and fn in MPASS:
            return self.of(t.args[0])
        return {'?'}

    @staticmethod
    def scaled(x, y):
        if 'bad' in (x, y):
            return 'bad'
        if '?' in (x, y):
            return '?'
        return 'bad' if x or y else 0


class GeoDims(Dims):
    st = None
    simulating = False

    def source(self, t):
        if t.op == 'item':
            keys, base = chain_keys(t)
            k = keys[0]
            if base.op == 'attr' and base.args[1] == 'datatypes_size':
                return vec(B=1, El=-1)
            if base.op == 'attr' and base.args[1] == '_loop_stack' and len(keys) > 1 or \
                    base.op == 'elem' and about_loops(base):
                if k in (1, 2, 3):
                    return EL
            if k in ('start', 'stop', 'increment') and about_loops(t):
                return EL
            if k == 'cacheline size':
                return vec(B=1, CL=-1) if self.simulating else BY
            if isinstance(k, str) and k.endswith('_byte'):
                return BY
            if isinstance(k, str) and k.endswith('_count'):
                return CL
            if base.op == 'elem' and self.access(base) and len(keys) == 1 and k == 2:
                return EL           # ('rel', index, offset)
            if self.access(base):
                return EL
            fn = short(base)
            if fn == 'array_sizes':
                return self.array_sizes(base)
            if fn in CONTRACT and CONTRACT[fn] is not None:
                return CONTRACT[fn]
            if fn == 'split_sympy_access_in_dim_offset':
                return EL
            if base.op == 'param' and base.args[0] == 'sympy_accesses':
                return EL
            return None
        fn = short(t)
        if t.op == 'ext' and str(t.args[0]) in ('sympy.oo', 'math.inf', 'numpy.inf'):
            return ANY
        if fn == 'split_sympy_access_in_dim_offset':
            return EL
        if t.op in ('call', 'mcall') and fn == 'array_sizes':
            return self.array_sizes(t)
        if t.op in ('call', 'mcall') and CONTRACT.get(fn) is not None:
            return CONTRACT[fn]
        if t.op == 'attr' and t.args[1] == 'bytes_per_iteration':
            return BY
        if t.op == 'attr' and t.args[1] == 'first_dim_factor':
            return CL
        if t.op == 'attr' and t.args[1] in ('sets', 'ways'):
            return PURE
        if t.op == 'attr' and t.args[1] == 'cl_size':
            return BY
        if t.op == 'elem':
            if self.access(t):
                return EL
            for x in alts(t.args[0]):
                f = short(x)
                b = chain_keys(x)[1]
                if b is not x and CONTRACT.get(short(b)) is not None:
                    return CONTRACT[short(b)]
                if f == 'array_sizes':
                    return None
                if f in ('values', 'dict.values') or f == 'items':
                    continue
                if f == 'split_sympy_access_in_dim_offset':
                    return EL
                if x.op == 'elem' or x.op == 'item':
                    for y in walk_terms(x):
                        if short(y) == 'compile_sympy_accesses' or y.op == 'param' and \
                                y.args[0] == 'sympy_accesses':
                            return EL
        if t.op == 'mcall' and fn == 'size' and not t.args[2]:
            return BY
        if t.op == 'call' and fn == 'symbol_pos_int':
            xs = alts(t.args[1][0])
            if all(x.op == 'const' for x in xs):
                return PURE if all('iterat' in str(x.args[1]) for x in xs) else EL
            return EL if any(about_loops(x) for x in xs) else None
        if t.op == 'param':
            if t.args[0] == 'spacing':
                return BY
            if t.args[0] in ('iteration', 'git'):
                return PURE
        if t.op == 'attr' and t.args[1] in ('start', 'stop', 'step') and all(
                x.op == 'param' for x in alts(t.args[0])):
            return PURE
        return None

    def access(self, t):
        """elem/item of an access (tuple of subscripts)."""
        def is_access(x):
            if x.op == 'param' and x.args[0] in ('access', 'access_dimensions'):
                return True
            if x.op == 'elem':
                return any(y.op == 'item' and any(z.op == 'attr' and z.args[1] in (
                    'sources', 'destinations') for z in alts(y.args[0])) for y in alts(x.args[0]))
            return False
        return t.op in ('elem', 'item') and any(is_access(x) for x in alts(t.args[0]))

    def array_sizes(self, t):
        args, kw = (t.args[1], t.args[2]) if t.op == 'call' else (t.args[2], t.args[3])
        kw = dict(kw)
        if t.op == 'call':
            args = args[1:]
        v = kw.get('in_bytes', args[0] if args else None)
        if v is None:
            return EL
        xs = alts(v)
        if len(xs) == 1 and xs[0].op == 'const':
            return BY if xs[0].args[1] else EL
        return UNK

    def combine(self, op, sides, literal_=True, **kw):
        out = []
        for s in sides:
            out.append([t for t in alts(s) if not isinstance(literal(t), (int, float))])
        return Dims.combine(self, op, out) if any(out) else Dims.combine(self, op, sides)

    def raw(self, t):
        op, a = t.op, t.args
        s = self.source(t)
        if s is not None:
            return {s}
        r = self.raw2(t)
        if DEBUG and UNK in r:
            print('   UNK', str(t)[:int(DEBUG)])
        return r

    def raw2(self, t):
        op, a = t.op, t.args
        v = literal(t)
        if v is not None and op != 'const':
            return self.raw(mk('const', type(v).__name__, v))
        if sizes(t) is not None:
            return {PURE}
        if op == 'bin' and a[0] in ('&', '>>', '<<', '|'):
            return self.of(a[1])
        if op == 'bin' and a[0] == '%':
            return self.combine('%', [a[1], a[2]])
        if op == 'bin' and a[0] in ('+', '-'):
            # an operand may be a sum that still is its literal start
            return self.combine(a[0], [a[1], a[2]])
        if op == 'un' and a[0] in ('USub', 'UAdd', 'Invert') and all(
                isinstance(x, T) for x in alts(a[1])):
            return self.of(a[1])
        if op == 'lambda':
            return self.of(a[0])
        if op == 'reduce':
            if 'mul' in str(a[0]):
                if any(True for _ in self.segs(a[1])):
                    return {PURE}
            if 'add' in str(a[0]).lower():
                if any(True for _ in self.segs([x for x in a[1] if not isinstance(
                        x, tuple) or not any(isinstance(y, (tuple, frozenset)) and not
                                             all(isinstance(z, T) for z in y) for y in x[2:])])):
                    self.clash[('sum', 'size of a dimension', 'size of another')] = True
                return self.combine('+', [self.seg(x) for x in a[1]])
            return {UNK}
        if op == 'slice':
            return {PURE} if any(sizes(x) is not None for x in alts(a[0])) else {UNK}
        if op == 'elem':
            for x in alts(a[0]):
                if x.op == 'slice' or sizes(x) is not None:
                    return {PURE}
            if all(x.op in ('loopvar', 'bin', 'tup', 'reduce', 'obj') for x in alts(a[0])):
                return self.of(a[0]) or {ANY}
        if op == 'tup':
            r = set()
            for x in a[0] if len(a) == 1 else a:
                r |= self.of(x)
            return (r if not all(isinstance(literal(y), (int, float)) for x in
                                 (a[0] if len(a) == 1 else a) for y in alts(x)) else set()) or {ANY}
        if op == 'bin' and a[0] == '*' and any(x.op == 'tup' for x in alts(a[1])):
            return self.of(a[1]) or {ANY}
        if op == 'obj' and self.st is not None:
            return self.inside(t, set())
        if op in ('call', 'mcall'):
            fn = short(t)
            if op == 'call' and (a[0] in PASS or fn in PASS):
                return self.combine('+', list(a[1])) or {ANY}
            if op == 'call' and fn in ('ceildiv', 'int_ceil') and len(a[1]) > 1:
                return self.raw(mk('bin', '/', a[1][0], a[1][1]))
            if op == 'call' and fn in ('int_floor',) and len(a[1]) > 1:
                return self.raw(mk('bin', '/', a[1][0], a[1][1]))
            if op == 'mcall' and fn in MPASS:
                return self.of(a[0]) or {ANY}
            if op == 'mcall' and fn in ('values',) or op == 'call' and fn == 'dict.values':
                return self.of(a[0])
        if op == 'attr' and a[1] == 'T':
            return self.of(a[0])
        return Dims.raw(self, t)

    def segs(self, xs):
        for x in xs:
            src = x[2] if isinstance(x, tuple) and len(x) > 2 else None
            for y in alts(src):
                if y.op == 'slice' and any(sizes(z) is not None for z in alts(y.args[0])) or \
                        sizes(y) is not None:
                    yield y
                    continue
            vs = self.seg(x)
            for y in alts(vs):
                if y.op == 'elem':
                    for z in alts(y.args[0]):
                        if z.op == 'slice' or sizes(z) is not None:
                            yield z

    def inside(self, t, seen):
        """Dimensions of what a modelled container holds."""
        r = set()
        if t in seen:
            return r
        seen.add(t)
        h = self.st.heap.get(t.args[0])
        if h is None:
            return {UNK}
        vs = [g.v for g in (h.segs or [])]
        if h.kind == 'dict':
            vs += [x[0] for x in h.slots.values()]
            if h.other is not None:
                vs.append(h.other[1])
        for v in vs:
            for x in v.alts:
                r |= self.inside(x, seen) if x.op == 'obj' else self.of(frozenset([x]))
        return r


def simulates(fi):
    """Part of the simulation of the caches, whichever method it is kept in."""
    return fi is not None and fi.cls is not None and \
        fi.name not in ('__init__', '_align_iteration_with_cl_boundary') and \
        any(isinstance(x, ast.Attribute) and x.attr in ('loadstore', 'count_invalid_entries')
            for m in fi.cls.methods.values() for x in ast.walk(m.node))


class GeoClient(Client):
    def __init__(self, prog, rep, fi):
        self.prog = prog
        self.rep = rep
        self.fi = fi
        self.dims = None
        self.turned = set()
        self.weighted = set()

    def inline(self, fi, st, args):
        if fi.parent is not None:
            return True
        if fi.name in CONTRACT or fi.name in ('subs_consts', 'symbol_pos_int', 'force_iterable',
                                              'get_loop_stack', 'canonical_relational',
                                              'split_sympy_access_in_dim_offset',
                                              'sympy_expr_abs_distance_key', 'uneven_tuple_cmp',
                                              'ceildiv', 'int_ceil', 'int_floor'):
            return False
        return fi.module is self.fi.module

    def d(self, it, st):
        if self.dims is None or self.dims.it is not it:
            self.dims = GeoDims(it)
            self.dims.simulating = simulates(self.fi)
        if self.dims.st is not st:
            self.dims.st = st
            self.dims.memo = {}
        return self.dims

    def attr(self, it, st, base, name):
        if name == 'datatypes_size':
            return V(mk('attr', base.one or mk('top'), 'datatypes_size'), base.deps)
        return None

    def place(self, it):
        return '<-'.join(f.qual.split('.', 1)[1] for f in it.fstack[-2:][::-1])

    def call(self, it, st, node, name, fn, args, kwargs):
        sh = name.split('.')[-1]
        D = self.d(it, st)
        if sh == 'int_ceil' and len(args) == 2:
            return [(st, V(mk('call', 'int_ceil', (args[0].alts, args[1].alts), ()),
                           args[0].deps | args[1].deps))]
        if sh == 'lambdify' and len(args) > 1:
            want = PURE
            by = D.of(args[0].alts)
            if any(short(x) == 'global_iterator_to_indices' for x in walk_terms(args[0].alts)):
                want = BY
                self.own(it, node, args[1])
            elif by == {PURE}:
                want = EL
            else:
                want = None
            if want is not None:
                self.sink(it, st, node, args[1], want, 'function of %s' % (
                    'loop counters' if want == BY else 'iteration numbers'))
                if want == EL:
                    self.affine(it, st, node, args[1], 1, 'loop counter')
                    self.weights(it, node, args[1])
            return [(st, V(mk('lambda', args[1].alts), args[0].deps | args[1].deps))]
        if fn is not None and getattr(fn, 'op', None) == 'lambda':
            return [(st, V(fn))]
        if sh == 'force_iterable' and args:
            return [(st, args[0])]
        if sh == 'indices_to_global_iterator' and args:
            self.sink(it, st, node, args[-1], EL, 'counters handed to %s' % sh)
            self.affine(it, st, node, args[-1], 1, 'counter handed to %s' % sh)
        if sh == 'loadstore':
            if 'length' in kwargs:
                self.sink(it, st, node, kwargs['length'], vec(B=1, El=-1), 'length of an access')
            if len(args) > 0 and simulates(self.fi):
                self.sink(it, st, node, args[0], BY, 'addresses given to the simulator')
        if sh == 'canonical_relational' and args:
            self.compare(it, st, node, args[0])
        if sh == 'next' and args:
            self.position_of(it, st, node, args[0], 0)
        if sh == 'compile_sympy_accesses' and fn is not None and self.fi.name != \
                'compile_relative_distances':
            low = [a for a in list(args[1:]) + list(kwargs.values())
                   if a.const(True) in (False, None, 0)]
            self.rep.check(not low, 'layout', '%s:all accesses' % self.place(it),
                           '%s:%s' % (it.fn.module.path, node.lineno),
                           'reads or writes are left out of the accesses', sample='all accesses')
        if sh == 'reversed' and args:
            self.turn(it, st, args[0])
        if sh in ('_align_iteration_with_cl_boundary', 'compile_global_offsets'):
            v = kwargs.get('iteration') or (args[1] if fn is not None and len(args) > 1 else
                                            args[0] if args else None)
            if v is not None and not self.warming(v):
                self.sink(it, st, node, v, PURE, 'iterations given to %s' % sh)
        if sh == 'split_sympy_access_in_dim_offset' and len(args) > 1:
            a, b = self.arrays(it, st, args[0]), self.arrays(it, st, args[1])
            if a and b:
                self.rep.check(a == b, 'own-array', '%s:delinearised' % self.place(it),
                               '%s:%s' % (it.fn.module.path, node.lineno),
                               'an access is split by the sizes of another array',
                               sample='split by own sizes')
        return None

    def turn(self, it, st, v):
        """Something is traversed from the end."""
        todo = list(v.alts)
        for t in todo:
            if t.op == 'obj':
                h = st.heap.get(t.args[0])
                for g in getattr(h, 'segs', None) or []:
                    for x in g.v.alts:
                        todo += [x] if x.op != 'obj' and x not in todo else []
            for x in walk_terms(t):
                if x.op == 'attr' and x.args[1] == '_loop_stack' or short(x) == 'get_loop_stack':
                    self.turned.add('loops')
                if sizes(x) is not None:
                    self.turned.add('sizes')
                if x.op == 'param' and x.args[0] in ('access', 'access_dimensions'):
                    self.turned.add('access')

    @staticmethod
    def warming(v):
        """Made from the size of caches: the warm-up may count elements."""
        todo = list(v.alts)
        seen = set()
        while todo:
            t = todo.pop()
            if not isinstance(t, T) or t in seen:
                if isinstance(t, (tuple, frozenset)):
                    todo += list(t)
                continue
            seen.add(t)
            if t.op == 'loopvar':
                return True
            if t.op == 'mcall' and t.args[1] == 'size':
                return True
            if t.op in ('call', 'mcall') and short(t) in CONTRACT:
                continue
            todo += list(t.args)
        return False

    @staticmethod
    def arrays(it, st, v):
        """Names of the arrays whose sizes or subscripts something is made of."""
        names, seen, todo = set(), set(), list(v.alts)
        while todo:
            t = todo.pop()
            for x in walk_terms(t):
                if x in seen:
                    continue
                seen.add(x)
                n = sizes(x)
                if n is not None:
                    names.add(frozenset(alts(n)))
                if x.op == 'item' and any(short(b) == 'compile_sympy_accesses'
                                          for b in alts(x.args[0])):
                    names.add(frozenset(alts(x.args[1])))
                if x.op == 'obj':
                    h = st.heap.get(x.args[0])
                    for g in getattr(h, 'segs', None) or []:
                        todo += list(g.v.alts)
                if x.op == 'loopvar':
                    todo += list(it.loopvars.get(x, ()))
        return names

    def affine(self, it, st, node, v, want, what):
        got = Affine(it, st).of(v.alts if isinstance(v, V) else v)
        known = got - {'?'}
        if not known:
            return
        ok = known == {want}
        self.rep.check(ok, 'position', '%s:%s' % (self.fi.qual.split('.', 1)[1], what),
                       '%s:%s' % (self.fi.module.path, getattr(node, 'lineno', '?')),
                       '%s is %s' % (what, 'a position instead of a distance' if known == {1}
                                     else 'not made of one position and distances from it' if want
                                     else 'computed with positions as if they were distances'),
                       sample='%s %s' % (self.fi.name, what))

    def weights(self, it, node, v):
        """The innermost loop counts single iterations, the next ones whole inner loops."""
        def lengths(x):
            return any(short(y) in ('int_ceil', 'ceildiv') or y.op == 'loopvar' and any(
                short(z) in ('int_ceil', 'ceildiv') for w in it.loopvars.get(y, ())
                for z in walk_terms(w)) for y in walk_terms(x))

        def one(xs):
            return any(literal(x) == 1 or x.op == 'loopvar' and one(it.loopvars.get(x, ()))
                       for x in alts(xs))
        for t in walk_terms(v.alts if isinstance(v, V) else v):
            if t.op != 'bin':
                continue
            if t.args[0] == '//' and (any(lengths(x) for x in alts(t.args[2])) or
                                      one(t.args[2])):
                self.weighted.add('one' if one(t.args[2]) else 'product')
                for x in alts(t.args[1]):
                    if x.op == 'bin' and x.args[0] == '%' and any(
                            short(y) in ('int_ceil', 'ceildiv') for y in alts(x.args[2])):
                        self.rep.bad('order', '%s:%s' % (self.fi.name, 'modulo'),
                                     '%s:%s' % (self.fi.module.path, node.lineno),
                                     'the iteration number is reduced by the length of a loop '
                                     'before it is divided by the iterations of inner loops')
            if t.args[0] == '*':
                for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                    if any(x.op == 'bin' and x.args[0] == '/' for x in alts(a)) and (
                            one(b) or any(lengths(x) for x in alts(b))):
                        self.weighted.add('one' if one(b) else 'product')

    def compare(self, it, st, node, v):
        D = self.d(it, st)
        for t in walk_terms(v.alts):
            if t.op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
                xs = list(t.args) if len(t.args) == 2 else alts(t.args[0])
                if len(xs) == 2:
                    D.combine('comparison', [frozenset(alts(x)) for x in xs])
                    self.report(it, node, 'comparison')

    def own(self, it, node, v):
        """One address mentions the subscripts, the sizes and the base of one array."""
        for t in v.alts:
            names = set()
            for x in walk_terms(t):
                if short(x) == 'access_to_sympy':
                    a = x.args[1][1:] if x.op == 'call' else x.args[2]
                    if len(a) > 1:
                        names.add(frozenset(alts(a[0])))
                        for y in alts(a[1]):
                            for z in walk_terms(y):
                                if z.op == 'item' and any(w.op == 'attr' and w.args[1] in (
                                        'sources', 'destinations') for w in alts(z.args[0])):
                                    names.add(frozenset(alts(z.args[1])))
                                if z.op == 'mcall' and z.args[1] == 'get' and any(
                                        w.op == 'attr' and w.args[1] in ('sources', 'destinations')
                                        for w in alts(z.args[0])):
                                    names.add(frozenset(alts(z.args[2][0])))
                if x.op == 'item' and any(w.op == 'attr' and w.args[1] == 'variables'
                                          for w in alts(x.args[0])):
                    names.add(frozenset(alts(x.args[1])))
            self.rep.check(len(names) <= 1, 'own-array', '%s' % self.place(it),
                           '%s:%s' % (it.fn.module.path, node.lineno),
                           'an address combines data of different arrays: %s' % ', '.join(
                               sorted(str(sorted(n)) for n in names))[:300])

    def sink(self, it, st, node, v, want, what):
        D = self.d(it, st)
        got = D.of(v.alts if isinstance(v, V) else v)
        for t in walk_terms(v.alts if isinstance(v, V) else v):
            if t.op == 'item' and any(x.op == 'attr' and x.args[1] == 'datatypes_size'
                                      for x in alts(t.args[0])) and \
                    any(x.op == 'const' for x in alts(t.args[1])):
                self.rep.bad('own-array', '%s:%s' % (self.fi.name, what),
                             '%s:%s' % (self.fi.module.path, getattr(node, 'lineno', '?')),
                             'the size of a fixed data type is taken for that of the elements')
        bad = sorted(show(g) for g in got if not same(g, want))
        if bad or got and UNK not in got:
            self.rep.check(not bad, 'dimension', '%s:%s' % (self.place(it) if it.fstack else
                                                            self.fi.qual.split('.', 1)[1], what),
                           '%s:%s' % (self.fi.module.path, getattr(node, 'lineno', '?')),
                           '%s: %s instead of %s' % (what, ' or '.join(bad), show(want)),
                           sample='%s %s: %s' % (self.fi.name, what, show(want)))
        else:
            if DEBUG:
                print('UNDET', self.fi.name, what, str(v.alts)[:int(DEBUG)], got)
            self.rep.count('undetermined')
        self.report(it, node, what)

    def report(self, it, node, what):
        D = self.dims
        self.rep.ok('same-dimension')
        for op, x, y in sorted(D.clash):
            self.rep.bad('same-dimension', '%s:%s %s' % (self.fi.qual.split('.', 1)[1], what, op),
                         '%s:%s' % (self.fi.module.path, getattr(node, 'lineno', '?')),
                         'values of different dimension (%s and %s) are combined by %s' % (
                             x, y, op))
        D.clash.clear()

    def on_event(self, ev):
        it = self.it
        if ev.kind in ('setitem', 'dictlit'):
            pairs = [(ev.data['key'], ev.data['value'])] if ev.kind == 'setitem' else \
                ev.data.get('items', ())
            for k, v in pairs:
                k = k.const(None) if k is not None else None
                if isinstance(k, str) and k in KEYS:
                    self.sink(it, ev.st, ev.node, v, KEYS[k], 'entry %r' % k)
                    if k in ROLES:
                        self.affine(it, ev.st, ev.node, v, 0 if k == 'increment' else 1,
                                    'entry %r' % k)
                if isinstance(k, str) and k in ROLES:
                    got = {loop_position(x) for t in v.alts for x in walk_terms(t)} - {None}
                    if got:
                        self.rep.check(got == {ROLES[k]}, 'role', '%s:%s' % (self.fi.name, k),
                                       '%s:%s' % (it.fn.module.path, ev.node.lineno),
                                       '%r of a loop is taken from another part of it' % k,
                                       sample=k)
                if isinstance(k, str) and TOTALS.match(k):
                    m = TOTALS.match(k)
                    self.sink(it, ev.st, ev.node, v, PURE if m.group(1) else vec(B=1, CL=-1),
                              'entry %r' % k)
                    self.counters(it, ev.node, v, {'MISS' if m.group(2) == 'misse' else
                                                 m.group(2).upper()}, 'entry %r' % k)
                if k == 'cachelines in stats':
                    self.sink(it, ev.st, ev.node, v, CL, 'entry %r' % k)
                if k in ('destinations', 'evicts'):
                    self.stems(it, ev, k, v, {'destinations'})
                if k in ('load', 'store'):
                    self.offsets(it, ev, k, v)
        elif ev.kind == 'setattr' and ev.data['name'] == 'first_dim_factor' and \
                self.fi.name != '__init__':
            self.sink(it, ev.st, ev.node, ev.data['value'], CL, 'cachelines worked on')
        elif ev.kind == 'slice':
            if ev.data['step'] is not None and ev.data['step'].const(None) == -1:
                self.turn(it, ev.st, ev.data['base'])
        elif ev.kind == 'getitem':
            self.position(it, ev)
        elif ev.kind == 'cond' and not any(warms(f) for f in it.fstack):
            t = ev.data.get('term')
            if t is not None:
                self.compare(it, ev.st, ev.node, V(t))
        return False

    def position(self, it, ev):
        """The step that counts is that of the innermost loop."""
        k = ev.data['key'].const(None)
        if isinstance(k, int) and not isinstance(k, bool):
            self.position_of(it, ev.st, ev.node, ev.data['base'], k)

    def position_of(self, it, st, node, base, k):
        if self.fi.name not in ('bytes_per_iteration', '_align_iteration_with_cl_boundary') and \
                not simulates(self.fi):
            return
        for b in base.alts:
            stack = b.op == 'attr' and b.args[1] == '_loop_stack' or short(b) == 'get_loop_stack'
            if b.op == 'obj':
                h = st.heap.get(b.args[0])
                gs = getattr(h, 'segs', None) or []
                stack = len(gs) == 1 and all(x.op == 'elem' and any(
                    y.op == 'attr' and y.args[1] == '_loop_stack' or
                    short(y) == 'get_loop_stack' for y in alts(x.args[0])) for x in gs[0].v.alts)
            if stack:
                self.rep.check(k == (0 if 'loops' in self.turned else -1), 'order',
                               '%s:loop %s' % (self.place(it), k),
                               '%s:%s' % (it.fn.module.path, node.lineno),
                               'loop number %s is taken for the innermost loop' % k,
                               sample='innermost loop')

    def counters(self, it, node, v, want, what):
        got = set()
        for t in walk_terms(v.alts if isinstance(v, V) else v):
            if t.op == 'item':
                k = chain_keys(t)[0][0]
                m = COUNTERS.match(k) if isinstance(k, str) else None
                if m:
                    got.add(m.group(1))
        if got:
            self.rep.check(got == want, 'layout', '%s:%s' % (self.fi.qual.split('.', 1)[1], what),
                           '%s:%s' % (self.fi.module.path, getattr(node, 'lineno', '?')),
                           '%s is taken from the counter of %s' % (what, ', '.join(sorted(got))),
                           sample=what)

    def stems(self, it, ev, k, v, want):
        got = self.origin(ev, v)
        if got:
            self.rep.check(got == want, 'layout', '%s:%s' % (self.fi.name, k),
                           '%s:%s' % (it.fn.module.path, ev.node.lineno),
                           '%s are taken from %s instead of %s' % (
                               k, ' and '.join(sorted(got)), ' and '.join(sorted(want))),
                           sample='%s from %s' % (k, ' and '.join(sorted(want))))

    @staticmethod
    def origin(ev, v):
        seen, todo, got = set(), list(v.alts), set()
        while todo:
            t = todo.pop()
            for x in walk_terms(t):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'attr' and x.args[1] in ('sources', 'destinations'):
                    got.add(x.args[1])
                if x.op == 'obj':
                    h = ev.st.heap.get(x.args[0])
                    if h is not None and h.kind in ('list', 'set'):
                        for g in h.segs or []:
                            todo += list(g.v.alts)
        return got

    def offsets(self, it, ev, k, v):
        """Loads stem from what is read, stores from what is written."""
        self.sink(it, ev.st, ev.node, v, BY, 'offsets of %ss' % k)
        self.based(it, ev, k, v)
        seen, todo, got = set(), list(v.alts), set()
        while todo:
            t = todo.pop()
            for x in walk_terms(t):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'attr' and x.args[1] in ('sources', 'destinations'):
                    got.add(x.args[1])
                if x.op == 'obj':
                    h = ev.st.heap.get(x.args[0])
                    if h is not None and h.kind == 'list':
                        for g in h.segs or []:
                            todo += list(g.v.alts)
        want = {'load': 'sources', 'store': 'destinations'}[k]
        if got:
            self.rep.check(got == {want}, 'layout', '%s:%s' % (self.fi.name, k),
                           '%s:%s' % (it.fn.module.path, ev.node.lineno),
                           '%ss are taken from %s instead of %s' % (
                               k, ' and '.join(sorted(got)), want), sample='%s from %s' % (k, want))


    def based(self, it, ev, k, v):
        """Each address contains the base of its array, and bases accumulate."""
        seen, todo, found = set(), list(v.alts), []
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == 'obj':
                h = ev.st.heap.get(t.args[0])
                for g in getattr(h, 'segs', None) or []:
                    todo += list(g.v.alts)
            elif t.op == 'lambda':
                found.append(t.args[0])
            else:
                work = list(t.args)
                while work:
                    a = work.pop()
                    if isinstance(a, T):
                        todo.append(a)
                    elif isinstance(a, (tuple, frozenset)):
                        work += list(a)
        for x in found:
            # every lambdified address and what is added to it
            bases = [y for y in self.summands(x) if not any(
                short(z) == 'access_to_sympy' for z in walk_terms(y))
                and literal(y) is None]
            if not any(short(z) == 'access_to_sympy' for z in walk_terms(x)):
                continue
            self.rep.check(bool(bases), 'own-array', '%s:base of %ss' % (self.fi.name, k),
                           '%s:%s' % (it.fn.module.path, ev.node.lineno),
                           'addresses do not contain the base of their array', sample='has base')
            closure, work = set(), list(bases)
            grows = False
            while work:
                t = work.pop()
                for y in walk_terms(t):
                    if y.op == 'loopvar' and y not in closure:
                        closure.add(y)
                        nxt = it.loopvars.get(y, ())
                        grows = grows or any(z is y or z == y for w in nxt if w.op == 'bin'
                                             for z in walk_terms(w))
                        work += list(nxt)
            if closure:
                self.rep.check(grows, 'own-array', '%s:bases of %ss' % (self.fi.name, k),
                               '%s:%s' % (it.fn.module.path, ev.node.lineno),
                               'the base of an array does not lie behind all arrays before it',
                               sample='bases accumulate')

    @staticmethod
    def summands(xs):
        out, todo, seen = [], list(alts(xs)), set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == 'bin' and t.args[0] in ('+', '-'):
                todo += alts(t.args[1]) + alts(t.args[2])
            elif t.op == 'call' and short(t) == 'subs_consts' and len(t.args[1]) > 1:
                todo += alts(t.args[1][1])
            elif t.op == 'mcall' and short(t) == 'subs_consts':
                todo += alts(t.args[2][0])
            elif t.op == 'mcall' and t.args[1] in MPASS or t.op == 'lambda':
                todo += alts(t.args[0])
            elif t.op == 'call' and short(t) in ('sum', 'Add'):
                for y in t.args[1]:
                    todo += alts(y)
            elif t.op == 'bin' and t.args[0] == '*' and any(
                    x.op == 'bin' and x.args[0] in '+-' for x in alts(t.args[1]) + alts(t.args[2])):
                for y in (t.args[1], t.args[2]):
                    for x in alts(y):
                        if x.op == 'bin' and x.args[0] in '+-':
                            todo.append(x)
            else:
                out.append(t)
        return out


def warms(fi):
    """Runs the cache simulator: the length of the warm-up is a choice, not a quantity."""
    return any(isinstance(x, ast.Attribute) and x.attr in ('loadstore', 'count_invalid_entries')
               for x in ast.walk(fi.node))


def strides(rep, fi, it, sts, c):
    """Products of trailing sizes start behind the dimension of the subscript."""
    terms = set()
    for alt in it.loopvars.values():
        terms |= set(walk_terms(alt))
    for st, v in sts:
        terms |= set(walk_terms(v.alts))
        for h in st.heap.values():
            for g in getattr(h, 'segs', None) or []:
                terms |= set(walk_terms(g.v.alts))
    for t in terms:
        if t.op != 'slice' or not any(sizes(x) is not None for x in alts(t.args[0])):
            continue
        lo = alts(t.args[1])
        up = alts(t.args[2])
        ok = len(lo) == 1 and all(x.op == 'const' and x.args[1] is None for x in up)
        if ok:
            ok = offset_of(lo[0]) == 1 and not ('access' in c.turned and 'sizes' not in c.turned)
        if len(lo) == 1 and offset_of(lo[0]) is None and not up:
            rep.count('strides_undecided')
            continue
        rep.check(ok, 'stride', '%s' % fi.qual.split('.', 1)[1],
                  '%s:%s' % (fi.module.path, fi.node.lineno),
                  'the stride of a dimension is the product of sizes from %s on instead of those '
                  'behind the dimension' % (lo[0] if lo else '?'), sample=fi.name)


def finish(rep, f, it, c, res):
    where = '%s:%s' % (f.module.path, f.node.lineno)
    if f.name in ('global_iterator', 'iteration_length', 'bytes_per_iteration'):
        for s, v in res:
            c.affine(it, s, f.node, v, 0, 'result')
            if f.name == 'global_iterator':
                for t in v.alts:
                    c.weights(it, f.node, V(frozenset([t]) | frozenset(it.loopvars.get(t, ()))))
            if f.name == 'bytes_per_iteration':
                got = {loop_position(x) for t in v.alts for x in walk_terms(t)} - {None}
                rep.check(got <= {3}, 'role', f.name, where,
                          'the bytes per iteration depend on a bound of the loop, not its step',
                          sample=f.name)
            if f.name == 'bytes_per_iteration':
                got = {x.args[1] for t in v.alts for x in walk_terms(t)
                       if x.op == 'attr' and x.args[1] in ('sources', 'destinations')}
                if got:
                    rep.check(got == {'destinations'}, 'layout', f.name, where,
                              'the bytes written are those of an array that is read',
                              sample=f.name)
            if f.name == 'iteration_length':
                seen, todo = set(), list(v.alts)
                while todo:
                    for x in walk_terms(todo.pop()):
                        if x in seen:
                            continue
                        seen.add(x)
                        todo += list(it.loopvars.get(x, ())) if x.op == 'loopvar' else []
                summed = any(x.op == 'bin' and x.args[0] in '+-' and any(
                    short(y) in ('int_ceil', 'ceildiv') for z in x.args[1:] for y in alts(z))
                    and not any(literal(y) is not None and y not in it.loopvars
                                for y in alts(x.args[2])) for x in seen)
                rep.check(not summed, 'order', f.name, where,
                          'lengths of nested loops are added instead of multiplied',
                          sample=f.name)
    if c.weighted:
        rep.check('one' in c.weighted, 'order', '%s:innermost' % f.name, where,
                  'iterations of the innermost loop are weighted with its own length',
                  sample=f.name)
        rep.check('loops' in c.turned, 'order', '%s:from the innermost' % f.name, where,
                  'lengths are multiplied from the outermost loop on, but inner loops run faster',
                  sample=f.name)
    if f.name in FIGURES:
        for s, v in res:
            xs = []
            for t in v.alts:
                h = s.heap.get(t.args[0]) if t.op == 'obj' else None
                xs += [x for g in getattr(h, 'segs', None) or [] for x in g.v.alts]
                xs.append(t)
            c.sink(it, s, f.node, v, PURE, 'result')
            c.counters(it, f.node, V(frozenset(xs)), FIGURES[f.name], 'result')
            got = set()
            for x in walk_terms(frozenset(xs)):
                if x.op == 'item' and chain_keys(x)[0][0] in ('hits', 'misses', 'evicts'):
                    got.add(chain_keys(x)[0][0])
            if got:
                rep.check(got == OPTIONS[f.name], 'layout', f.qual.split('.', 1)[1], where,
                          'the figures are taken from %s' % ', '.join(sorted(got)), sample=f.name)


def side(prog, rep):
    """Accesses are those read, those written, or both, as asked for."""
    K = prog.cls('KernelCode')
    f = prog.find_method(K, 'compile_sympy_accesses')
    if f is None or not {'sources', 'destinations'} <= set(f.params):
        rep.count('sides_undecided')
        return
    for want in ('sources', 'destinations'):
        st, kv, mv = kernel_machine(prog)
        c = GeoClient(prog, rep, f)
        it = Interp(prog, c)
        c.it = it
        got = set()
        hook = c.call

        def call(it_, st_, node, name, fn, args, kwargs):
            if name.split('.')[-1] == 'access_to_sympy':
                for a in args:
                    got.update(x.args[1] for t in a.alts for x in walk_terms(t)
                               if x.op == 'attr' and x.args[1] in ('sources', 'destinations'))
            return hook(it_, st_, node, name, fn, args, kwargs)
        c.call = call
        run_entry(it, st, f, [kv] + [V(mk('const', 'bool', p == want)) if p in (
            'sources', 'destinations') else param(p) for p in f.params[1:]])
        if got:
            rep.check(got == {want}, 'layout', 'compile_sympy_accesses:%s' % want,
                      '%s:%s' % (f.module.path, f.node.lineno),
                      'asked for %s, accesses of %s are given' % (want, ' and '.join(sorted(got))),
                      sample=want)
        else:
            rep.count('sides_undecided')


class FlatClient(Client):
    """Generated code: multi-dimensional arrays become one-dimensional ones."""
    def __init__(self, rep, fi):
        self.rep = rep
        self.fi = fi

    def inline(self, fi, st, args):
        return fi.parent is not None or fi.module is self.fi.module and fi.cls is None

    @staticmethod
    def is_size(t):
        if t.op == 'elem':
            return any(x.op == 'slice' and FlatClient.dims(x.args[0]) or x.op != 'slice' and
                       FlatClient.dims(frozenset([x])) for x in alts(t.args[0]))
        if t.op == 'item':
            return FlatClient.dims(t.args[0])
        if t.op == 'attr' and t.args[1] == 'dim':
            return True
        if t.op == 'call' and short(t) == 'UnaryOp':
            return any(x.op == 'const' and x.args[1] == 'sizeof' for x in alts(t.args[1][0]))
        return t.op == 'slice' and FlatClient.dims(t.args[0])

    @staticmethod
    def dims(xs):
        return any(x.op == 'item' and any(y.op == 'param' for y in alts(x.args[0]))
                   for x in alts(xs))

    def call(self, it, st, node, name, fn, args, kwargs):
        if name.split('.')[-1] == 'BinaryOp' and len(args) > 2:
            op = args[0].const(None)
            size = [any(self.is_size(t) for t in a.alts) for a in args[1:3]]
            if op is not None and any(size):
                self.rep.check(op == '*', 'generated', '%s:%s' % (self.fi.name, 'size'),
                               '%s:%s' % (self.fi.module.path, node.lineno),
                               'sizes are combined by %s in the generated code' % op,
                               sample=self.fi.name)
            elif op is not None:
                sub = [all(t.op == 'attr' and t.args[1] == 'subscript' for t in a.alts)
                       for a in args[1:3]]
                if all(sub):
                    self.rep.check(op == '+', 'generated', '%s:%s' % (self.fi.name, 'subscript'),
                                   '%s:%s' % (self.fi.module.path, node.lineno),
                                   'subscripts are combined by %s in the generated code' % op)
        return None

    def on_event(self, ev):
        if ev.kind == 'slice' and (self.dims(ev.data['base'].alts) or any(
                x.op == 'obj' for x in ev.data['base'].alts)):
            lo, hi, step = [linear(ev.data[k]) for k in ('lo', 'hi', 'step')]
            where = '%s:%s' % (self.fi.module.path, ev.node.lineno)
            if self.dims(ev.data['base'].alts):
                if None in (lo, hi, step):
                    self.rep.count('generated_undecided')
                    return False
                # (constant, coefficient of the position counted from the last subscript)
                ok = (lo, hi, step) in (((-1, 0), (-1, -1), (-1, 0)),
                                        ((0, -1), 'end', 'end'), ((0, -1), 'end', (1, 0)))
                self.rep.check(ok, 'generated', '%s:stride' % self.fi.name, where,
                               'in the generated code a subscript is not multiplied by the sizes '
                               'of all dimensions behind it', sample=self.fi.name)
            elif 'decl' in self.fi.name:
                self.rep.check(lo in ('end', (0, 0)) and hi == 'end', 'generated',
                               '%s:all sizes' % self.fi.name, where,
                               'not all dimensions enter the size of the generated array',
                               sample=self.fi.name)
        return False


def linear(v):
    """(k, c) where v is k + c * position, 'end' where it is left out."""
    if v is None or v.const('x') is None:
        return 'end'
    if len(v.alts) != 1:
        return None

    def go(t):
        n = literal(t)
        if isinstance(n, int):
            return (n, 0)
        if t.op == 'idx':
            s = [literal(x) for x in alts(t.args[1])] if len(t.args) > 1 else [0]
            return (s[0], 1) if len(s) == 1 and isinstance(s[0], int) else None
        if t.op == 'un' and t.args[0] == 'USub':
            xs = alts(t.args[1])
            r = go(xs[0]) if len(xs) == 1 else None
            return None if r is None else (-r[0], -r[1])
        if t.op == 'bin' and t.args[0] in ('+', '-'):
            xs, ys = alts(t.args[1]), alts(t.args[2])
            if len(xs) == 1 and len(ys) == 1:
                a, b = go(xs[0]), go(ys[0])
                if a is not None and b is not None:
                    s = 1 if t.args[0] == '+' else -1
                    return (a[0] + s*b[0], a[1] + s*b[1])
        return None
    return go(next(iter(v.alts)))


def generated(prog, rep):
    for name in ('transform_multidim_to_1d_decl', 'transform_multidim_to_1d_ref',
                 'transform_array_decl_to_malloc'):
        f = None
        for m in prog.modules.values():
            f = f or m.functions.get(name)
        if f is None:
            rep.count('generated_undecided')
            continue
        it = Interp(prog, FlatClient(rep, f))
        st, kv, mv = kernel_machine(prog)
        run_entry(it, st, f, [param(p) for p in f.params])
        rep.seen(it)


def offset_of(t):
    """k where t is (position in the list of subscripts) + k."""
    if t.op == 'idx':
        n = [literal(x) for x in alts(t.args[1])] if len(t.args) > 1 else [0]
        return n[0] if len(n) == 1 and isinstance(n[0], int) else None
    if t.op == 'elem' and any(x.op == 'call' and x.args[0] == 'range' for x in alts(t.args[0])):
        rs = alts(t.args[0])
        a = rs[0].args[1]
        if len(a) == 1:
            return 0
        return literal(alts(a[0])[0]) if alts(a[0]) else None
    if t.op == 'bin' and t.args[0] in ('+', '-'):
        for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            xs, ys = alts(x), alts(y)
            if len(xs) == 1 and len(ys) == 1 and isinstance(literal(ys[0]), int):
                k = offset_of(xs[0])
                if k is not None:
                    return k + literal(ys[0]) if t.args[0] == '+' else k - literal(ys[0])
    return None


def run(prog, rep, tier):
    rep.rule('dimension', 'what is handed out has the dimension its users assume')
    rep.rule('same-dimension', 'values that are added or compared have the same dimension')
    rep.rule('stride', 'the stride of a dimension is the product of all sizes behind it')
    rep.rule('own-array', 'an address is made of the data of one array')
    rep.rule('layout', 'loads stem from what the kernel reads, stores from what it writes')
    rep.rule('position', 'counters are positions, lengths and steps are distances of positions')
    rep.rule('role', 'start, stop and step of a loop keep their roles')
    rep.rule('order', 'inner loops run faster: their lengths weight the loops around them')
    rep.rule('generated', 'generated code addresses and allocates arrays in row-major order')
    side(prog, rep)
    generated(prog, rep)
    K = prog.cls('KernelCode')
    for name in sorted(CONTRACT) + ['get_loop_stack']:
        f = prog.find_method(K, name)
        if f is None:
            continue
        for flag in ((True, False) if name == 'array_sizes' else (None,)):
            st, kv, mv = kernel_machine(prog)
            # a product of numbers of elements is a number of elements
            drive(prog, rep, f, st, kv, CONTRACT.get(name) if flag is None else
                  (vec(B=1, El=-1) if flag else PURE),
                  {'in_bytes': flag} if flag is not None else {})
    base = prog.cls('CachePredictor')
    for ci in sorted(prog.subclasses(base), key=lambda c: c.name):
        if ci is base:
            continue
        for f in sorted(ci.methods.values(), key=lambda f: f.name):
            if f.name == '__init__':
                continue
            st, kv, mv = kernel_machine(prog)
            st, sv = root_inst(st, ci, 'predictor')
            oid = next(iter(sv.alts)).args[0]
            st = set_slot(set_slot(st, oid, 'kernel', kv), oid, 'machine', mv)
            drive(prog, rep, f, st, sv, CONTRACT.get(f.name), {})


def drive(prog, rep, f, st, sv, want, fixed):
    c = GeoClient(prog, rep, f)
    it = Interp(prog, c)
    c.it = it
    args = [sv]
    for p in f.params[1:]:
        args.append(V(mk('const', 'bool', fixed[p])) if p in fixed else param(p))
    res, _ = run_entry(it, st, f, args)
    rep.seen(it)
    strides(rep, f, it, res, c)
    finish(rep, f, it, c, res)
    if want is None:
        return
    for s, v in res:
        c.sink(it, s, f.node, v, want, 'result')
