"""P12: every figure a performance model reports is in the unit it is labelled with."""
import ast
import re

from ksa.files import all_functions
from ksa.interp import Client, Interp
from ksa.models import model_classes, model_state
from ksa.roots import param, run_entry
from ksa.terms import T, V, joinall, mk, walk_terms

EXPLANATION = (
    'Dimension analysis of the performance models: the values of the machine description, the '
    'cache predictors, the in-core analysis and the counters enter with their physical dimension '
    '(cycles, seconds, bytes, cachelines, iterations, elements, floating-point operations and a '
    'decimal scale); the models are interpreted abstractly and the dimension of every value that '
    'is labelled - by a unit given to a prefixed number, by a result key, by the text that '
    'follows it in a report - is computed through all arithmetic on all paths and compared with '
    'the label. Sums, maxima and comparisons must combine values of one dimension.')
ASSUMPTIONS = [
    'inputs have the dimension their name and the documentation of the machine file give them',
    'an element and an iteration are different units: they agree only for loops of step one',
]
MIN = {'labelled': 60, 'same-dimension': 15, 'known-unit': 20}

OWN = {'kernel', 'machinemodel', 'cacheprediction', 'incore_model', 'prefixedunit', 'intervals',
       'iaca_get', 'iaca_marker', 'likwid_bench_auto', 'kerncraft', 'pycachesim'}
UNK = 'unknown'
ANY = 'any'
PURE = frozenset()


def vec(**kw):
    return frozenset((k, v) for k, v in kw.items() if v)


def mul(a, b, s=1):
    if a == UNK or b == UNK:
        return UNK
    if a == ANY or b == ANY:
        return ANY
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + s * v
    return frozenset((k, v) for k, v in d.items() if v)


def same(a, b):
    return ANY in (a, b) or UNK in (a, b) or a == b


UNITS = {'cy': ('cy', 0), 'cycles': ('cy', 0), 'Hz': ('cy/s', 0), 's': ('s', 0), 'It': ('It', 0),
         'LUP': ('It', 0), 'FLOP': ('FLOP', 0), 'B': ('B', 0), 'Byte': ('B', 0),
         'Bytes': ('B', 0), 'CL': ('CL', 0), 'LOAD': ('CL', 0), 'UOP': ('uop', 0)}
SCALE = {'': 0, 'k': 3, 'M': 6, 'G': 9, 'T': 12, 'P': 15}
WORDS = {'flop': 'FLOP', 'iteration': 'It', 'cycle': 'cy', 'byte': 'B', 'cacheline': 'CL',
         'second': 's', 'element': 'El', 'block': 'blk', 'repetition': 'rep'}


def atom(s):
    for pre in ('', 'k', 'M', 'G', 'T', 'P'):
        if s.startswith(pre) and s[len(pre):] in UNITS:
            if pre and s in UNITS:
                continue
            u = UNITS[s[len(pre):]][0]
            v = vec(**{u: 1}) if u != 'cy/s' else vec(cy=1, s=-1)
            return mul(v, vec(e10=-SCALE[pre]))
    return None


def unit(s):
    """Dimension of a label such as MFLOP/s, or None."""
    r = None
    for i, p in enumerate(s.strip().split('/')):
        a = atom(p)
        if a is None:
            return None
        r = a if i == 0 else mul(r, a, -1)
    return r


def words(k):
    m = re.match(r'(?:.*\s)?([A-Za-z]+)s?[ _]per[ _](?:asm )?([A-Za-z]+)$', k)
    if not m:
        return None
    a, b = (WORDS.get(x.lower().rstrip('s'), '?') for x in m.groups())
    if '?' in (a, b) or a is None:
        return None
    return mul(vec(**{a: 1}), vec(**{b: 1}) if b else PURE, -1)


def per_rep(text, d):
    """Dimension d of a figure announced by text, which may say that it is one per repetition."""
    if d is not None and re.search(r'\(per repetition\)', text):
        return mul(d, vec(rep=1), -1)
    return d


# figures of the results whose unit is documented, not part of their name
CY_CL = vec(cy=1, CL=-1)
NAMED = {'cl throughput': CY_CL, 'uops': vec(uop=1, CL=-1), 'port cycles': CY_CL,
         'arithmetic intensity': vec(It=1, B=-1), 'bandwidth': vec(B=1, s=-1),
         'memory bandwidth': vec(B=1, s=-1), 'penalty': CY_CL, 'T_OL': CY_CL, 'T_L1L2': CY_CL, 'T_L2L3': CY_CL,
         'T_MEM': CY_CL, 'bytes transfered': vec(B=1)}


def key_dim(k):
    """Dimension a result key announces."""
    if not isinstance(k, str):
        return None
    m = re.search(r'\[([A-Za-z/]+)\]$', k)
    if m:
        return per_rep(k, unit(m.group(1)))
    if '/' in k:
        return unit(k)
    return words(k)


def alts(x):
    if isinstance(x, T):
        return [x]
    if isinstance(x, (frozenset, tuple, list)):
        return sorted(x)
    return []


def chain_keys(t):
    """(constant keys of nested subscripts, base term), innermost last."""
    keys = []
    while t.op == 'item':
        ks = alts(t.args[1])
        keys.append(ks[0].args[1] if len(ks) == 1 and ks[0].op == 'const' else None)
        bs = alts(t.args[0])
        if len(bs) != 1:
            break
        t = bs[0]
    return keys, t


PREDICTED = {'get_loads', 'get_stores', 'get_misses', 'get_hits', 'get_evicts'}
THROUGH = {'float', 'int', 'abs', 'round', 'copy.deepcopy', 'copy.copy', 'deepcopy', 'copy',
           'math.ceil', 'math.floor', 'ceil', 'floor', 'sympy.Integer', 'sympy.Float',
           'sympy.Rational', 'sympy.N', 'sympy.simplify', 'numpy.float64', 'numpy.mean',
           'fractions.Fraction', 'statistics.mean', 'operator.pos', 'operator.neg', 'math.fabs',
           'sympy.sympify'}


def short(t):
    if t.op == 'call' and isinstance(t.args[0], str):
        return t.args[0].split('.')[-1]
    if t.op == 'mcall' and isinstance(t.args[1], str):
        return t.args[1]
    return None


class Dims:
    def __init__(self, it):
        self.it = it
        self.memo = {}
        self.open = set()
        self.clash = {}          # (op, a, b) of inconsistent sums/comparisons

    def of(self, xs):
        """Set of dimensions of the alternatives; constants of any dimension do not count."""
        ts = alts(xs)
        # a literal that shares a variable with computed values is an initial value or a
        # default of whatever unit the variable has
        r = set()
        for t in [t for t in ts if t.op != 'const'] or ts:
            r |= self.term(t)
        r.discard(ANY)
        return r

    def term(self, t):
        if t in self.memo:
            return self.memo[t]
        if t in self.open:
            return set()
        self.open.add(t)
        r = self.raw(t)
        self.open.discard(t)
        if not self.open:
            self.memo[t] = r
        return r

    def source(self, t):
        if t.op == 'item':
            keys, base = chain_keys(t)
            k = keys[0]
            fn = short(base)
            if fn == 'incore_analysis':
                if keys[-1] == 1 and len(keys) == 1:
                    return vec(B=1, blk=-1)
                if 'throughput' in keys or 'port cycles' in keys:
                    return vec(cy=1, blk=-1)
                if 'uops' in keys:
                    return vec(uop=1, blk=-1)
                return UNK
            if fn == 'get_bandwidth' and len(keys) == 1 and k == 0:
                return vec(B=1, s=-1)
            if fn in PREDICTED and len(keys) == 1:
                return PURE         # cachelines per cacheline of work
            if 'FLOPs per cycle' in keys:
                return vec(FLOP=1, cy=-1)
            if 'upstream throughput' in keys:
                return vec(B=1, cy=-1) if k == 0 and keys[1] == 'upstream throughput' else UNK
            if k == 'clock':
                return vec(cy=1, s=-1)
            if k == 'cacheline size':
                return vec(B=1, CL=-1)
            if k in ('penalty cycles per cacheline load', 'penalty cycles per cacheline store'):
                return vec(cy=1, CL=-1)
            if fn == 'parse_perfmetric' and k == 0 and len(keys) == 1:
                text = {x.args[1] for x in walk_terms(base) if x.op == 'const'}
                if 'overlapping model' in text:
                    return vec(cy=1)
                if 'performance counter metrics' in text:
                    return vec(CL=1)        # those of L1 count loads, 'T_nOL' converts them
                return UNK
            if isinstance(k, str) and (k.startswith('cores per') or k in ('sockets',
                                                                        'threads per core')):
                return PURE
            if base.op == 'attr' and base.args[1] == 'datatypes_size':
                return vec(B=1, El=-1)
            if base.op == 'attr' and base.args[1] == '_flops':
                return vec(FLOP=1, It=-1)
            if base.op == 'elem' and len(keys) == 1 and any(
                    x.op == 'attr' and x.args[1] == '_loop_stack' for x in alts(base.args[0])):
                return {1: vec(ix=1), 2: vec(ix=1), 3: vec(ix=1, It=-1)}.get(k, UNK)
            if isinstance(k, str):
                d = key_dim(k)
                if d is not None:
                    return d
        fn = short(t)
        if fn in ('bytes_per_iteration', 'region__bytes_per_iteration'):
            return vec(B=1, It=-1)
        if fn in ('region__iterations_per_repetition', 'iterations_per_repetition'):
            return vec(It=1, rep=-1)
        if t.op == 'attr' and t.args[1] == 'bytes_per_iteration':
            return vec(B=1, It=-1)
        if t.op == 'attr' and t.args[1] == 'iterations':
            return vec(rep=1)
        if t.op == 'attr' and t.args[1] in ('cores', 'verbose'):
            return PURE
        if t.op == 'param' and t.args[0] == 'repetitions':
            return vec(rep=1)
        if t.op == 'param' and t.args[0] == 'cores':
            return PURE
        if t.op == 'item':
            if keys[0] == 'value' and base.op == 'attr' and base.args[1] == 'define' or \
                    base.op == 'attr' and base.args[1] == 'repetitions' or \
                    keys[0] == 'call count':
                return vec(rep=1)
        return None

    def combine(self, op, sides, literal=True):
        """Union of the dimensions of the sides, which have to agree."""
        r = set()
        groups = []
        for s in sides:
            ts = [t for t in alts(s) if not (literal and t.op == 'const')]
            d = self.of(ts)
            if d:
                groups.append(d)
            r |= d
        for i, a in enumerate(groups):
            for b in groups[i + 1:]:
                for x in a:
                    for y in b:
                        if not same(x, y):
                            self.clash[(op, show(x), show(y))] = True
        return r or ({ANY} if any(alts(s) for s in sides) else set())

    @staticmethod
    def factor(t):
        v = t.args[1] if t.op == 'const' else None
        return isinstance(v, float) and v == v and not v.is_integer() and not any(
            v == 10.0 ** -k for k in (3, 6, 9, 12, 15, 18))

    def literal(self, t):
        if t.op == 'bin':
            return all(self.literal(z) for x in t.args[1:] for z in alts(x))
        return t.op == 'const' and isinstance(t.args[1], (int, float))

    def raw(self, t):
        s = self.source(t)
        if s is not None:
            return {s}
        op, a = t.op, t.args
        if op == 'const':
            v = a[1]
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                return {ANY} if v is None or isinstance(v, bool) else {UNK}
            if v == 0 or v != v or v in (float('inf'), float('-inf')):
                return {ANY}
            for k in (3, 6, 9, 12, 15, 18):
                if v == 10 ** k:
                    return {vec(e10=k)}
                if v == 10.0 ** -k:
                    return {vec(e10=-k)}
            return {PURE}
        if op == 'loopvar':
            return self.of(frozenset(self.it.loopvars.get(t, ()))) or {ANY}
        if op in ('idx',):
            return {PURE}
        if op == 'elem':
            if any(x.op == 'call' and x.args[0] in ('range', 'enumerate') for x in alts(a[0])):
                return {PURE}
            if any(x.op == 'attr' and x.args[1] == '_flops' for x in alts(a[0])):
                return {UNK}
            return {UNK}
        if op == 'un' and a[0] in ('USub', 'UAdd'):
            return self.of(a[1])
        if op == 'bin':
            o, x, y = a
            if o in ('+', '-'):
                return self.combine(o, [x, y])
            if o == '*' and any(self.factor(z) for z in alts(x) + alts(y)):
                return {ANY}            # a literal factor may bring in a unit of its own
            if o in ('/', '//') and all(self.literal(z) for z in alts(x) + alts(y)):
                return {ANY}            # an initial value, in whatever unit
            if o in ('*', '/', '//'):
                dx, dy = self.of(x), self.of(y)
                if o != '*' and dx == {PURE} and dy - {PURE, UNK} and \
                        all(t.op == 'const' and t.args[1] != 1 for t in alts(x)):
                    return {ANY}        # a literal limit or target in the unit of the divisor
                if not dx and alts(x) or not dy and alts(y):
                    # zero or infinity times anything, or a literal zero
                    lx = dx or {ANY}
                    ly = dy or {ANY}
                    if o == '*':
                        return {mul(p, q) for p in lx for q in ly}
                    return {mul(p, q, -1) for p in lx for q in ly}
                return {mul(p, q, 1 if o == '*' else -1) for p in dx for q in dy}
            if o == '%':
                return self.of(x)
            if o == '**':
                es = alts(y)
                if len(es) == 1 and es[0].op == 'const' and isinstance(es[0].args[1], int):
                    out = set()
                    for p in self.of(x):
                        r = PURE
                        for _ in range(abs(es[0].args[1])):
                            r = mul(r, p, 1 if es[0].args[1] > 0 else -1)
                        out.add(r)
                    return out
            return {UNK}
        if op in ('max', 'min'):
            return self.combine(op, [self.seg(x) for x in a[0]])
        if op == 'sum':
            return self.combine(op, [self.seg(x) for x in a[0]])
        if op == 'reduce':
            segs = a[1]
            if 'mul' in str(a[0]) and len(segs) == 1:
                d = self.of(self.seg(segs[0]))
                over = any(x.op == 'attr' and x.args[1] == '_loop_stack'
                           for x in walk_terms(segs[0]))
                if over and d:
                    return {mul(x, vec(rep=1), -1) for x in d}
            return {UNK}
        if op == 'neg' or op == 'fmtspec' or op in ('abs', 'float', 'int', 'round'):
            return self.of(a[0]) or {ANY}
        if op == 'offsets':
            d = self.of(a[0])
            return {mul(p, vec(El=1, It=-1)) for p in d} or {UNK}
        if op == 'pu':
            d = self.of(a[0])
            if d and UNK not in d:
                return d
            return {a[1]} if a[1] is not None else {UNK}
        if op == 'fmt':
            ph = [p for p in a[0] if not isinstance(p, str)]
            text = ''.join(p for p in a[0] if isinstance(p, str))
            if len(ph) == 1 and not re.search(r'\w', text):
                return self.of(ph[0])
            return {UNK}
        if op == 'join':
            r = set()
            for x in walk_terms(a):
                if x.op == 'fmtspec':
                    r |= self.of(x.args[0])
            return r or {UNK}
        fn = short(t)
        if op == 'attr' and a[1] == 'value':
            # the number in front of the prefix
            return {mul(d, vec(prefix=1)) if d not in (UNK, ANY, PURE) else d
                    for d in self.of(a[0])}
        if op == 'call':
            if fn == 'float' and all(x.op == 'const' and isinstance(x.args[1], str)
                                     for x in alts(a[1][0])):
                return {ANY}        # not a number, infinity
            if t.args[0] in THROUGH or fn in THROUGH:
                c = self.of(a[1][0]) if a[1] else set()
                if not c and a[1] and alts(a[1][0]):
                    return {ANY}
                return c or {UNK}
            if fn in ('subs_consts',):
                return self.of(a[1][-1]) or {ANY}
            if t.args[0] in ('max', 'min', 'sum'):
                return self.combine(t.args[0], [x for x in a[1]])
            if t.args[0] in ('len', 'range', 'hash', 'id'):
                return {PURE}
            if t.args[0] in ('sympy.ceiling', 'sympy.floor'):
                return self.of(a[1][0])
        if op == 'len':
            return {PURE}
        if op == 'mcall' and fn in ('get', 'setdefault') and a[2]:
            k = alts(a[2][0])
            d = key_dim(k[0].args[1]) if len(k) == 1 and k[0].op == 'const' else None
            if d is not None:
                return {d}
        if op == 'mcall' and fn in ('replace', 'strip', 'rstrip', 'removesuffix', 'split',
                                    'partition') and a[2]:
            k = alts(a[2][0])       # the number in front of a unit
            if len(k) == 1 and k[0].op == 'const' and isinstance(k[0].args[1], str):
                d = unit(k[0].args[1])
                if d is not None:
                    return {d}
        if op == 'mcall' and fn in ('subs', 'evalf', 'xreplace'):
            return self.of(a[0]) or {UNK}
        if op == 'mcall' and fn in ('base_value', 'with_prefix', 'reduced', '__float__'):
            return self.of(a[0])
        return {UNK}

    def seg(self, x):
        if isinstance(x, tuple) and len(x) > 1 and isinstance(x[0], str):
            return x[1]
        return x


def show(d):
    if d in (UNK, ANY):
        return d
    up = ['%s%s' % (k, '' if v == 1 else '^%s' % v) for k, v in sorted(d)
          if v > 0 and k != 'e10']
    dn = ['%s%s' % (k, '' if v == -1 else '^%s' % -v) for k, v in sorted(d)
          if v < 0 and k != 'e10']
    e = dict(d).get('e10', 0)
    return (('10^%d ' % -e) if e else '') + ('*'.join(up) or '1') + \
        (('/' + '/'.join(dn)) if dn else '')


FOLLOW = re.compile(r'^[)\s}|]*((?:[A-Za-z]+)(?:/[A-Za-z]+)*)(?![\w(])')
BEFORE = re.compile(r'\(([A-Za-z]+/[A-Za-z]+)\)[^A-Za-z]*$')


class UnitClient(Client):
    keep_ratios = True

    def __init__(self, prog, rep, label, external):
        self.prog = prog
        self.rep = rep
        self.label = label
        self.external = external
        self.dims = None

    def inline(self, fi, st, args):
        if fi.parent is not None:
            return True
        m = fi.module.name.split('.')[-1]
        return m not in OWN and fi not in self.external

    def d(self, it):
        if self.dims is None or self.dims.it is not it:
            self.dims = Dims(it)
        return self.dims

    def place(self, it):
        return '<-'.join(f.qual.split('.', 1)[1] for f in it.fstack[-2:][::-1])

    def sink(self, it, node, v, want, what):
        if want is None or v is None:
            return
        D = self.d(it)
        got = D.of(v.alts if isinstance(v, V) else v)
        if what == 'result bytes transfered':
            got = {vec(B=1) if g == vec(B=1, CL=-1) else g for g in got}    # of one cacheline
        bad = sorted(show(g) for g in got if not same(g, want))
        if got and UNK not in got or bad:
            self.rep.check(not bad, 'labelled', '%s:%s' % (self.place(it), what),
                           '%s:%s' % (it.fn.module.path, getattr(node, 'lineno', '?')),
                           'the value labelled %s has the dimension %s instead of %s' % (
                               what, ' or '.join(bad), show(want)),
                           path=['%s line %s' % (f.qual, getattr(n, 'lineno', '?'))
                                 for f, n in zip(it.fstack, it.cstack)],
                           sample='%s %s' % (what, show(want)))
        else:
            self.rep.count('undetermined_labels')
        self.report_clashes(it, node, what)

    def report_clashes(self, it, node, what):
        D = self.d(it)
        self.rep.ok('same-dimension')
        for (op, x, y) in sorted(D.clash):
            self.rep.bad('same-dimension', '%s:%s %s' % (self.place(it), what, op),
                         '%s:%s' % (it.fn.module.path, getattr(node, 'lineno', '?')),
                         'values of different dimension (%s and %s) are combined by %s' % (x, y,
                                                                                          op))
        D.clash.clear()

    def attr(self, it, st, base, name):
        if name == 'datatypes_size':
            return V(mk('attr', base.one or mk('top'), 'datatypes_size'), base.deps)
        return None

    def call(self, it, st, node, name, fn, args, kwargs):
        sh = name.split('.')[-1]
        if sh == 'PrefixedUnit' and fn is not None:
            return self.prefixed(it, st, node, args)
        if name in ('print', '.write') or sh in ('pprint', 'pformat'):
            for a in args:
                for t in a.alts:
                    self.text(it, node, t)
            return None
        if name == 'len' and args:
            for g in self.segs(it, st, args[0], node):
                for t in walk_terms(g.v.alts):
                    if short(t) == 'compile_global_offsets':
                        n = self.iterations(t)
                        if n is not None:
                            return [(st, V(mk('offsets', n), args[0].deps))]
        return None

    def segs(self, it, st, v, node):
        t = v.one
        if t is None or t.op != 'obj' or st.heap.get(t.args[0]) is None:
            return []
        try:
            return it.iter_segs(st, v, node)
        except Exception:
            return []

    def iterations(self, t):
        args, kw = (t.args[1], t.args[2]) if t.op == 'call' else (t.args[2], t.args[3])
        for x in list(args) + [k[1] for k in kw]:
            for c in alts(x):
                if c.op == 'call' and c.args[0] == 'range':
                    a = c.args[1]
                    if len(a) == 1:
                        return a[0]
                    lo = alts(a[0])
                    if len(a) > 1 and len(lo) == 1 and lo[0].op == 'const' and \
                            lo[0].args[1] == 0:
                        return a[1]
        return None

    def prefixed(self, it, st, node, args):
        deps = joinall(args).deps if args else frozenset()
        lab, pre, x = None, '', args[0] if args else None
        if len(args) == 1:
            c = args[0].const(None)
            if isinstance(c, str):
                m = re.match(r'^([0-9.]+|inf) ([kMGTP])?(.*)$', c)
                self.label_known(it, node, m.group(3) if m else c)
                d = unit((m.group(2) or '') + m.group(3)) if m else None
                if m and m.group(1) == 'inf':
                    return [(st, V(mk('const', 'float', float('inf')), deps))]
                return [(st, V(mk('pu', frozenset([mk('const', 'int', 0)]),
                                  mul(d, vec(e10=SCALE[m.group(2) or '']))
                                  if d is not None else None), deps))]
            return [(st, args[0])]
        lab = args[-1].const(None)
        if len(args) == 3:
            pre = args[1].const(None)
        if isinstance(lab, str):
            d = unit((pre or '') + lab) if isinstance(pre, (str, type(None))) else None
            self.label_known(it, node, lab)
            if d is not None:
                self.sink(it, node, args[0], d, 'unit %s' % ((pre or '') + lab))
                base = frozenset((k, v) for k, v in d if k != 'e10')
                xs = args[0].alts
                if dict(d).get('e10'):
                    xs = frozenset([mk('bin', '*', xs, frozenset([mk(
                        'const', 'float', 10.0 ** -dict(d)['e10'])]))])
                return [(st, V(mk('pu', xs, base), deps))]
        return [(st, V(mk('pu', args[0].alts, None), deps))]

    def label_known(self, it, node, lab):
        self.rep.check(unit(lab) is not None, 'known-unit',
                       '%s:%s' % (self.place(it), lab),
                       '%s:%s' % (it.fn.module.path, getattr(node, 'lineno', '?')),
                       'the unit %r is not one of those the reports define' % lab)

    def values(self, st, v):
        t = v.one
        h = st.heap.get(t.args[0]) if t is not None and t.op == 'obj' else None
        if h is None or h.kind != 'dict':
            return [v]
        return [x for x, _ in h.slots.values()] + ([h.other[1]] if h.other is not None else [])

    def everything(self, it, t):
        """The terms t consists of, those collected in loops included."""
        done, todo = set(), [t]
        while todo:
            for x in walk_terms(todo.pop()):
                if x not in done:
                    done.add(x)
                    if x.op == 'loopvar':
                        todo += it.loopvars.get(x, ())
        return sorted(done)

    def text(self, it, node, t):
        """Units that follow a figure in printed text."""
        for x in self.everything(it, t):
            if x.op != 'fmt':
                continue
            ps = ('',) + tuple(x.args[0])
            for pre, u, mid, p in zip(ps, ps[1:], ps[2:], ps[3:]):
                if isinstance(pre, str) and pre.endswith('(') and isinstance(mid, str) and \
                        re.match(r'\)\W*$', mid) and not isinstance(p, str) and \
                        not isinstance(u, str) and alts(u) and all(
                            z.op == 'attr' and z.args[1] == 'unit' for z in alts(u)):
                    got = self.d(it).of(frozenset(alts(p))) - {UNK}
                    if got:
                        self.rep.check(len(got) > 1, 'labelled', '%s:figures in the unit chosen' %
                                       self.place(it),
                                       '%s:%s' % (it.fn.module.path, node.lineno),
                                       'the figures announced in the unit the user chose are '
                                       'always in %s' % show(min(got, key=show)))
            for pre, p, nx in zip(ps, ps[1:], ps[2:]):
                if isinstance(p, str) or not isinstance(nx, str):
                    continue
                m = FOLLOW.match(nx)
                d = unit(m.group(1)) if m else None
                if isinstance(pre, str):
                    d = per_rep(re.split(r'[,;\n]', pre)[-1], d)
                    m = BEFORE.search(pre)
                    if d is None and m:
                        d = unit(m.group(1))
                if d is not None:
                    self.sink(it, node, V(frozenset(alts(p))), d, 'printed %s' % show(d))

    def on_event(self, ev):
        it = self.it
        if ev.kind == 'setattr' and ev.data['name'] == 'unit':
            lab = ev.data['value'].const(None)
            if isinstance(lab, str) and not any(t.op == 'obj' for t in ev.data['base'].alts):
                self.label_known(it, ev.node, lab)
                base = frozenset(t for t in ev.data['base'].alts)
                if not all(t.op == 'pu' and UNK in self.d(it).of(t.args[0]) for t in base):
                    self.sink(it, ev.node, V(base), unit(lab), 'unit %s' % lab)
        elif ev.kind in ('setitem', 'dictlit'):
            k = ev.data['key'].const(None)
            d = key_dim(k)
            if d is not None:
                self.sink(it, ev.node, ev.data['value'], d, 'result %s' % k)
            elif k in NAMED:
                v = ev.data['value']
                for x in self.values(ev.st, v) if k == 'port cycles' else [v]:
                    self.sink(it, ev.node, x, NAMED[k], 'result %s' % k)
        elif ev.kind == 'cond':
            t = ev.data.get('term')
            if t is not None and t.op in ('lt', 'eq', 'le', 'gt', 'ge') and len(t.args) == 2:
                self.d(it).combine('comparison', [t.args[0], t.args[1]])
                self.report_clashes(it, ev.node, 'comparison')
        return False


def run(prog, rep, tier):
    rep.rule('labelled', 'a labelled value has the dimension and scale of its label on every path')
    rep.rule('same-dimension', 'values that are added, compared or selected among have the same '
                               'dimension')
    rep.rule('known-unit', 'units given to values are among those defined for reports')
    external = {f for f in all_functions(prog) if any(
        isinstance(n, ast.Name) and n.id == 'subprocess' for n in ast.walk(f.node))}
    n = 0
    for ci in model_classes(prog):
        f = prog.find_method(ci, 'analyze')
        g = prog.find_method(ci, 'report')
        if f is None or abstract(f):
            continue
        own = {x for x in external if x.name not in ('analyze', 'report', '__init__', 'run')}
        own = {x for x in own if not (x.cls is not None and x in (f, g))}
        for st, sv in model_state(prog, ci)[0]:
            loops = {}
            for s in drive(prog, rep, ci, f, st, sv, own, loops):
                drive(prog, rep, ci, g, s, sv, own, loops)
        n += 1
    rep.count('models', n)
    rep.require(n >= 6, 'fewer performance models than expected')


def abstract(f):
    return all(isinstance(s, (ast.Raise, ast.Expr, ast.Pass)) for s in f.node.body)


def drive(prog, rep, ci, f, st, sv, external, loops):
    c = UnitClient(prog, rep, ci.name, external)
    it = Interp(prog, c)
    c.it = it
    args = [sv] + [param(p) for p in f.params[1:]]
    it.loopvars.update(loops)
    res, _ = run_entry(it, st, f, args)
    loops.update(it.loopvars)
    rep.seen(it)
    return [s for s, _ in res][:4]
