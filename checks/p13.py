"""P13: figures with a decimal prefix keep their value through parsing, arithmetic and printing."""
import ast
import re
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre

from ksa.interp import Client, Interp, State
from ksa.program import AnalysisBroken
from ksa.roots import param, root_inst, run_entry
from ksa.terms import T, V, mk, walk_terms
from checks import p12

EXPLANATION = (
    'Scale analysis of the class of prefixed numbers: every method is interpreted abstractly with '
    'the decimal scale of each intermediate value as its abstract value (a stored value carries '
    'the inverse scale of the prefix stored beside it; a lookup in the table of prefixes removes '
    'or adds it). The scale of whatever is compared, returned, printed or stored in a new number '
    'must be exactly that of the prefix beside it. The table is compared with the SI powers of '
    'ten, the patterns that parse prefixes with the table, and the parts found in parsed text '
    'with the fields they are stored in.')
ASSUMPTIONS = ['every class that stores value, prefix and unit together is a prefixed number']
MIN = {'scale': 12, 'table': 6, 'pattern': 3, 'parsed': 9, 'outside': 3}

SI = {'': 0, 'k': 3, 'M': 6, 'G': 9, 'T': 12, 'P': 15, 'E': 18, 'Z': 21, 'Y': 24, 'R': 27,
      'Q': 30, 'h': 2, 'd': -1, 'c': -2, 'm': -3, 'u': -6, 'n': -9, 'p': -12, 'f': -15}
UNK = 'unknown'
THROUGH = {'float', 'abs', 'round', 'int', 'math.fabs', 'pos', 'neg'}
NEUTRAL = frozenset()


def alts(x):
    if isinstance(x, T):
        return [x]
    if isinstance(x, (frozenset, tuple)):
        return [t for t in x if isinstance(t, T)]
    return []


def mul(a, b, s=1):
    if UNK in (a, b):
        return UNK
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + s * v
    return frozenset((k, v) for k, v in d.items() if v)


def show(d):
    if d == UNK:
        return d
    return '*'.join('scale(%s)%s' % (k, '' if v == 1 else '^%d' % v) for k, v in sorted(d)) or '1'


class Scales:
    """Powers of prefix scales in a term; owners() are objects with value and prefix."""

    def __init__(self, prog, ci, table):
        self.prog = prog
        self.ci = ci
        self.table = table
        self.clash = []

    def is_table(self, t):
        return t.op == 'static' and t.args[0][-1] == self.table

    def pname(self, t):
        """Name of the prefix a term stands for; a neutral one has scale 1."""
        if t.op == 'const':
            return None if t.args[1] in ('', None) else repr(t.args[1])
        return str(t)

    def of(self, xs):
        r = set()
        ts = alts(xs)
        for t in ts:
            if t.op == 'const' and t.args[1] is None and len(ts) > 1:
                continue        # no arithmetic with it
            r |= self.term(t)
        return r

    def prefix_scale(self, xs):
        out = set()
        for t in alts(xs):
            n = self.pname(t)
            out.add(NEUTRAL if n is None else frozenset([(n, 1)]))
        return out

    def base_call(self, t):
        """Methods of the class that hand out the value without prefix are checked themselves."""
        if t.op == 'call' and isinstance(t.args[0], str):
            f = self.prog.lookup(t.args[0])
            return getattr(f, 'cls', None) is self.ci
        return t.op == 'mcall' and t.args[1] in self.ci.methods

    def term(self, t):
        op, a = t.op, t.args
        if op == 'attr' and a[1] == 'value':
            return {frozenset([(str(mk('attr', a[0], 'prefix')), -1)])}
        if op == 'item' and any(self.is_table(x) for x in alts(a[0])):
            return self.prefix_scale(a[1])
        if op == 'mcall' and a[1] == 'get' and any(self.is_table(x) for x in alts(a[0])):
            return self.prefix_scale(a[2][0])
        if op == 'elem' and any(self.is_table(y) for y in walk_terms(t)):
            return {UNK}
        if self.base_call(t):
            return {NEUTRAL}
        if op == 'call' and a[0] in THROUGH and a[1]:
            return self.of(a[1][0])
        if op == 'bin':
            o, x, y = a
            if any(len(alts(z)) == 1 and alts(z)[0].op == 'const' and alts(z)[0].args[1] is None
                   for z in (x, y)):
                return set()        # raises
            dx, dy = self.of(x) or {NEUTRAL}, self.of(y) or {NEUTRAL}
            if o == '//':
                for p in dx:
                    for q in dy:    # whole numbers depend on the unit they are counted in
                        if UNK not in (p, q) and p != q:
                            self.clash.append((o, show(p), show(q)))
            if o in ('*', '/', '//'):
                return {mul(p, q, 1 if o == '*' else -1) for p in dx for q in dy}
            if o in ('+', '-', '%'):
                for p in dx:
                    for q in dy:
                        if UNK not in (p, q) and p != q:
                            self.clash.append((o, show(p), show(q)))
                return dx
            return {UNK if (dx | dy) != {NEUTRAL} else NEUTRAL}
        if op in ('neg', 'abs'):
            return self.of(a[0])
        if op == 'tup':
            return set().union(*[self.of(x) for x in a[0]]) if a[0] else {NEUTRAL}
        if op in ('param', 'const', 'obj'):
            return {NEUTRAL}
        return {NEUTRAL} if not any(x.op == 'attr' and x.args[1] == 'value' or self.is_table(x)
                                    for x in walk_terms(t)) else {UNK}


class ScaleClient(Client):
    keep_tables = True

    def __init__(self, prog, ci, table, rep):
        self.prog = prog
        self.ci = ci
        self.S = Scales(prog, ci, table)
        self.rep = rep
        self.sites = set()
        self.made = set()

    def inline(self, fi, st, args):
        return fi.cls is not self.ci or fi.name.startswith('_') and not fi.name.startswith('__')

    def partition(self, st):
        return frozenset((t, v) for t, v in st.facts.items() if t.op == 'in' and any(
            self.S.is_table(x) for x in alts(t.args[1])))

    def where(self, it, node):
        return '%s:%s' % (it.fn.module.path, getattr(node, 'lineno', '?'))

    def judge(self, it, node, got, want, what):
        bad = sorted({show(g) for g in got for w in want if UNK not in (g, w) and g != w}) \
            if not (got & want) or len(got) > 1 and len(want) == 1 else []
        known = [g for g in got if g != UNK]
        if known or bad:
            self.rep.check(not bad, 'scale', '%s:%s' % (it.fstack[0].qual.split('.', 1)[1], what),
                           self.where(it, node),
                           'the value %s has the scale %s where the prefix beside it means %s' % (
                               what, ' or '.join(bad), ' or '.join(sorted(map(show, want)))),
                           sample='%s %s' % (it.fstack[0].name, what))
        self.clashes(it, node, what)

    def clashes(self, it, node, what):
        for c in self.S.clash:
            self.rep.bad('scale', '%s:%s %s' % (it.fstack[0].qual.split('.', 1)[1], what, c[0]),
                         self.where(it, node),
                         'values of different scale (%s and %s) are combined by %s' % (
                             c[1], c[2], c[0]))
        self.S.clash = []

    def call(self, it, st, node, name, fn, args, kwargs):
        cls = getattr(fn, 'op', None) == 'cls' or name.split('.')[-1] == self.ci.name
        if not cls or not args or it.fstack[0].name == '__init__':
            return None
        if name.split('.')[-1] != self.ci.name:
            return None
        got = self.S.of(args[0].alts)
        if len(args) == 1:
            self.made |= args[0].alts
        if len(args) == 3:
            want = {mul(NEUTRAL, p, -1) for p in self.S.prefix_scale(args[1].alts)}
        elif len(args) == 2:
            # text of a unit without a prefix of its own
            if any(x.op == 'attr' and x.args[1] == 'prefix' for x in walk_terms(args[1].alts)):
                ps = [x for x in walk_terms(args[1].alts)
                      if x.op == 'attr' and x.args[1] == 'prefix']
                want = {mul(NEUTRAL, p, -1) for p in self.S.prefix_scale(frozenset(ps))}
            else:
                want = {NEUTRAL}
        else:
            return None
        self.judge(it, node, got, want, 'stored in a new number')
        return None

    def on_event(self, ev):
        if ev.kind == 'setattr' and self.it.fstack[0].name != '__init__':
            n = ev.data['name']
            if n in ('value', 'prefix'):
                for t in ev.data['base'].alts:
                    if n == 'value':
                        self.judge(self.it, ev.node, self.S.of(ev.data['value'].alts),
                                   {frozenset([(str(mk('attr', t, 'prefix')), -1)])},
                                   'assigned to a number')
        if ev.kind == 'cond' and ev.data.get('term') is not None:
            self.compare(ev.data['term'], ev.node)
        return False

    def prefixes(self, t, node, f=None):
        """Prefixes say nothing about which number is larger, and none is treated apart."""
        f = f or self.it.fstack[0]
        where = '%s:%s' % (f.module.path, getattr(node, 'lineno', '?'))
        for x in walk_terms(t):
            if x.op not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
                continue
            args = x.args if len(x.args) == 2 else [frozenset([y]) for y in alts(x.args[0])]
            ts = [z for y in args for z in alts(y)]
            ts += [w for z in ts if z.op == 'tup' for y in z.args[0] for w in alts(y)]
            raw = [z for z in ts if z.op == 'attr' and z.args[1] == 'prefix'
                   or z.op in ('item', 'mcall') and list(groups_of(z))[:1] == ['prefix']]
            lits = [z for z in ts if z.op == 'const' and isinstance(z.args[1], str)
                    and z.args[1]]
            bad = raw and (lits or f.name in COMPARISONS)
            self.rep.check(not bad, 'scale', '%s:prefix compared' % f.qual.split('.', 1)[1],
                           where,
                           'what is returned or stored depends on whether the prefix is %s' % (
                               ' or '.join(repr(z.args[1]) for z in lits) or 'the same'))

    def compare(self, t, node):
        self.prefixes(t, node)
        for x in walk_terms(t):
            if x.op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(x.args) == 2:
                got = self.S.of(x.args[0]) | self.S.of(x.args[1])
            elif x.op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(x.args) == 1 and \
                    isinstance(x.args[0], frozenset):
                got = self.S.of(x.args[0])
            else:
                continue
            # ratios to a candidate scale are fine; a stored value without its prefix is not
            raw = {g for g in got if g != UNK and any(k.endswith('.prefix') and v for k, v in g)}
            if raw:
                self.judge(self.it, node, raw, {NEUTRAL}, 'compared')
            else:
                self.rep.ok('scale')
                self.clashes(self.it, node, 'compared')


COMPARISONS = {'__lt__', '__gt__', '__le__', '__ge__', '__eq__', '__ne__', '__hash__',
               '__bool__'}


def number_classes(prog):
    for ci in (c for m in prog.modules.values() for c in m.classes.values()):
        if '__init__' not in ci.methods:
            continue
        stored = {t.attr for f in ci.methods.values() for t in ast.walk(f.node)
                  if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store)
                  and isinstance(t.value, ast.Name) and f.params and t.value.id == f.params[0]}
        if {'value', 'prefix', 'unit'} <= stored:
            yield ci


def run(prog, rep, tier):
    rep.rule('table', 'every prefix of the table stands for its SI power of ten')
    rep.rule('pattern', 'every prefix a pattern accepts is in the table')
    rep.rule('scale', 'a value beside a prefix is scaled by exactly that prefix')
    rep.rule('outside', 'numbers found, computed or handed on beside a prefixed unit are of the '
                        'scale it means')
    rep.rule('parsed', 'parsed value, prefix and unit end up in the field of their name')
    cs = list(number_classes(prog))
    rep.require(len(cs) == 1, 'expected one class of prefixed numbers, found %d' % len(cs))
    ci = cs[0]
    tables = {k: v for k, v in ci.attrs.items() if isinstance(v, ast.Dict) and any(
        isinstance(x, ast.Constant) and x.value in ('k', 'M', 'G') for x in v.keys)}
    rep.require(len(tables) == 1, 'no literal table of prefixes')
    (name, node), = tables.items()
    known = check_table(rep, ci, name, node)
    check_patterns(rep, prog, ci, known)
    for f in sorted(ci.methods.values(), key=lambda f: f.name):
        if f.name.startswith('_') and not f.name.startswith('__'):
            continue            # part of its callers
        if f.name == '__init__':
            init(prog, rep, ci, f, name)
        else:
            method(prog, rep, ci, f, name)
    outside(prog, rep, ci)


# quantities of the machine description and of what system tools report
SOURCES = {'size per group': p12.vec(B=1), 'total size': p12.vec(B=1), 'bytes': p12.vec(B=1),
           'size per core': p12.vec(B=1), 'size per thread': p12.vec(B=1)}


class SourceDims(p12.Dims):
    @staticmethod
    def factor(t):
        return False

    def source(self, t):
        if t.op == 'item':
            keys, base = p12.chain_keys(t)
            for k in keys[:2]:      # the entry itself or one out of a list
                if isinstance(k, str) and k in SOURCES:
                    return SOURCES[k]
        if t.op == 'elem':
            ds = {SOURCES.get(p12.chain_keys(x)[0][0]) for x in alts(t.args[0])
                  if x.op == 'item'}
            if len(ds) == 1 and None not in ds:
                return ds.pop()
        if t.op == 'attr' and t.args[1] in ('current', 'min', 'max') and any(
                x.op == 'call' and x.args[0] == 'psutil.cpu_freq' for x in alts(t.args[0])):
            return p12.vec(cy=1, s=-1, e10=-6)
        if t.op in ('item', 'mcall', 'elem'):
            d = figure(t)
            if d is not None:
                return d
        return super().source(t)


def figure(t):
    """Dimension the pattern announces which found the text t in the output of a tool."""
    for y in walk_terms(t):
        if y.op == 'call' and y.args[0] in ('re.match', 're.fullmatch', 're.search',
                                            're.findall') and y.args[1]:
            ps = alts(y.args[1][0])
            if len(ps) == 1 and ps[0].op == 'const' and isinstance(ps[0].args[1], str):
                m = re.search(r'(?<![A-Za-z])([kMGT]?(?:B|Byte|Bytes|Hz)(?:/s)?)(?![A-Za-z/])',
                              re.sub(r'\\[a-zA-Z]', ' ', ps[0].args[1]))
                return p12.unit(m.group(1)) if m else None
    return None


class OutsideClient(p12.UnitClient):
    """Quantities made from and turned into plain numbers outside their class."""

    def __init__(self, prog, rep, label, module):
        super().__init__(prog, rep, label, set())
        self.module = module

    def inline(self, fi, st, args):
        return fi.module is self.module

    def d(self, it):
        if self.dims is None or self.dims.it is not it:
            self.dims = SourceDims(it)
        return self.dims

    def sink(self, it, node, v, want, what):
        if want is None or v is None:
            return
        ts = frozenset(t for t in alts(v.alts if isinstance(v, V) else v) if t.op != 'const')
        got = self.d(it).of(ts) - {p12.UNK}
        if not got:
            self.rep.count('undetermined_outside')
            return
        bad = sorted(p12.show(g) for g in got if not p12.same(g, want))
        self.rep.check(not bad, 'outside', '%s:%s' % (self.place(it), what),
                       '%s:%s' % (it.fn.module.path, getattr(node, 'lineno', '?')),
                       'what is labelled %s is %s' % (what, ' or '.join(bad)),
                       sample='%s %s' % (what, p12.show(want)))
        self.d(it).clash.clear()

    def report_clashes(self, it, node, what):
        self.d(it).clash.clear()

    def label_known(self, it, node, lab):
        pass

    def on_event(self, ev):
        return False

    def call(self, it, st, node, name, fn, args, kwargs):
        if name.startswith('subprocess.'):
            for a in args:
                for g in self.segs(it, st, a, node):
                    for t in g.v.alts:
                        self.text(it, node, t)
        return super().call(it, st, node, name, fn, args, kwargs)


def outside(prog, rep, ci):
    """Functions that make or name quantities, outside the class and the models."""
    n = 0
    for f in p12.all_functions(prog):
        if f.module is ci.module or f.parent is not None or '.models' in f.module.name:
            continue
        if not any(isinstance(x, ast.Name) and x.id == ci.name for x in ast.walk(f.node)):
            continue
        c = OutsideClient(prog, rep, f.name, f.module)
        it = Interp(prog, c)
        c.it = it
        st, args = State(), []
        if f.cls is not None and not f.deco('staticmethod'):
            st, sv = root_inst(st, f.cls, 'self')
            args = [sv]
        run_entry(it, st, f, args + [param(p) for p in f.params[len(args):]])
        rep.seen(it)
        n += 1
    rep.count('outside_functions', n)


def const_value(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
        return n.value
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Pow, ast.Mult)):
        a, b = const_value(n.left), const_value(n.right)
        if a is not None and b is not None and abs(b) < 100:
            return a ** b if isinstance(n.op, ast.Pow) else a * b
    return None


def check_table(rep, ci, name, node):
    known = set()
    for k, v in zip(node.keys, node.values):
        if not isinstance(k, ast.Constant):
            raise AnalysisBroken('computed key in the table of prefixes')
        known.add(k.value)
        w = const_value(v)
        if w is None or k.value not in SI:
            rep.count('table_entries_undecided')
            continue
        rep.check(abs(w / 10.0 ** SI[k.value] - 1) < 1e-9, 'table',
                  '%s.%s:%s' % (ci.name, name, k.value),
                  '%s:%s' % (ci.module.path, v.lineno),
                  'prefix %r stands for %g instead of 1e%d' % (k.value, w, SI[k.value]),
                  sample='%r %g' % (k.value, w))
    return known


def group_chars(pat, name):
    """Characters a named group of one character accepts, or None."""
    try:
        p = sre.parse(pat)
    except Exception:
        return None
    idx = p.state.groupdict.get(name)
    if idx is None:
        return None
    out = set()

    def walk(x, inside):
        for op, av in x:
            o = str(op)
            if o == 'SUBPATTERN':
                walk(av[-1], inside or av[0] == idx)
            elif o in ('MAX_REPEAT', 'MIN_REPEAT'):
                walk(av[2], inside)
            elif o == 'BRANCH':
                for b in av[1]:
                    walk(b, inside)
            elif inside and o == 'LITERAL':
                out.add(chr(av))
            elif inside and o == 'IN':
                for q, y in av:
                    if str(q) == 'LITERAL':
                        out.add(chr(y))
                    elif str(q) == 'RANGE':
                        out.update(chr(c) for c in range(y[0], y[1] + 1))
    walk(p, False)
    return out


def check_patterns(rep, prog, ci, known):
    sets = {}
    for n in ast.walk(ci.module.tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and '(?P<prefix>' in n.value:
            cs = group_chars(n.value, 'prefix')
            if cs is None:
                rep.count('patterns_undecided')
                continue
            bad = sorted(cs - known)
            sets[n.lineno] = cs
            rep.check(not bad, 'pattern', '%s:%s' % (ci.name, n.value[:60]),
                      '%s:%s' % (ci.module.path, n.lineno),
                      'accepts prefixes missing from the table: %s' % ' '.join(bad),
                      sample=''.join(sorted(cs)))
    for line, cs in sorted(sets.items()):
        miss = sorted(set().union(*sets.values()) - cs)
        rep.check(not miss, 'pattern', '%s:as many prefixes as elsewhere' % ci.name,
                  '%s:%s' % (ci.module.path, line),
                  'takes the prefix %s for a part of the unit, others do not' % ' '.join(miss))


def method(prog, rep, ci, f, table):
    c = ScaleClient(prog, ci, table, rep)
    it = Interp(prog, c)
    c.it = it
    st, sv = root_inst(State(), ci, 'self')
    args = [sv] if not f.deco('staticmethod') and not f.deco('classmethod') else []
    if f.deco('classmethod'):
        args = [param('cls')]
    args += [param(p) for p in f.params[len(args):]]
    res, _ = run_entry(it, st, f, args)
    rep.seen(it)
    for t in c.made:
        cut = [x for x in walk_terms(t) if x.op in ('item', 'slice') or x.op == 'mcall' and
               x.args[1] in ('split', 'partition', 'rsplit', 'strip', 'replace')]
        rep.check(not cut, 'parsed', '%s:whole text' % f.qual.split('.', 1)[1],
                  '%s:%s' % (ci.module.path, f.node.lineno), 'only a part of the text is parsed')
    for s, v in res:
        c.clashes(it, f.node, 'returned')
        for t in v.alts:
            returned(rep, c, ci, f, t)
    c.S.clash = []


def returned(rep, c, ci, f, t):
    where = '%s:%s' % (ci.module.path, f.node.lineno)
    S = c.S
    c.prefixes(t, f.node, f)
    for x in walk_terms(t):
        if x.op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            args = x.args if len(x.args) == 2 else [frozenset([y]) for y in alts(x.args[0])]
            got = set()
            for y in args:
                got |= S.of(y)
            bad = sorted(show(g) for g in got if g not in (NEUTRAL, UNK))
            rep.check(not bad, 'scale', '%s:compared' % f.qual.split('.', 1)[1], where,
                      'compares values that still carry the scale %s' % ' and '.join(bad),
                      sample=f.name)
        if x.op == 'fmt':
            ps = x.args[0]
            for i, p in enumerate(ps):
                if isinstance(p, str):
                    continue
                ts = [y for q in alts(p) for y in ([q] if q.op != 'fmtspec'
                                                   else alts(q.args[0]))]
                got = S.of(frozenset(ts))
                vals = [y for y in ts if y.op in ('attr', 'bin', 'call', 'mcall')
                        and not (y.op == 'attr' and y.args[1] != 'value')]
                if not vals:
                    continue
                nxt = [q for q in ps[i + 1:i + 3] if not (isinstance(q, str)
                                                          and not q.strip(' ,;'))]
                want = NEUTRAL
                if nxt and not isinstance(nxt[0], str):
                    nxt[0] = frozenset(y for q in alts(nxt[0]) for y in (
                        alts(q.args[0]) if q.op == 'fmtspec' else [q]))
                    pf = [y for y in alts(nxt[0]) if y.op == 'attr' and y.args[1] == 'prefix'
                          or y.op == 'param']
                    if pf:
                        digits(rep, ci, f, p, where)
                        want = frozenset([(S.pname(pf[0]), -1)])
                bad = sorted(show(g) for g in got if g != UNK and g != want)
                rep.check(not bad, 'scale', '%s:printed' % f.qual.split('.', 1)[1], where,
                          'prints a value of scale %s beside a prefix meaning %s' % (
                              ' or '.join(bad), show(want)), sample=f.name)
    if t.op in ('bin', 'attr') or t.op == 'call' and t.args[0] in THROUGH:
        got = S.term(t)
        numeric = t.op != 'attr' or t.args[1] == 'value'
        if numeric:
            bad = sorted(show(g) for g in got if g not in (NEUTRAL, UNK))
            rep.check(not bad, 'scale', '%s:returned' % f.qual.split('.', 1)[1], where,
                      'returns a bare number that still carries the scale %s' % ' or '.join(bad),
                      sample=f.name)
            for cl in S.clash:
                rep.bad('scale', '%s:returned %s' % (f.qual.split('.', 1)[1], cl[0]), where,
                        'values of different scale (%s and %s) are combined by %s' % (
                            cl[1], cl[2], cl[0]))
            S.clash = []


def digits(rep, ci, f, p, where):
    """The printed number has the decimals prefixes are chosen for."""
    n = None
    for g in ci.methods.values():
        a = g.node.args
        ds = dict(zip([x.arg for x in a.args[len(a.args) - len(a.defaults):]], a.defaults))
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                    x.func.id == 'round' and len(x.args) == 2 and \
                    isinstance(x.args[1], ast.Name):
                d = ds.get(x.args[1].id)
                if isinstance(d, ast.Constant) and isinstance(d.value, int):
                    n = max(n or 0, d.value)
    for q in alts(p):
        m = re.match(r'.*?\.(\d+)f?$', str(q.args[2])) if q.op == 'fmtspec' and \
            len(q.args) > 2 else None
        if n is not None and m:
            rep.check(int(m.group(1)) >= n, 'scale', '%s:decimals' % f.qual.split('.', 1)[1],
                      where, 'prints %s decimals beside a prefix chosen for %d' % (
                          m.group(1), n))


def groups_of(t):
    """(pattern, group name) a term is read from."""
    for x in walk_terms(t):
        if x.op == 'mcall' and x.args[1] == 'group' and x.args[2]:
            x = mk('item', x.args[0], x.args[2][0])
        if x.op != 'item':
            continue
        ks = alts(x.args[1])
        k = ks[0].args[1] if len(ks) == 1 and ks[0].op == 'const' else None
        for y in walk_terms(x.args[0]):
            if y.op == 'call' and y.args[0] in ('re.match', 're.fullmatch', 're.search'):
                ps = alts(y.args[1][0])
                if len(y.args[1]) > 1 and all(z.op == 'const' for z in alts(y.args[1][1])):
                    continue        # joined in from another number of arguments
                if len(ps) == 1 and ps[0].op == 'const' and isinstance(ps[0].args[1], str):
                    names = dict((i, n) for n, i in
                                 sre.parse(ps[0].args[1]).state.groupdict.items())
                    if isinstance(k, int) and not isinstance(k, bool):
                        whole = any(z.op == 'mcall' and z.args[1] == 'groups'
                                    for z in walk_terms(x.args[0]))
                        k = names.get(k + 1 if whole else k)
                    yield k
                    break


def init(prog, rep, ci, f, table):
    for n in (1, 2, 3):
        c = ScaleClient(prog, ci, table, rep)
        it = Interp(prog, c)
        c.it = it
        st, sv = root_inst(State(), ci, 'self')
        va = f.node.args.vararg
        if va is None and len(f.params) - 1 < n:
            continue
        ps = [param('a%d' % i) for i in range(n)]
        try:
            res, _ = run_entry(it, st, f, [sv] + ps)
        except AnalysisBroken:
            raise
        rep.seen(it)
        where = '%s:%s' % (ci.module.path, f.node.lineno)
        for s, _ in res:
            lost = [t for t, val in s.facts.items() if t.op == 'in' and not val
                    and any(S_table(x, table) for x in alts(t.args[1]))]
            rep.check(not lost, 'parsed', '%s/%d:unknown prefix' % (f.qual.split('.', 1)[1], n),
                      where, 'a number whose prefix is not in the table is accepted')
        if n < 3:
            ts = [t for s, _ in res if 'prefix' in s.heap[('root', 'self')].slots
                  for t in s.heap[('root', 'self')].slots['prefix'][0].alts]
            rep.check(any('prefix' in groups_of(t) for t in ts), 'parsed',
                      '%s/%d:prefix of text' % (f.qual.split('.', 1)[1], n), where,
                      'the prefix in the parsed text is not taken over',
                      sample='%d arguments: prefix taken over' % n)
        for s, _ in res:
            h = s.heap[('root', 'self')]
            for slot, (k, field) in (('value', (0, 'value')), ('prefix', (1, 'prefix')),
                                     ('unit', (2 if n == 3 else 1, 'unit'))):
                got = h.slots.get(slot)
                if got is None:
                    rep.bad('parsed', '%s/%d:%s' % (f.qual.split('.', 1)[1], n, slot), where,
                            'does not set %s' % slot)
                    continue
                bad = []
                for t in got[0].alts:
                    core = t
                    while core.op == 'call' and core.args[0] in THROUGH and \
                            len(alts(core.args[1][0])) == 1:
                        core = alts(core.args[1][0])[0]
                    gs = {g for g in groups_of(core)}
                    scaled = any(S_table(x, table) or x.op == 'bin' for x in walk_terms(core))
                    if core.op == 'const':
                        ok = slot != 'value' and core.args[1] in ('', None)
                    elif core.op == 'call':
                        ok = all(groups_ok(y, field, n, k) for y in alts(core.args[1][0]))
                    else:
                        ok = groups_ok(core, field, n, k)
                    if scaled or not ok:
                        bad.append(str(core)[:120])
                rep.check(not bad, 'parsed', '%s/%d:%s' % (f.qual.split('.', 1)[1], n, slot),
                          where, '%s is taken from %s' % (slot, '; '.join(bad)),
                          sample='%d arguments: %s' % (n, slot))


def S_table(x, table):
    return x.op == 'static' and x.args[0][-1] == table


def groups_ok(t, field, n, k):
    while t.op == 'call' and t.args[0] in THROUGH and len(alts(t.args[1][0])) == 1:
        t = alts(t.args[1][0])[0]
    if t.op == 'call' and t.args[0] in THROUGH:
        return all(groups_ok(y, field, n, k) for y in alts(t.args[1][0]))
    if t.op == 'const':
        return field != 'value' and t.args[1] in ('', None)
    if t.op == 'param':
        return t.args[0] == 'a%d' % k
    gs = list(groups_of(t))
    return bool(gs) and gs[0] == field
