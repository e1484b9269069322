"""Hash-consed value terms and abstract values (alternatives + dependency tokens)."""

_tab = {}
MAXDEPTH = 48
MAXALTS = 14


class T:
    __slots__ = ('op', 'args', 'depth', 'uid')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid

    def __deepcopy__(self, memo):
        return self


def _depth(a):
    if isinstance(a, T):
        return a.depth
    if isinstance(a, (tuple, frozenset)):
        return max([_depth(x) for x in a] or [0])
    return 0


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        d = _depth(args) + 1
        if d > MAXDEPTH and op != 'top':
            return mk('top')
        t = T()
        t.op = op
        t.args = args
        t.depth = d
        t.uid = len(_tab)
        _tab[k] = t
    return t


def const(v):
    try:
        hash(v)
    except TypeError:
        return mk('top')
    return mk('const', type(v).__name__, v)


TOP = mk('top')
NONE = const(None)
TRUE = const(True)
FALSE = const(False)
E = frozenset()


class V:
    """Abstract value: set of alternative terms, plus the inputs it depends on."""
    __slots__ = ('alts', 'deps')

    def __init__(self, alts, deps=E):
        if isinstance(alts, T):
            alts = frozenset((alts,))
        elif not isinstance(alts, frozenset):
            alts = frozenset(alts)
        if len(alts) > MAXALTS:
            # keep object identities (aliasing matters); collapse the rest
            keep = frozenset(t for t in alts if t.op in ('obj', 'func', 'bound', 'cls'))
            if len(keep) > 4 * MAXALTS:
                keep = E
            alts = keep | {TOP}
        self.alts = alts
        self.deps = deps if isinstance(deps, frozenset) else frozenset(deps)

    def __eq__(self, o):
        return isinstance(o, V) and self.alts == o.alts and self.deps == o.deps

    def __hash__(self):
        return hash((self.alts, self.deps))

    def __repr__(self):
        return 'V(%s%s)' % (show_alts(self.alts),
                            ('; deps=' + ','.join(sorted(map(str, self.deps)))) if self.deps else '')

    def join(self, o):
        if o is self or o == self:
            return self
        return V(self.alts | o.alts, self.deps | o.deps)

    def dep(self, d):
        if not d or d <= self.deps:
            return self
        return V(self.alts, self.deps | d)

    @property
    def one(self):
        """The single alternative, or None."""
        if len(self.alts) == 1:
            return next(iter(self.alts))
        return None

    def const(self, default=None):
        t = self.one
        if t is not None and t.op == 'const':
            return t.args[1]
        return default

    def is_const(self):
        t = self.one
        return t is not None and t.op == 'const'

    def consts(self):
        """Set of constants, or None if something is not a constant."""
        r = []
        for t in self.alts:
            if t.op != 'const':
                return None
            r.append(t.args[1])
        return r

    def objs(self):
        return [t.args[0] for t in self.alts if t.op == 'obj']


def C(v, deps=E):
    return V(const(v), deps)


def joinall(vs, empty=None):
    r = None
    for v in vs:
        r = v if r is None else r.join(v)
    return r if r is not None else (empty if empty is not None else V(TOP))


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, frozenset):
            return show_alts(t, d)
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d) for x in t) + ')'
        return repr(t) if isinstance(t, str) else str(t)
    if d > 9:
        return '...'
    if t.op == 'const':
        return repr(t.args[1])
    if t.op == 'param':
        return t.args[0]
    if t.op == 'ext':
        return t.args[0]
    if t.op == 'attr':
        return show(t.args[0], d + 1) + '.' + t.args[1]
    if t.op == 'item':
        return '%s[%s]' % (show(t.args[0], d + 1), show(t.args[1], d + 1))
    if t.op == 'bin':
        return '(%s %s %s)' % (show(t.args[1], d + 1), t.args[0], show(t.args[2], d + 1))
    if t.op == 'call':
        return '%s(%s)' % (t.args[0], ', '.join(show(x, d + 1) for x in t.args[1]))
    if t.op == 'mcall':
        return '%s.%s(%s)' % (show(t.args[0], d + 1), t.args[1],
                              ', '.join(show(x, d + 1) for x in t.args[2]))
    return t.op + '(' + ', '.join(show(x, d + 1) for x in t.args) + ')'


def show_alts(a, d=0):
    if len(a) == 1:
        return show(next(iter(a)), d)
    return '{' + ' | '.join(sorted(show(x, d + 1) for x in a)) + '}'


def walk_terms(x, seen=None, follow=None):
    """All sub-terms of a term / alternatives / tuple."""
    if seen is None:
        seen = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, V):
            y = y.alts
        if isinstance(y, T):
            if y in seen:
                continue
            seen.add(y)
            yield y
            todo.extend(y.args)
            if follow is not None:
                z = follow(y)
                if z:
                    todo.append(z)
        elif isinstance(y, (tuple, frozenset)):
            todo.extend(y)
