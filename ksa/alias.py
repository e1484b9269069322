"""What a value may share structure with: access paths through attributes and elements."""
from .terms import walk_terms

# results whose elements are those of their argument, while the container itself is new
SHALLOW_CALLS = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'dict', 'iter', 'next',
                 'collections.OrderedDict', 'copy.copy', 'enumerate', 'zip', 'filter',
                 'itertools.chain', 'itertools.product', 'itertools.permutations', 'reduce',
                 'functools.reduce', 'max', 'min', 'map', 'collections.defaultdict',
                 'collections.deque', 'vars', 'itertools.chain.from_iterable'}
SHALLOW_METHODS = {'items', 'values', 'keys', 'copy', 'children', 'most_common', 'union',
                   'intersection', 'difference', 'elements'}
# results that may be, or look into, the object given first
SAME_CALLS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.ravel', 'numpy.reshape',
              'numpy.atleast_1d', 'memoryview', 'typing.cast', 'numpy.transpose', 'numpy.squeeze'}
GETTERS = {'get', 'setdefault', 'pop', 'popitem', 'popleft', '__getitem__', 'pop_first'}
ITEMS_OF = {'dict.keys', 'dict.values', 'dict.items', 'enumerate', 'zip'}


def same(t, out, it=None, depth=0, seen=None):
    """Access paths (root, step, step, ...) of objects t may be identical to."""
    if depth > 40:
        return out
    seen = set() if seen is None else seen
    if t in seen:
        return out
    seen = seen | {t}
    if t.op == 'obj':
        if isinstance(t.args[0], tuple) and t.args[0] and t.args[0][0] == 'root':
            out.add((t.args[0][1],))
        elif isinstance(t.args[0], tuple) and t.args[0] and t.args[0][0] == 'default':
            out.add((t,))
    elif t.op in ('param', 'memo', 'static', 'default'):
        out.add((t,))
    elif t.op == 'attr':
        for p in _same(t.args[0], it, depth, seen):
            out.add(p + ('.' + str(t.args[1]),))
    elif t.op == 'loopvar':
        for x in (it.loopvars.get(t, ()) if it is not None else ()):
            same(x, out, it, depth + 1, seen)
    elif t.op in ('item', 'elem'):
        out |= elements(t.args[0], it, depth + 1, seen)
    elif t.op == 'reduce':
        out |= elements(t, it, depth + 1, seen)
    elif t.op == 'call':
        n = t.args[0]
        if n in SAME_CALLS:
            for x in t.args[1][:1] if len(t.args) > 1 and isinstance(t.args[1], tuple) else ():
                out |= _same(x, it, depth, seen)
        if n in ('next', 'max', 'min', 'reduce', 'functools.reduce', 'random.choice'):
            for x in _sub(t):
                out |= elements(x, it, depth + 1, seen)
        elif isinstance(n, str) and n.startswith('kerncraft.'):
            # a call the interpreter did not follow (recursion): may return what it was given
            for x in _sub(t):
                out |= {p + ('[]',) for p in _same(x, it, depth, seen) if len(p) > 1}
                out |= elements(x, it, depth + 1, seen)
    elif t.op == 'mcall':
        if t.args[1] in GETTERS:
            out |= elements(t.args[0], it, depth + 1, seen)
    return out


def _same(x, it, depth, seen):
    out = set()
    for t in (x if isinstance(x, frozenset) else [x]):
        if hasattr(t, 'op'):
            same(t, out, it, depth + 1, seen)
    return out


def _sub(t):
    r = []

    def go(a, d):
        if hasattr(a, 'op'):
            r.append(a)
        elif isinstance(a, (tuple, frozenset)) and d < 4:
            for x in a:
                go(x, d + 1)
    if t.op in ('reduce', 'sum', 'join'):
        # segments (kind, values, where iterated): the last only says where they came from
        def segs(a, d=0):
            if isinstance(a, tuple) and len(a) == 3 and isinstance(a[0], str) and \
                    isinstance(a[1], frozenset):
                go(a[1], 0)
            elif isinstance(a, (tuple, frozenset)) and d < 4:
                for x in a:
                    segs(x, d + 1)
            elif hasattr(a, 'op'):
                r.append(a)
        for a in t.args:
            segs(a)
        return r
    for a in t.args:
        go(a, 0)
    return r


def elements(t, it=None, depth=0, seen=None):
    """Access paths of the elements of t."""
    out = set()
    if depth > 40:
        return out
    seen = set() if seen is None else seen
    alts = t if isinstance(t, frozenset) else [t]
    for x in alts:
        if not hasattr(x, 'op'):
            continue
        for p in _same(x, it, depth, seen):
            if len(p) > 1 or not isinstance(p[0], str):      # instances are not containers
                out.add(p + ('[]',))
        if x.op == 'call' and x.args[0] in SHALLOW_CALLS | ITEMS_OF:
            for y in _sub(x):
                out |= elements(y, it, depth + 1, seen)
        elif x.op == 'call' and isinstance(x.args[0], str) and x.args[0].startswith('kerncraft.'):
            for y in _sub(x):
                out |= {p + ('[]',) for p in _same(y, it, depth, seen) if len(p) > 1}
                out |= elements(y, it, depth + 1, seen)
        elif x.op == 'mcall' and x.args[1] in SHALLOW_METHODS:
            out |= elements(x.args[0], it, depth + 1, seen)
        elif x.op in ('slice', 'sum', 'join', 'keys', 'bin', 'reduce', 'sl', 'loopvar'):
            for y in _sub(x):
                out |= elements(y, it, depth + 1, seen)
        elif x.op == 'tup':
            for y in _sub(x):
                out |= _same(y, it, depth, seen)
    return out


def paths(v, it=None):
    out = set()
    for t in v.alts:
        same(t, out, it)
    return out
