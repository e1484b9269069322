"""P07: answers remembered in memory never go stale and are never altered by their users."""
import ast

from ksa import alias
from ksa.files import relevant_functions, implied
from ksa.interp import Interp, Client, State
from ksa.program import FuncInfo
from ksa.roots import root_inst, param, run_entry
from ksa.terms import V, C, T, mk, const, walk_terms, NONE
from checks.p02 import atoms

EXPLANATION = (
    'All memoised answers are found in the source: memoising decorators, results a method keeps '
    'in an attribute of its object, and class or module level tables filled on demand. For the '
    'first two the object attributes the answer is computed from are determined (transitively '
    'through the methods it calls) and every method that changes one of them is interpreted '
    'abstractly: on all paths the remembered answer must be dropped before the method returns or '
    'uses it. Results kept in attributes or tables must be found again only under a key that '
    'determines every argument they were computed from. Mutable answers must not be changed by '
    'those who receive them, nor shared with objects that are changed later.')
ASSUMPTIONS = [
    'output of system tools, /proc and the time stamps of the installed package do not change '
    'while one process runs',
    'objects given as arguments to memoised functions (expressions, paths, numbers) are immutable',
]
MIN = {'memoised': 6, 'invalidated': 3, 'answers-unaltered': 4, 'kept-under-key': 2,
       'not-shared': 1}
MEMO = ('lru_cache', 'cache', 'cached_property', 'memoize', 'memoized')
CONTAINER_CHANGES = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse',
                     'update', 'setdefault', 'add', 'discard', 'popitem', '__setitem__'}
# keep only a part of a path
PARTIAL = {'os.path.basename', 'os.path.dirname', 'os.path.split', 'os.path.splitext',
           'os.path.commonprefix'}
CONSUMED = {'map', 'filter', 'zip', 'iter', 'reversed', 'enumerate', 'open', 'io.open',
            'itertools.chain', 'itertools.product', 'itertools.islice', 'os.walk', 'os.scandir'}


def functions(prog):
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        for f in m.functions.values():
            yield f
        for c in m.classes.values():
            for f in c.methods.values():
                yield f


def family(prog, ci):
    """ci, its bases and its subclasses."""
    r = list(prog.mro(ci))
    for s in prog.subclasses(ci):
        r += [k for k in prog.mro(s) if k not in r]
    out = []
    for k in r:
        if k not in out:
            out.append(k)
    return out


def self_attrs(prog, ci, f, methods=None, seen=None):
    """Attributes of the object (transitively) read by method f."""
    fam = family(prog, ci)
    methods = {}
    for k in fam:
        for n, m in k.methods.items():
            methods.setdefault(n, []).append(m)
    out, todo, seen = set(), [f], set()
    while todo:
        g = todo.pop()
        if g in seen or not g.params or g.deco('staticmethod'):
            continue
        seen.add(g)
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                    x.value.id == g.params[0] and isinstance(x.ctx, ast.Load):
                if x.attr in methods:
                    todo += methods[x.attr]
                else:
                    out.add(x.attr)
            elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and \
                    x.value.id == g.params[0] and '__getitem__' in methods:
                todo += methods['__getitem__']
            elif isinstance(x, ast.Compare) and '__contains__' in methods and any(
                    isinstance(c, ast.Name) and c.id == g.params[0] for c in x.comparators):
                todo += methods['__contains__']
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                    x.func.id in ('getattr', 'hasattr') and len(x.args) > 1 and \
                    isinstance(x.args[0], ast.Name) and x.args[0].id == g.params[0] and \
                    isinstance(x.args[1], ast.Constant):
                if x.args[1].value in methods:
                    todo += methods[x.args[1].value]
                else:
                    out.add(x.args[1].value)
    return out


class Memo:
    def __init__(self, kind, f, ci, attrs, slots=()):
        self.kind = kind          # 'deco' or 'slot'
        self.f = f
        self.ci = ci
        self.attrs = attrs        # what it is computed from
        self.slots = slots        # attributes it is kept in


class DirtyClient(Client):
    """Typestate of one memo while one method runs: filled / empty / dirty."""

    def __init__(self, memo, rel):
        self.memo = memo
        self.rel = rel
        self.it = None
        self.uses = []
        self.sites = {}

    inline_small = True

    def inline(self, fi, st, args):
        return fi is not self.memo.f and (fi.name in self.rel or fi.parent is not None)

    def partition(self, st):
        return st.ts.get('m')

    def call(self, it, st, node, name, fn, args, kwargs):
        m = self.memo
        if name == '.cache_clear' and isinstance(fn, T):
            if any(refers(x, m.f) for x in walk_terms(fn)):
                return [(st.setts('m', 'empty'), C(None))]
        if isinstance(fn, T) and refers(fn, m.f):
            if st.ts.get('m') == 'dirty':
                self.uses.append((it.fn, node))
            else:
                st = st.setts('m', 'filled')
            return [(st, V(mk('memo', m.f.qual)))]
        return None

    def on_event(self, ev):
        if ev.kind not in ('setattr', 'mutate', 'setitem', 'augassign'):
            return False
        b = ev.data.get('target') if ev.kind in ('mutate', 'augassign') else ev.data.get('base')
        for p in alias.paths(b, self.it):
            if p[0] != 'self':
                continue
            if len(p) > 1:
                a = p[1][1:]
                if len(p) == 2 and a in self.memo.slots:
                    if ev.data.get('how') == 'clear':
                        ev.st = ev.st.setts('m', 'empty')
                        return False
                    if ev.kind == 'setitem':
                        # a new entry does not make the others right
                        return False
            elif ev.kind == 'setattr':
                a = ev.data.get('name')
                if a in self.memo.slots:
                    ev.st = ev.st.setts('m', 'empty')
                    return False
            elif ev.data.get('how') == 'delattr':
                a = ev.data['key'].const()
                if a in self.memo.slots or a == self.memo.f.name:
                    ev.st = ev.st.setts('m', 'empty')
                    return False
            else:
                continue
            if a is None or a in self.memo.attrs:
                self.sites[(ev.func, a)] = ev.node
                if ev.st.ts.get('m') != 'empty':
                    ev.st = ev.st.setts('m', 'dirty')
        return False


def alts(v):
    if isinstance(v, V):
        return v.alts
    if isinstance(v, T):
        return [v]
    return list(v) if isinstance(v, (frozenset, tuple, list)) else []


def refers(x, f):
    return x.op in ('func', 'bound') and x.args[0] is f


def changing(prog, fam, attrs):
    """Names of methods of the family that (transitively) may change one of the attributes."""
    direct = {}
    for k in fam:
        for n, m in k.methods.items():
            if not m.params or m.deco('staticmethod'):
                continue
            loads = {x.attr for x in ast.walk(m.node) if isinstance(x, ast.Attribute)}
            stores = False
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and x.attr in attrs and \
                        isinstance(x.ctx, (ast.Store, ast.Del)):
                    stores = True
                elif isinstance(x, (ast.Subscript, ast.Starred)) and \
                        isinstance(getattr(x, 'ctx', None), (ast.Store, ast.Del)):
                    stores = stores or bool(loads & attrs)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                        x.func.attr in CONTAINER_CHANGES:
                    stores = stores or bool(loads & attrs)
                elif isinstance(x, ast.AugAssign):
                    stores = stores or bool(loads & attrs)
                elif isinstance(x, ast.Attribute) and x.attr == '__dict__':
                    stores = True
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                        x.func.id in ('setattr', 'delattr', 'vars'):
                    stores = True
            direct[m] = (stores, loads)
    bad = {m for m, (s, _) in direct.items() if s}
    grow = True
    while grow:
        grow = False
        names = {m.name for m in bad}
        for m, (s, loads) in direct.items():
            if m not in bad and loads & names:
                bad.add(m)
                grow = True
    return bad


def invalidation(prog, rep, memo):
    fam = family(prog, memo.ci)
    what = '%s.%s' % (memo.ci.name, memo.f.name)
    if not memo.attrs:
        return
    methods = changing(prog, fam, memo.attrs)
    called = {}
    for k in fam:
        for m in k.methods.values():
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and x.attr != m.name:
                    called.setdefault(x.attr, set()).add(m)
    rel = relevant_functions(prog, memo.attrs | set(memo.slots) | {'cache_clear', memo.f.name}
                             | {m.name for m in methods})
    for m in sorted(methods, key=lambda m: m.qual):
        if m is memo.f:
            continue
        if m.name.startswith('_') and not m.name.endswith('__') and called.get(m.name):
            continue          # a step of others
        c = DirtyClient(memo, rel)
        it = Interp(prog, c)
        c.it = it
        st, sv = root_inst(State(), m.cls, 'self')
        st = st.setts('m', 'empty' if m.name == '__init__' else 'filled')
        kw = {a.arg: param(a.arg) for a in m.node.args.kwonlyargs}
        res, _ = run_entry(it, st, m, [sv] + [param(p) for p in m.params[1:]], kw)
        rep.seen(it)
        dirty = any(s.ts.get('m') == 'dirty' for s, _ in res)
        where = '%s:%s' % (m.module.path, m.node.lineno)
        names = sorted({a or '?' for _, a in c.sites})
        if not names:
            continue
        rep.check(not dirty, 'invalidated', '%s after %s' % (what, m.qual.split('.', 1)[1]), where,
                  '%s changes %s, from which %s is computed, and can return without dropping '
                  'remembered results' % (m.qual, ', '.join(names), what),
                  sample='%s drops results of %s' % (m.qual, what))
        for g, n in c.uses:
            rep.bad('invalidated', '%s used in %s' % (what, g.qual.split('.', 1)[1]),
                    '%s:%s' % (g.module.path, getattr(n, 'lineno', '?')),
                    '%s asks for %s after %s changed, before dropping remembered results' % (
                        m.qual, what, ', '.join(names)))
    # objects that compare equal share what is remembered for one of them
    if memo.kind == 'deco':
        for k in fam:
            for n in ('__eq__', '__hash__'):
                m = k.methods.get(n)
                if m is None:
                    continue
                miss = sorted(memo.attrs - self_attrs(prog, k, m))
                rep.check(not miss, 'kept-under-key', '%s shared by %s' % (
                    what, m.qual.split('.', 1)[1]), '%s:%s' % (m.module.path, m.node.lineno),
                    'objects that differ in %s are the same to the memory of %s' % (
                        ', '.join(miss), what))
    # assignments from outside
    for g in functions(prog):
        if g.cls in fam:
            continue
        for x in ast.walk(g.node):
            a = outside_change(x, memo.attrs, g)
            if a is not None:
                rep.bad('invalidated', '%s.%s changed in %s' % (what, a, g.qual.split('.', 1)[1]),
                        '%s:%s' % (g.module.path, x.lineno),
                        '%s changes %s of an object, from which %s is computed, without dropping '
                        'what is remembered' % (g.qual, a, what))
            if isinstance(x, ast.Attribute) and x.attr in memo.attrs and \
                    isinstance(x.ctx, (ast.Store, ast.Del)) and not (
                        isinstance(x.value, ast.Name) and g.params and x.value.id == g.params[0]
                        and g.cls is not None):
                rep.bad('invalidated', '%s.%s set in %s' % (what, x.attr,
                                                            g.qual.split('.', 1)[1]),
                        '%s:%s' % (g.module.path, x.lineno),
                        '%s assigns %s of an object, from which %s is computed' % (
                            g.qual, x.attr, what))


def parts(st, t, depth=0):
    """Containers within the object t."""
    if t.op != 'obj' or depth > 3:
        return False
    h = st.heap.get(t.args[0])
    if h is None:
        return False
    vs = [x[0] for x in h.slots.values()]
    if getattr(h, 'other', None):
        vs.append(h.other[1])
    vs += [g.v for g in getattr(h, 'segs', None) or []]
    return any(x.op == 'obj' for v in vs for x in v.alts)


class UserClient(Client):
    """Memoised functions return opaque shared objects."""

    def __init__(self, rep, memos, rel, label):
        self.rep = rep
        self.memos = memos
        self.rel = rel
        self.label = label
        self.it = None
        self.seen = set()

    inline_small = True

    def inline(self, fi, st, args):
        return fi.name in self.rel or fi.parent is not None

    def call(self, it, st, node, name, fn, args, kwargs):
        if isinstance(fn, T) and fn.op in ('func', 'bound') and fn.args[0] in self.memos:
            k = (it.fn, getattr(node, 'lineno', 0))
            if k not in self.seen:
                self.seen.add(k)
                self.rep.ok('answers-unaltered', '%s used by %s' % (fn.args[0].name, self.label))
            return [(st, V(mk('memo', fn.args[0].qual)))]
        return None

    def on_event(self, ev):
        if ev.kind not in ('setattr', 'mutate', 'setitem', 'augassign'):
            return False
        b = ev.data.get('target') if ev.kind in ('mutate', 'augassign') else ev.data.get('base')
        for p in alias.paths(b, self.it):
            if isinstance(p[0], T) and p[0].op == 'memo':
                q = p[0].args[0].split('.')[-1]
                self.rep.bad('answers-unaltered', '%s changed in %s' % (
                    q, ev.fq.split('.', 1)[1]), ev.where,
                    'changes (%s) the object remembered by %s' % (
                        ev.data.get('how') or ev.kind, q))
            elif p[0] == 'self' or isinstance(p[0], T) and (
                    p[0].op == 'static' or p[0].op == 'param' and not self.internal):
                self.keeps(ev)
        return False

    def keeps(self, ev):
        """Mutable parts of an answer become part of an object."""
        vs = [ev.data.get('value')] + list(ev.data.get('args') or ())
        for v in vs:
            if not isinstance(v, V):
                continue
            for p in alias.paths(v, self.it):
                if isinstance(p[0], T) and p[0].op == 'memo' and (
                        len(p) == 1 and not ev.data.get('how') in ('update', 'extend') or
                        p[0].args[0] in self.nested):
                    self.shares(ev, p[0])
            for p in alias.elements(v.alts, self.it):
                if isinstance(p[0], T) and p[0].op == 'memo' and p[0].args[0] in self.nested:
                    self.shares(ev, p[0])

    def shares(self, ev, t):
        q = t.args[0].split('.')[-1]
        self.rep.bad('not-shared', '%s in %s' % (q, ev.fq.split('.', 1)[1]), ev.where,
                     'parts of the object remembered by %s become part of another one: changing '
                     'that changes what later callers get' % q)


def outside_change(x, attrs, g):
    """Attribute (of another object) whose contents statement or call x changes."""
    def of(e):
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Attribute) and e.attr in attrs and not (
                isinstance(e.value, ast.Name) and g.params and g.cls is not None and
                e.value.id == g.params[0]):
            return e.attr
        return None
    if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
        return of(x.value)
    if isinstance(x, ast.AugAssign):
        return of(x.target)
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
            x.func.attr in CONTAINER_CHANGES:
        return of(x.func.value)
    return None


class SlotClient(Client):
    """Which attributes of self the method itself stores before returning them."""

    def __init__(self, rel, slots):
        self.rel = rel
        self.slots = slots
        self.it = None
        self.calls = {}
        self.early = []

    inline_small = True

    def inline(self, fi, st, args):
        return fi.name in self.rel or fi.parent is not None

    def partition(self, st):
        return frozenset(k for k in st.ts if isinstance(k, tuple) and k[0] in ('w', 'call'))

    def call(self, it, st, node, name, fn, args, kwargs):
        if name and name.startswith('.') and isinstance(fn, T) and fn.op == 'attr':
            for t in alts(fn.args[0]):
                if is_self_attr(t):
                    return [(st.setts(('call', t.args[1], name[1:]), True),
                             it.opaque_call(st, name, args, kwargs))]
        return None

    def on_event(self, ev):
        if ev.kind == 'setattr' and ev.data.get('name') in self.slots:
            if any(p == ('self',) for p in alias.paths(ev.data['base'], self.it)):
                ev.st = ev.st.setts(('w', ev.data['name']), True)
        return False


def is_self_attr(t, name=None):
    return t.op == 'attr' and alts(t.args[0]) and all(
        x.op == 'obj' and x.args[0] == ('root', 'self') for x in alts(t.args[0])) and \
        (name is None or t.args[1] == name)


def kept_results(prog, rep):
    """Methods that return an attribute of their object stored by an earlier call."""
    out = []
    for f in functions(prog):
        if f.cls is None or f.name == '__init__' or not f.params or f.deco('staticmethod') or \
                f.deco('setter') or f.deco(*MEMO):
            continue
        stored = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and
                  isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and
                  x.value.id == f.params[0]}
        loaded = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and
                  isinstance(x.ctx, ast.Load)} | \
            {x.value for x in ast.walk(f.node) if isinstance(x, ast.Constant) and
             isinstance(x.value, str)}
        helpers = {}
        for k in prog.mro(f.cls):
            for n, g in k.methods.items():
                helpers.setdefault(n, g)
        todo, seen = [x for x in loaded if x in helpers], set()
        while todo:
            n = todo.pop()
            if n in seen or not helpers[n].params:
                continue
            seen.add(n)
            g = helpers[n]
            for x in ast.walk(g.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                        x.value.id == g.params[0]:
                    if isinstance(x.ctx, ast.Store):
                        stored.add(x.attr)
                    else:
                        loaded.add(x.attr)
                        if x.attr in helpers:
                            todo.append(x.attr)
        if not stored or not any(isinstance(x, ast.Return) and x.value is not None
                                 for x in ast.walk(f.node)):
            continue
        if stored & loaded:
            out.append((f, stored))
    return out


def slot_memo(prog, rep, f, stored):
    rel = relevant_functions(prog, stored)
    c = SlotClient(rel, stored)
    it = Interp(prog, c)
    c.it = it
    st, sv = root_inst(State(), f.cls, 'self')
    kw = {a.arg: param(a.arg) for a in f.node.args.kwonlyargs}
    res, _ = run_entry(it, st, f, [sv] + [param(p) for p in f.params[1:]], kw)
    rep.seen(it)
    hits = {}
    for s, v in res:
        for a in stored:
            if ('w', a) not in s.ts and any(is_self_attr(t, a) for t in v.alts):
                hits.setdefault(a, []).append(s)
    for a, reuse in sorted(hits.items()):
        made = [s for s, v in res if ('w', a) in s.ts]
        if not made:
            continue
        rep.count('kept_results')
        where = '%s:%s' % (f.module.path, f.node.lineno)
        name = f.qual.split('.', 1)[1]
        need = set()
        for s in made:
            v = slot(s, a)
            need |= {d[1] for d in it.deep_deps(s, v) if isinstance(d, tuple) and d[0] == 'param'}
        need -= set(f.params[:1])
        for p in sorted(need):
            good = all(keyed(it, s, p, made, stored) for s in reuse)
            rep.check(good, 'kept-under-key', '%s.%s by %s' % (name, a, p), where,
                      '%s returns the %s stored by an earlier call although it was computed from '
                      'another value of %s' % (name, a, p),
                      sample='%s reuses %s only for the same %s' % (name, a, p))
        # a simulator that was used is emptied before it is handed out again
        if any('CacheSimulator' in str(t) for s in made for t in slot(s, a).alts):
            for call in ('mark_all_invalid', 'reset_stats'):
                rep.check(all(('call', a, call) in s.ts for s in reuse), 'kept-under-key',
                          '%s.%s without %s' % (name, a, call), where,
                          '%s hands out the simulator again without %s: contents or statistics '
                          'of its last use remain' % (name, call))
        attrs = self_attrs(prog, f.cls, f) - set(stored) - {a}
        invalidation(prog, rep, Memo('slot', f, f.cls, attrs, stored))


def slot(s, a):
    h = s.heap.get(('root', 'self'))
    if h is not None and a in h.slots:
        return h.slots[a][0]
    return V(mk('top'))


def keyed(it, s, p, made, stored):
    for t, val in implied(s.facts):
        if t.op not in ('eq', 'is') or not val:
            continue
        for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            got = set()
            atoms(it, frozenset(alts(x)), got, set(), ())
            if ('param', p) not in got:
                continue
            bs = {z.args[1] for z in alts(y) if is_self_attr(z)}
            if len(bs) != 1 or not all(is_self_attr(z) or z.op == 'const' for z in alts(y)):
                continue
            b = next(iter(bs))
            if all(('w', b) in m.ts and slot(m, b).alts == frozenset(alts(x)) for m in made):
                return True
    return False


class TableClient(Client):
    """Class and module level tables filled at run time."""

    defaults_kept = True

    def __init__(self, rep, f, rel=None):
        self.rep = rep
        self.f = f
        self.rel = rel         # functions that may keep or return entries of tables
        self.it = None
        self.filled = {}
        self.shared = []
        self.slots = []        # attributes of functions and classes that are set

    def inline(self, fi, st, args):
        return (fi.cls is self.f.cls and self.f.cls is not None or
                fi.module is self.f.module) and (self.rel is None or fi.name in self.rel)

    def table(self, p):
        """The table that outlives the call an access path leads to."""
        if isinstance(p[0], T) and p[0].op in ('static', 'obj', 'default') and len(p) == 1:
            return p[0]
        if p[0] == 'self' and len(p) == 2:
            return mk('slot', p[1][1:])
        return None

    def on_event(self, ev):
        if ev.kind == 'setitem':
            for p in alias.paths(ev.data['base'], self.it):
                if self.table(p) is not None:
                    self.filled.setdefault(self.table(p), []).append(ev)
        elif ev.kind == 'mutate' and ev.data.get('how') in ('setdefault', '__setitem__') and \
                len(ev.data.get('args') or ()) == 2:
            for p in alias.paths(ev.data['target'], self.it):
                if self.table(p) is not None:
                    ev.data['key'], ev.data['value'] = ev.data['args']
                    self.filled.setdefault(self.table(p), []).append(ev)
        elif ev.kind == 'setattr':
            for p in alias.paths(ev.data['value'], self.it):
                if isinstance(p[0], T) and p[0].op == 'static' and len(p) > 1:
                    self.shared.append((p[0], ev))
            for p in alias.elements(ev.data['value'].alts, self.it):
                if isinstance(p[0], T) and p[0].op == 'static' and len(p) > 2:
                    self.shared.append((p[0], ev))
            for t in ev.data['base'].alts:
                if t.op in ('func', 'closure', 'cls'):
                    self.slots.append((t, ev))
        return False


def given(f, skip):
    """Positional parameters without the mutable defaults only the function itself uses."""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    out = []
    for p in pos[skip:]:
        if isinstance(d.get(p), (ast.Dict, ast.List)):
            break
        out.append(p)
    return out


def named(f):
    return [x.arg for x, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults)
            if not isinstance(d, (ast.Dict, ast.List))]


def prog_names(f):
    return set(f.module.functions) | set(f.module.classes)


def from_table(it, v, t):
    for p in alias.paths(v, it):
        if t.op == 'slot':
            if p[:2] == ('self', '.' + t.args[0]) and len(p) == 3:
                return True
        elif p[0] is t and len(p) == 2:
            return True
    # immutable entries have no path: an element of the table is all it can be
    for z in v.alts:
        for x in walk_terms(z):
            if x.op in ('item', 'elem') or x.op == 'mcall' and x.args[1] in alias.GETTERS:
                for y in alts(x.args[0]):
                    if y is t or t.op == 'slot' and is_self_attr(y, t.args[0]):
                        return True
    return False


def global_memos(prog, rep):
    """Results kept in variables of the module."""
    for f in functions(prog):
        glob = {n for x in ast.walk(f.node) if isinstance(x, ast.Global) for n in x.names}
        if not glob:
            continue
        params = set(f.all_params)
        # names each local is computed from
        src = {}
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and x.value is not None:
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            src.setdefault(n.id, set()).update(
                                y.id for y in ast.walk(x.value) if isinstance(y, ast.Name))
            elif isinstance(x, (ast.With, ast.For)):
                for e, t in ([(i.context_expr, i.optional_vars) for i in x.items]
                             if isinstance(x, ast.With) else [(x.iter, x.target)]):
                    for n in ast.walk(t) if t is not None else ():
                        if isinstance(n, ast.Name):
                            src.setdefault(n.id, set()).update(
                                y.id for y in ast.walk(e) if isinstance(y, ast.Name))
        def roots(n, seen):
            if n in seen:
                return set()
            seen.add(n)
            r = {n} & params
            for y in src.get(n, ()):
                r |= roots(y, seen)
            return r
        for g in sorted(glob):
            if g not in src or not any(
                    isinstance(x, ast.Name) and x.id == g and isinstance(x.ctx, ast.Load)
                    for x in ast.walk(f.node)):
                continue
            need = roots(g, set())
            known = set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Compare):
                    ns = {n.id for n in ast.walk(x) if isinstance(n, ast.Name)}
                    if ns & glob:
                        known |= ns & params
            rep.check(not need - known, 'kept-under-key', '%s.%s' % (f.module.name, g),
                      '%s:%s' % (f.module.path, f.node.lineno),
                      'a result computed from %s is kept in %s for all later calls' % (
                          ', '.join(sorted(need)), g))


def keeps_entries(f):
    return any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) or
               isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and
               isinstance(x.value, ast.Name) and
               x.value.id in set(f.params[:1]) | prog_names(f) or
               isinstance(x, ast.Attribute) and x.attr in ('setdefault', 'update', '__setitem__')
               for x in ast.walk(f.node)) and any(
        isinstance(x, (ast.Return, ast.Yield)) and x.value is not None for x in ast.walk(f.node))


def tables(prog, rep):
    todo = []
    for f in functions(prog):
        if any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) or
               isinstance(x, ast.Attribute) and x.attr in ('setdefault', '__setitem__') or
               isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and
               isinstance(x.value, ast.Name) and not (f.params and x.value.id == f.params[0])
               for x in ast.walk(f.node)):
            todo.append(f)
    names = set()
    for m in prog.modules.values():
        for b in [m.tree] + [c.node for c in m.classes.values()]:
            for x in b.body:
                if isinstance(x, ast.Assign) and (
                        isinstance(x.value, (ast.Dict, ast.List)) or
                        isinstance(x.value, ast.Call) and isinstance(x.value.func, (
                            ast.Name, ast.Attribute)) and
                        ast.unparse(x.value.func).split('.')[-1] in (
                            'dict', 'list', 'OrderedDict', 'defaultdict', 'WeakValueDictionary')):
                    names |= {t.id for t in x.targets if isinstance(t, ast.Name)}
    rel = relevant_functions(prog, {f.name for f in functions(prog) if keeps_entries(f)})
    for f in todo:
        used = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)} | \
            {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
        a = f.node.args
        own = any(isinstance(d, (ast.Dict, ast.List, ast.Call))
                  for d in a.defaults + [x for x in a.kw_defaults if x is not None]) or \
            any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and
                isinstance(x.value, ast.Name) and x.value.id in prog_names(f)
                for x in ast.walk(f.node)) or \
            f.cls is not None and any(isinstance(x, ast.Return) and x.value is not None
                                      for x in ast.walk(f.node))
        if not used & names and not own:
            continue
        c = TableClient(rep, f, None if keeps_entries(f) else rel)
        it = Interp(prog, c)
        c.it = it
        st, pre, skip = State(), [], 0
        if f.cls is not None and not f.deco('staticmethod') and f.params:
            st, sv = root_inst(st, f.cls, 'self')
            pre, skip = [sv], 1
        res, _ = run_entry(it, st, f, pre + [param(p) for p in given(f, skip)],
                           {x: param(x) for x in named(f)})
        for t, ev in c.slots:
            need = {x.args[0] for z in ev.data['value'].alts for x in walk_terms(z)
                    if x.op == 'param'}
            rep.check(not need, 'kept-under-key', '%s.%s' % (
                f.qual.split('.', 1)[1], ev.data['name']), ev.where,
                'a result computed from %s is kept for all later calls' % ', '.join(sorted(need)))
        for t, evs in sorted(c.filled.items(), key=str):
            if t.op != 'static' and not any(from_table(it, v, t) for _, v in res):
                continue        # not handed out again by the same function
            rep.seen(it)
            if t.op == 'static':
                nm = '%s.%s' % (t.args[0][1].split('.')[-1], t.args[0][-1])
            elif t.op == 'slot':
                nm = '%s.%s' % (f.cls.name, t.args[0])
            else:
                nm = '%s of %s' % (t.args[0][2] if t.op == 'obj' else t.args[1],
                                   f.qual.split('.', 1)[1])
            if t.op == 'slot':
                invalidation(prog, rep, Memo('slot', f, f.cls, self_attrs(prog, f.cls, f) -
                                             {t.args[0]}, {t.args[0]}))
            for ev in evs:
                got = set()
                if not any(x.op == 'call' and x.args[0] in PARTIAL
                           for z in ev.data['key'].alts for x in walk_terms(z)):
                    atoms(it, ev.data['key'].alts, got, set(), ())
                need = {x.args[0] for z in ev.data['value'].alts for x in walk_terms(z)
                        if x.op == 'param'}
                miss = sorted(p for p in need if ('param', p) not in got)
                if t.op != 'slot' and f.cls is not None:
                    mine = {x.args[1] for z in ev.data['value'].alts for x in walk_terms(z)
                            if is_self_attr(x)}
                    key = {x.args[1] for z in ev.data['key'].alts for x in walk_terms(z)
                           if is_self_attr(x)}
                    vary = {a for a in mine - key if any(
                        m.name != '__init__' or len(m.params) > 1
                        for m in changing(prog, family(prog, f.cls), {a}))}
                    miss += sorted('self.' + a for a in vary)
                rep.check(not miss, 'kept-under-key', '%s in %s' % (nm, ev.fq.split('.', 1)[1]),
                          ev.where, 'an entry computed from %s is kept in %s under a key that '
                          'does not determine it' % (', '.join(miss), nm),
                          sample='%s: key determines %s' % (nm, sorted(need)))
            sh = [ev for x, ev in c.shared if x is t]
            rep.check(not sh, 'not-shared', '%s in %s' % (nm, f.qual.split('.', 1)[1]),
                      sh[0].where if sh else f.module.path,
                      'the entry of %s itself becomes part of an object (attribute %s): changing '
                      'one object changes all' % (nm, sh[0].data.get('name') if sh else ''),
                      sample='entries of %s are copied' % nm)


def run(prog, rep, tier):
    rep.rule('memoised', 'a memoised function returns a value that can be used more than once and '
                         'reads nothing that changes behind its back')
    rep.rule('invalidated', 'a method that changes what a remembered result was computed from '
                            'drops that result before it returns or uses it')
    rep.rule('answers-unaltered', 'objects returned by memoised functions are not modified by '
                                  'their users')
    rep.rule('kept-under-key', 'a result kept for later calls is found again only under a key '
                               'that determines every argument it was computed from')
    rep.rule('not-shared', 'entries of shared tables do not become part of modifiable objects')
    memos, mutable, nested = [], [], set()
    for f in functions(prog):
        if not f.deco(*MEMO):
            continue
        memos.append(f)
        where = '%s:%s' % (f.module.path, f.node.lineno)
        name = f.qual.split('.', 1)[1]
        rep.check(not f.is_generator, 'memoised', name + ' generator', where,
                  '%s is a generator: its remembered result is exhausted by the first user' % name)
        c = Client()
        it = Interp(prog, c)
        c.inline = lambda fi, st, args: False
        st, pre, skip = State(), [], 0
        if f.cls is not None and not f.deco('staticmethod'):
            st, sv = root_inst(st, f.cls, 'self')
            pre, skip = [sv], 1
        res, _ = run_entry(it, st, f, pre + [param(p) for p in f.params[skip:]])
        once = [t for _, v in res for t in v.alts
                if t.op == 'call' and t.args[0] in CONSUMED or t.op in ('gen', 'genexp')]
        rep.check(not once, 'memoised', name + ' iterator', where,
                  '%s returns an iterator: its remembered result is exhausted by the first user'
                  % name)
        if any(x.op == 'obj' and x.args[0] != ('root', 'self') for s, v in res for t in v.alts
               for x in walk_terms(t) if x.op == 'obj'):
            mutable.append(f)
            if any(parts(s, t) for s, v in res for t in v.alts):
                nested.add(f.qual)
        env = environment(prog, f)
        rep.check(not env, 'memoised', name + ' ' + ', '.join(sorted(env)), where,
                  '%s reads %s, which can change while its results are remembered' % (
                      name, ', '.join(sorted(env))), sample=name)
        if pre:
            invalidation(prog, rep, Memo('deco', f, f.cls, self_attrs(prog, f.cls, f)))
    users = set()
    rel = relevant_functions(prog, {m.name for m in mutable})
    called = {x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id
              for f in functions(prog) for x in ast.walk(f.node) if isinstance(x, ast.Call) and
              isinstance(x.func, (ast.Attribute, ast.Name))}
    for f in functions(prog):
        words = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)} | \
            {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
        if words & {m.name for m in mutable}:
            users.add(f)
    for f in sorted(users, key=lambda f: f.qual):
        c = UserClient(rep, mutable, rel - {m.name for m in mutable}, f.name)
        c.nested = nested
        c.internal = f.name in called       # parameters are those of callers analysed as well
        it = Interp(prog, c)
        c.it = it
        st, pre, skip = State(), [], 0
        if f.cls is not None and not f.deco('staticmethod') and f.params:
            st, sv = root_inst(st, f.cls, 'self')
            pre, skip = [sv], 1
        kw = {a.arg: param(a.arg) for a in f.node.args.kwonlyargs}
        run_entry(it, st, f, pre + [param(p) for p in f.params[skip:]], kw)
        rep.seen(it)
    for f, stored in kept_results(prog, rep):
        slot_memo(prog, rep, f, stored)
    tables(prog, rep)
    global_memos(prog, rep)


READS = {'open', 'io.open', 'os.stat', 'os.path.exists', 'os.path.isfile', 'os.path.getmtime',
         'os.path.getsize', 'os.listdir', 'os.scandir', 'os.walk', 'glob.glob'}


def stable(e):
    """Does an expression name a file of the operating system or of the installed package?"""
    return any(isinstance(x, ast.Name) and x.id == '__file__' or
               isinstance(x, ast.Constant) and isinstance(x.value, str) and
               x.value.startswith(('/proc', '/sys', '/etc')) for x in ast.walk(e))


def loads(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def fixed(e, g):
    """A file of the operating system or of the installed package."""
    if stable(e):
        return True
    a = g.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    ps = {x.arg for x in pos + a.kwonlyargs}
    if a.vararg or a.kwarg:
        ps |= {x.arg for x in (a.vararg, a.kwarg) if x}
    defs = {}
    for x in ast.walk(g.node):
        if isinstance(x, (ast.For, ast.comprehension)):
            pairs = [(x.target, x.iter)]
        elif isinstance(x, ast.Assign):
            pairs = [(t, x.value) for t in x.targets]
        elif isinstance(x, (ast.AugAssign, ast.NamedExpr)):
            pairs = [(x.target, x.value)]
        else:
            continue
        for t, v in pairs:
            for n in loads(t):
                defs.setdefault(n, []).append(v)
    # names made only of such files (walked directories, joined names, counters)
    good = (set(defs) | ps) - {p for p in ps if p not in d or not stable(d[p])}
    while True:
        gone = {n for n in good if any(loads(v) & ((set(defs) | ps) - good)
                                       for v in defs.get(n, ()))}
        if not gone:
            break
        good -= gone
    mine = loads(e) & (set(defs) | ps)
    if not mine or not mine <= good:
        return False
    # at least one of them leads to a stable path
    todo, seen = set(mine), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in d and stable(d[n]) or any(stable(v) for v in defs.get(n, ())):
            return True
        for v in defs.get(n, ()):
            todo |= loads(v) & good
    return False


def environment(prog, f):
    """Process state and mutable parameters a memoised function reads (callees in its module
    included)."""
    out, todo, seen = set(), [(f, True)], set()
    meths = {}
    for m in prog.modules.values():
        for c in m.classes.values():
            for n, g in c.methods.items():
                meths.setdefault(n, []).append(g)
    while todo:
        g, top = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        glob = {n for x in ast.walk(g.node) if isinstance(x, ast.Global) for n in x.names}
        out |= {'global ' + n for n in glob}
        a = g.node.args
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} if top else set()
        if top and g.cls is not None and not g.deco('staticmethod'):
            ps -= set(g.params[:1])
        for x in ast.walk(g.node):
            if isinstance(x, (ast.Attribute, ast.Call)):
                d = ast.unparse(x.func if isinstance(x, ast.Call) else x)
                if d in ('os.environ', 'os.getcwd', 'os.getenv', 'sys.argv', 'os.environ.get',
                         'time.time', 'random.random', 'random.uniform', 'datetime.now',
                         'datetime.utcnow', 'input'):
                    out.add(d)
            if isinstance(x, ast.Call) and x.args and ast.unparse(x.func) in READS and \
                    not fixed(x.args[0], g):
                out.add('files (%s)' % ast.unparse(x)[:40])
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                h = prog.module_member(g.module, x.func.id)
                if isinstance(h, FuncInfo):
                    todo.append((h, False))
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                    x.value.id in ps and isinstance(x.ctx, ast.Load):
                if any(True for _ in meths.get(x.attr, ())) or not any(
                        isinstance(c, ast.Call) and c.func is x for c in ast.walk(g.node)):
                    out.add('%s.%s' % (x.value.id, x.attr))
    return out
