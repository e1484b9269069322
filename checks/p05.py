"""P05: a result taken from the cache is what computing it anew would have given."""
import ast

from ksa.files import *
from ksa.interp import Interp
from ksa.roots import root_inst, param, run_entry
from ksa.terms import T, V, C, const, mk, walk_terms, show
from checks.p01 import kernel_state
from checks.p02 import entry_args

EXPLANATION = (
    'For every operation that can take its result from a cached intermediate, the abstract '
    'program is split into the path that loads the cached object and the path that computes and '
    'stores it. What the loading path returns and leaves behind in objects is expressed as '
    'projections of the loaded object; each is compared with the component stored under the same '
    'projection on the computing path, and that in turn with what the computing path itself '
    'returns and leaves behind. Changes made to the object between storing and use must happen on '
    'both paths.')
ASSUMPTIONS = [
    'serialising and loading an object yields an equal object',
    'the loaded file was written by the same version of the package (P03) for the same inputs '
    '(P02)',
]
MIN = {'same-result': 5, 'same-path': 3, 'cached-operations': 3}


class CacheClient(FileClient):
    def __init__(self, rel):
        self.rel = rel
        self.dumps = {}       # id -> (content alternatives, state)
        self.loads = {}       # loaded term -> path
        self.sets = {}        # mode -> attr -> sites
        self.muts = {}        # mode -> {site: event}
        self.opens = {}
        self.forms = {}       # attribute -> {'text'|'other': event}
        self.dyn = {}         # mode -> loaded objects whose items all become attributes

    inline_small = True

    def inline(self, fi, st, args):
        return fi.name in self.rel or fi.name == '__init__' or fi.parent is not None

    def partition(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k == 'src')

    def call(self, it, st, node, name, fn, args, kwargs):
        r = FileClient.call(self, it, st, node, name, fn, args, kwargs)
        if r is not None:
            return r
        if name in LOADERS | {'pickle.load', 'json.load'} and args:
            src = args[0]
            for t in args[0].alts:
                if t in self.opens:
                    src = self.opens[t]
            t = mk('loaded', src.alts)
            self.loads[t] = src
            return [(st.setts('src', ('loaded', node.lineno)), V(t, args[0].deps))]
        if name in DUMPERS | {'pickle.dump', 'json.dump'} and len(args) >= 2:
            dst = args[1]
            for t in args[1].alts:
                if t in self.opens:
                    dst = self.opens[t]
            k = ('dumped', node.lineno)
            c, s0, d0 = self.dumps.get(k, (None, None, None))
            self.dumps[k] = (args[0] if c is None else c.join(args[0]), st,
                             dst if d0 is None else d0.join(dst))
            return [(st.setts('src', k), C(None))]
        if name in ('open', 'io.open') and args:
            v = it.opaque_call(st, name, args, kwargs)
            for t in v.alts:
                self.opens[t] = args[0]
            return [(st, v)]
        return None

    def on_event(self, ev):
        src = ev.st.ts.get('src')
        if ev.kind == 'setattr' and ev.data['name'] is not None:
            for t in ev.data['value'].alts:
                if t.op != 'const':
                    self.forms.setdefault(ev.data['name'], {}).setdefault(
                        'text' if file_text(t) else 'other', ev)
        if src is None:
            return False
        if ev.kind == 'setattr' and ev.data['name'] is None:
            for t in ev.data['value'].alts:
                for x in walk_terms(t):
                    if x.op == 'loaded':
                        self.dyn.setdefault(src, set()).add(x)
        elif ev.kind == 'mutate' and ev.data.get('how') == 'update' and \
                any(t.op == 'attr' and t.args[1] == '__dict__' for t in ev.data['target'].alts):
            for w in ev.data.get('args', ()):
                for t in w.alts:
                    if t.op == 'loaded':
                        self.dyn.setdefault(src, set()).add(t)
        elif ev.kind == 'setattr':
            self.sets.setdefault(src, {}).setdefault(ev.data['name'], set()).add(
                (ev.fq, ev.node.lineno))
        b = ev.data.get('target') if ev.kind in ('mutate', 'augassign') else \
            ev.data.get('base') if ev.kind in ('setitem', 'setattr') else None
        if b is not None:
            self.muts.setdefault(src, []).append((ev, b))
        return False


def reach(st, v, seen=None, depth=0):
    """Heap objects reachable from a value."""
    seen = set() if seen is None else seen
    for t in v.alts:
        for x in walk_terms(t):
            if x.op == 'obj' and x.args[0] not in seen:
                h = st.heap.get(x.args[0])
                if h is None or h.root is not None or h.kind == 'inst':
                    continue
                seen.add(x.args[0])
                for w, _ in h.slots.values():
                    reach(st, w, seen)
                for g in h.segs:
                    reach(st, g.v, seen)
                if h.other is not None:
                    reach(st, h.other[1], seen)
    return seen


TEXT = {'group', 'read', 'readline', 'strip', 'lstrip', 'rstrip', 'decode', 'replace', 'lower',
        'upper', 'removeprefix', 'removesuffix'}


def file_text(t):
    """Is this a piece of text read from a file, as it stands?"""
    while t.op == 'item' and isinstance(t.args[0], T):
        t = t.args[0]
    return t.op == 'mcall' and t.args[1] in TEXT | {'split', 'splitlines', 'groups', 'partition',
                                                    'rsplit', 'findall'} and any(
        x.op == 'mcall' and x.args[1] in ('read', 'readline', 'readlines') for x in walk_terms(t))


def has_loaded(it, v):
    return any(x.op == 'loaded' for t in v.alts for x in walk_deep(it, t))


def project(st, content, t):
    """Stored component corresponding to a projection of the loaded object, or None."""
    if t.op == 'loaded':
        return content
    if t.op == 'item' and t.args[1].op == 'const':
        b = project(st, content, t.args[0])
        if b is None:
            return None
        k = t.args[1].args[1]
        out = None
        for x in b.alts:
            w = None
            if x.op == 'tup' and isinstance(k, int) and k < len(x.args[0]):
                w = V(x.args[0][k])
            elif x.op == 'const' and isinstance(x.args[1], tuple) and isinstance(k, int) and \
                    k < len(x.args[1]):
                w = C(x.args[1][k])
            elif x.op == 'obj':
                h = st.heap.get(x.args[0])
                if h is not None and k in h.slots:
                    w = h.slots[k][0]
                elif h is not None and isinstance(k, int) and k < len(h.segs) and \
                        all(g.kind == 'one' for g in h.segs):
                    w = h.segs[k].v
            if w is None:
                return None
            out = w if out is None else out.join(w)
        return out
    return None


def read_attrs(prog, ci, entry):
    """Attributes read in methods that are not only steps of the entry itself."""
    methods = {}
    for k in reversed(prog.mro(ci)):
        methods.update(k.methods)
    calls = {}
    for n, f in methods.items():
        calls[n] = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and
                    x.attr in methods}
    # steps: reachable from the entry and used by nobody else
    step, todo = set(), [entry.name]
    while todo:
        n = todo.pop()
        for m in calls.get(n, ()):
            if m not in step:
                step.add(m)
                todo.append(m)
    changed = True
    while changed:
        changed = False
        for n in set(calls) - step - {entry.name}:
            for m in calls[n] & step:
                step.discard(m)
                changed = True
    out = set()
    for n, f in methods.items():
        if n in step or n == entry.name or not f.params:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                    x.value.id == f.params[0] and isinstance(x.ctx, ast.Load) and \
                    x.attr not in methods:
                out.add(x.attr)
    return out


def components(v):
    """Components of a returned value by position."""
    n = {len(t.args[0]) for t in v.alts if t.op == 'tup'}
    if len(n) == 1 and all(t.op == 'tup' for t in v.alts):
        n = n.pop()
        return {str(i): V(frozenset().union(*[t.args[0][i] for t in v.alts])) for i in range(n)}
    return {'value': v}


def run(prog, rep, tier):
    rep.rule('same-result', 'what is returned or kept on the path that uses the cache is the '
                            'stored counterpart of what the computing path returns or keeps')
    rep.rule('same-form', 'what is read back as text is converted to what was written')
    rep.rule('same-path', 'the object is loaded from where it is stored')
    rep.rule('same-changes', 'changes made to the object after it was stored are also made after '
                             'it was loaded')
    rep.rule('cached-operations', 'operations with a loading and a storing path')
    rel = relevant_functions(prog, {'open', 'subprocess', 'compress_pickle', 'pickle'})
    kc = prog.cls('KernelCode')
    ents = []
    for k in prog.mro(kc):
        for n, f in sorted(k.methods.items()):
            if n in rel and n != '__init__' and prog.find_method(kc, n) is f and \
                    not n.startswith('_') and caches(prog, f, rel):
                ents.append((kc, f))
    for ci in prog.subclasses(prog.cls('CachePredictor')):
        init = prog.find_method(ci, '__init__')
        if init is not None and init.cls is ci:
            ents.append((ci, init))
    for ci, f in ents:
        one(prog, rep, ci, f, rel, kc)


def caches(prog, f, rel, seen=None):
    """Does f (transitively) load serialised objects?"""
    seen = set() if seen is None else seen
    if f.qual in seen:
        return False
    seen.add(f.qual)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == 'load' and isinstance(n.value, ast.Name):
            return True
        if isinstance(n, ast.Attribute) and n.attr in rel and f.cls is not None:
            g = prog.find_method(f.cls, n.attr)
            if g is not None and g.cls is not None and caches(prog, g, rel, seen):
                return True
    return False


def one(prog, rep, ci, f, rel, kc):
    st, kv, mv = kernel_state(prog)
    c = CacheClient(rel)
    it = Interp(prog, c)
    if ci is kc:
        selfoid = ('root', 'kernel')
        res, _ = run_entry(it, st, f, [kv], entry_args(prog, f))
    else:
        st, sv = root_inst(st, ci, 'predictor')
        h = st.heap[('root', 'predictor')].copy()
        h.root = None
        st = st.sethobj(('root', 'predictor'), h)
        selfoid = ('root', 'predictor')
        # everything the class does itself is followed
        c.rel = rel | set(ci.methods) | {n for k in prog.mro(ci) for n in k.methods}
        res, _ = run_entry(it, st, f, [sv, kv, mv], entry_args(prog, f, 3))
    rep.seen(it)
    label = f.qual.split('.', 1)[1]
    where = '%s:%s' % (f.module.path, f.node.lineno)
    for a, k in sorted(c.forms.items()):
        if 'text' in k:
            rep.check('other' not in k, 'same-form', '%s:%s' % (label, a), k['text'].where,
                      '%s is the text read from a cached file here, but not where it is '
                      'determined anew' % a)
        else:
            rep.ok('same-form')
    loaded = [(s, v) for s, v in res if s.ts.get('src', ('',))[0] == 'loaded']
    dumped = [(s, v) for s, v in res if s.ts.get('src', ('',))[0] == 'dumped']
    other = [(s, v) for s, v in res if 'src' not in s.ts]
    if not loaded and not dumped:
        return
    rep.check(bool(loaded) and bool(dumped), 'cached-operations', label, where,
              '%s %s' % (label, 'stores results that it never loads again' if dumped else
                         'loads results that it never stores'))
    if not loaded or not dumped:
        return
    # paths
    lp = frozenset().union(*[v.alts for v in c.loads.values()])
    for k, (content, ds, dst) in c.dumps.items():
        rep.check(lp == dst.alts, 'same-path', label, where,
                  '%s stores its result somewhere else than it loads it from' % label)
    base = st.heap[selfoid].slots
    init = {a: v for a, (v, m) in base.items()}
    names = set()
    for s, v in loaded + dumped + other:
        names |= {a for a, (v, m) in s.heap[selfoid].slots.items() if init.get(a) != v}
    wanted = read_attrs(prog, ci, f)
    names = {a for a in names if a in wanted or ci is kc}
    for ls, lv in loaded:
        for ds, dv in dumped:
            key = ds.ts['src']
            content, _, _ = c.dumps[key]
            pairs = []
            lc, dc = components(lv), components(dv)
            if set(lc) != set(dc):
                rep.bad('same-result', label + ':return', where,
                        'what %s returns has another form when it comes from the cache' % label)
            else:
                pairs += [('returned component ' + i if i != 'value' else 'returned value',
                           lc[i], dc[i], None) for i in sorted(lc)]
            for a in sorted(names):
                x = slot(it, ls, selfoid, a)
                if x is None and c.dyn.get(ls.ts['src']):
                    x = V(frozenset(mk('item', t, const(a))
                                    for t in c.dyn[ls.ts['src']]))
                pairs.append(('attribute ' + a, x, slot(it, ds, selfoid, a), a))
            for what, x, y, attr in pairs:
                compare(rep, it, c, label, where, what, x, y, attr, ls, ds, content)
            changes(rep, c, it, label, ls, ds, content)
    for s, v in other:
        for a in sorted(names):
            if a not in wanted:
                continue
            rep.check(slot(it, s, selfoid, a) is not None, 'same-result',
                      '%s:no-cache:%s' % (label, a), where,
                      '%s is not set by %s when no cache is used' % (a, label))


def slot(it, st, oid, a):
    h = st.heap[oid]
    if a in h.slots:
        v, m = h.slots[a]
        return v if m else V(v.alts | {mk('unset')}, v.deps)
    z = it.lazy(oid, h, a)
    return z


def compare(rep, it, c, label, where, what, x, y, attr, ls, ds, content):
    con = '%s:%s' % (label, what)
    if x is None or y is None:
        rep.bad('same-result', con, where, '%s is only set when the result %s' % (
            what, 'is computed' if x is None else 'comes from the cache'))
        return
    if has_loaded(it, x):
        if attr is not None and c.sets.get(ls.ts['src'], {}).get(attr) and \
                c.sets[ls.ts['src']][attr] == c.sets.get(ds.ts['src'], {}).get(attr) and \
                any(t.op != 'loaded' and t.op != 'item' for t in x.alts):
            rep.ok('same-result', con + ' (derived by the same code)')
            return
        exp = None
        for t in x.alts:
            p = project(ds, content, t)
            if p is None:
                exp = None
                break
            exp = p if exp is None else exp.join(p)
        if exp is None:
            rep.bad('same-result', con, where,
                    '%s is taken from a part of the cached object that is not stored' % what)
            return
        rep.check(exp.alts == y.alts, 'same-result', con, where,
                  '%s is not what is stored in the cache: a run that uses the cache gets '
                  'something else than one that computes it' % what,
                  sample='%s = stored %s' % (con, sorted(show(t)[-60:] for t in x.alts)))
        return
    if x.alts == y.alts:
        rep.ok('same-result', con)
        return
    if all(fileish(t) for t in x.alts | y.alts):
        return
    rep.bad('same-result', con, where, '%s differs between using the cache and computing' % what)


def fileish(t):
    return t.op == 'call' and t.args[0] in ('open', 'io.open')


def changes(rep, c, it, label, ls, ds, content):
    """Mutations of the object after load / after store."""
    def sites(src, pred):
        r = {}
        for ev, b in c.muts.get(src, ()):
            if pred(ev, b):
                r.setdefault((ev.fq, ev.node.lineno), ev)
        return r
    objs = reach(ds, content)
    sd = sites(ds.ts['src'], lambda ev, b: any(o in objs for o in b.objs()))
    sl = sites(ls.ts['src'], lambda ev, b: has_loaded(it, b))
    for k in sorted(set(sd) ^ set(sl)):
        ev = sd.get(k) or sl.get(k)
        rep.bad('same-changes', '%s:%s' % (label, k[0].split('.', 1)[1]), ev.where,
                'the result is changed here only when it %s' % (
                    'was computed' if k in sd else 'came from the cache'))
    for k in set(sd) & set(sl):
        rep.ok('same-changes', '%s at %s' % (label, sd[k].where))
    rep.ok('same-changes')
