"""P08: every point of a parameter sweep is analysed on its own and filed under its own key."""
import ast

from ksa.files import walk_deep, implied, arg, relevant_functions
from ksa.interp import Interp, Client, State, HObj
from ksa.models import model_classes, model_state
from ksa.roots import root_inst, param, run_entry
from ksa.terms import T, V, C, mk, const, walk_terms
from checks.p02 import mutable_attrs, LOSSY

EXPLANATION = (
    'The driver of the command line interface is interpreted abstractly. A typestate per sweep '
    'point (kernel cleared, constants set, model built, analysed, reported) is followed through '
    'all paths of the loops over points and models; the values handed to the kernel are traced to '
    'the point being analysed, and the key under which results are stored is taken apart: it must '
    'determine point, model and every command line option, except options that provably do not '
    'flow into the results of any model. From the options to the loop over points, values, '
    'symbols and models are followed through tables and products: leaving out (slices, picking '
    'calls, conditions other than membership), replacing or altering one is a violation; ranges '
    'are followed from the matched groups of the description. Which constants are asked for is traced to the kernel '
    'parts whose free symbols they are.')
ASSUMPTIONS = [
    'names of machine and kernel file identify their content within a result file',
    'results depend on the environment (tools, hardware) only in ways no key could capture',
]
MIN = {'clean-start': 2, 'own-constants': 2, 'own-model': 3, 'every-model': 1, 'key': 10,
       'ignored-options': 4, 'every-point': 4, 'as-given': 6, 'constants-defined': 4, 'reset': 2}
KT = mk('kernelobj')
MT = mk('machineobj')
LOSING = LOSSY | {'os.path.basename', 'os.path.split', 'os.path.commonprefix'}


def driver(prog):
    """Functions that build models and store their results: the sweep driver."""
    m = prog.modules.get('kerncraft.kerncraft')
    return m.functions.get('run') if m else None


def options(prog, rep):
    """dest names of all command line options."""
    mod = prog.modules['kerncraft.kerncraft']
    dests = set()

    class OptClient(Client):
        def inline(self, fi, st, args):
            return fi.name == 'configure_arggroup' or fi.module is mod

        def call(self, it, st, node, name, fn, args, kwargs):
            if name.endswith('add_argument') and args:
                d = kwargs.get('dest')
                if d is not None:
                    dests.add(d.const(None))
                    return None
                flags = [a.const(None) for a in args if isinstance(a.const(None), str)]
                act = kwargs.get('action')
                if act is not None and any(t.op == 'cls' and 'Version' in t.args[0].name
                                           for t in act.alts) or \
                        act is not None and act.const(None) in ('version', 'help'):
                    return None
                long_ = [f for f in flags if f.startswith('--')] or flags
                if long_:
                    dests.add(long_[0].lstrip('-').replace('-', '_'))
            return None

        def on_event(self, ev):
            return False

    f = mod.functions.get('create_parser')
    rep.require(f is not None, 'create_parser not found')
    it = Interp(prog, OptClient())
    run_entry(it, State(), f, [])
    rep.seen(it)
    dests.discard(None)
    return sorted(dests)


def subterms(it, st, v, seen=None):
    """All terms of a value, looking into containers built by the code."""
    seen = set() if seen is None else seen
    todo = list(v.alts)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        for x in walk_deep(it, t):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'obj' and x.args[0] in st.heap:
                h = st.heap[x.args[0]]
                for g in h.segs:
                    todo += list(g.v.alts)
                for k, (val, _) in h.slots.items():
                    todo += list(val.alts)
                    if isinstance(k, T):
                        todo.append(k)
                if h.other:
                    todo += list(h.other[0].alts) + list(h.other[1].alts)
    return seen


def determined(it, st, v, pred):
    """Is a term satisfying pred kept (not reduced by a lossy operation) in every alternative?"""
    def keeps(t, seen):
        if isinstance(t, V):
            return bool(t.alts) and all(keeps(x, seen) for x in t.alts)
        if isinstance(t, frozenset):
            return bool(t) and all(keeps(x, seen) for x in t)
        if isinstance(t, tuple):
            return any(keeps(x, seen) for x in t)
        if not isinstance(t, T):
            return False
        if t in seen:
            return seen[t]
        seen[t] = False
        r = False
        if pred(t):
            r = True
        elif joined(t) or t.op == 'obj' and t.args[0] in st.heap and any(
                g.kind != 'opt' and len(g.v.alts) == 1 and joined(g.v.one)
                for g in st.heap[t.args[0]].segs):
            r = False
        elif t.op in ('tup', 'fmt') and halves(t, seen, keeps) or \
                t.op == 'obj' and t.args[0] in st.heap and halves_of(
                    [g.v for g in st.heap[t.args[0]].segs if g.kind != 'opt'], seen, keeps):
            r = True
        elif t.op == 'obj' and t.args[0] in st.heap:
            h = st.heap[t.args[0]]
            r = any(g.kind != 'opt' and keeps(g.v, seen) for g in h.segs) or \
                any(m and keeps(val, seen) for val, m in h.slots.values()) or \
                bool(h.other) and any(keeps(x, seen) for x in h.other)
        elif t.op == 'loopvar':
            alts = it.loopvars.get(t, ())
            r = bool(alts) and all(keeps(x, dict(seen)) for x in alts)
        elif t.op in ('call', 'mcall'):
            nm = [y for y in t.args if isinstance(y, str)]
            if not any(n in LOSING or '.' + n in LOSING for n in nm):
                r = any(keeps(x, seen) for x in t.args)
        elif t.op == 'attr':
            r = t.args[1] == 'name' and keeps(t.args[0], seen)
        elif t.op in ('cmp', 'not', 'isinstance', 'keys', 'slice', 'sub', 'item', 'const'):
            r = False
        else:
            r = any(keeps(x, seen) for x in t.args)
        seen[t] = r
        return r
    return keeps(v, {})


def joined(t):
    """Values put next to each other without a separator."""
    if not isinstance(t, T):
        return False
    if t.op == 'fmt' and isinstance(t.args[0], tuple):
        var = [isinstance(x, frozenset) and any(y.op != 'const' for y in x) or
               isinstance(x, T) and x.op != 'const' for x in t.args[0]]
        return any(a and b for a, b in zip(var, var[1:]))
    if t.op == 'join':
        return t.args[0] == '' or isinstance(t.args[0], (T, frozenset)) and any(
            x.op == 'const' and x.args[1] == '' for x in (
                t.args[0] if isinstance(t.args[0], frozenset) else [t.args[0]]))
    if t.op in ('mcall', 'call') and 'join' in t.args:
        return any(x.op == 'const' and x.args[1] == '' for a in t.args
                   for x in (a if isinstance(a, frozenset) else [a]) if isinstance(x, T))
    return False


def halves_of(vs, seen, keeps):
    """Both items of a pair that is kept."""
    got = {}
    for v in vs:
        for x in (v.alts if isinstance(v, V) else v if isinstance(v, frozenset) else [v]):
            if isinstance(x, T) and x.op == 'item':
                for i in (0, 1):
                    if item_of(x, i):
                        for b in bases(x):
                            got.setdefault(b, set()).add(i)
    return any(ix == {0, 1} and (keeps(b, seen) or b.op == 'elem' and keeps(b.args[0], seen))
               for b, ix in got.items())


def halves(t, seen, keeps):
    return isinstance(t.args[0], tuple) and halves_of(t.args[0], seen, keeps)


def recursive(fi):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == fi.name
               for x in ast.walk(fi.node))


class SweepClient(Client):
    def __init__(self, prog, opts):
        self.prog = prog
        self.opts = opts
        self.kern = prog.cls('Kernel')
        self.mach = prog.cls('MachineModel')
        self.base = prog.cls('PerformanceModel')
        self.mod = prog.modules['kerncraft.kerncraft']
        self.it = None
        # observations
        self.point_loop = None
        self.model_loops = frozenset()
        self.sets, self.builds, self.stores, self.uses = {}, {}, {}, {}
        self.elems = {}
        self.bad = {}
        self.sym = {}
        self.kernels = set()
        self.final = False
        self.points = []        # what the loop over points goes through
        self.tables = {}        # tables of values per constant
        self.left_out = {}
        self.owed = {}

    def inline(self, fi, st, args):
        return (fi.module is self.mod and fi.name not in ('create_parser', 'check_arguments') or
                fi.parent is not None) and not recursive(fi)

    def partition(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k in ('k', 'm')), frozenset(
            (t, v) for t, v in st.facts.items() if self.symbolic(st, t))

    def symbolic(self, st, t):
        """Is this a condition on free symbols of the kernel?"""
        r = self.sym.get(t)
        if r is None:
            r = self.sym[t] = isinstance(t, T) and t.op != 'in' and any(
                x.op == 'attr' and x.args[1] == 'free_symbols'
                for x in subterms(self.it, st, V(t)))
        return r

    def note(self, rule, what, it, node, msg):
        if self.final:
            self.bad.setdefault((rule, what), ('%s:%s' % (it.fn.module.path, node.lineno), msg))

    def attr(self, it, st, base, name):
        ts = base.alts if isinstance(base, V) else [base]
        if name == '__dict__' and any(t.op == 'param' and t.args[0] == 'args' for t in ts):
            return V(mk('obj', ('argsdict',)))
        if name == 'results' and any(t.op == 'modelobj' for t in ts):
            if st.ts.get('m') not in ('analyzed', 'reported'):
                self.note('own-model', 'results of another run', it, self.node_of(it),
                          'results are taken from a model that was not analysed for this point '
                          'and model selection')
        return None

    def node_of(self, it):
        class N:
            lineno = getattr(it.cstack[-1], 'lineno', 0) if it.cstack else 0
        return N

    def start(self):
        h = HObj('dict', slots={o: (V(mk('attr', mk('param', 'args'), o),
                                      frozenset([('args', o)])), True) for o in self.opts})
        return State().sethobj(('argsdict',), h)

    def is_cls(self, t, base):
        return t.op == 'cls' and base in self.prog.mro(t.args[0])

    def call(self, it, st, node, name, fn, args, kwargs):
        if fn is None:
            return None
        if name in ('vars',) and args and any(t.op == 'param' and t.args[0] == 'args'
                                              for t in args[0].alts):
            return [(st, V(mk('obj', ('argsdict',))))]
        self.picked(it, st, node, name, args)
        if self.is_cls(fn, self.kern):
            self.kernels.add(fn.args[0])
            return [(st.setts('k', 'stale'), V(KT))]
        if self.is_cls(fn, self.mach):
            return [(st, V(MT))]
        if self.is_cls(fn, self.base) or self.model_term(fn):
            self.build(it, st, node, fn, args, kwargs)
            return [(st.setts('k', 'used').setts('m', 'built'), V(mk('modelobj')))]
        if fn.op == 'attr':
            b = fn.args[0]
            short = fn.args[1]
            if b is KT:
                return self.kernel_call(it, st, node, short, args, kwargs)
            if b.op == 'modelobj':
                return self.model_call(it, st, node, short, args, kwargs)
        if name in ('analyze', '.analyze', '.report') and fn.op == 'attr':
            self.note('own-model', short_name(name), it, node,
                      'the model asked to %s is not one built for this point' % short_name(name))
        return None

    def model_term(self, fn):
        """models.<name> looked up by option value, or an entry of a table of models"""
        return fn.op in ('attr', 'call', 'item', 'elem') and any(
            x.op == 'mod' and x.args[0] == 'kerncraft.models' for x in walk_terms(fn)) and \
            not any(x.op == 'modelobj' for x in walk_terms(fn))

    def kernel_call(self, it, st, node, short, args, kwargs):
        if short == 'clear_state':
            return [(st.setts('k', 'clean'), C(None))]
        if short in ('set_constant', 'set_constants'):
            self.sets.setdefault(node, {})[self.partition(st), tuple(args)] = (
                it.fn, st, args, kwargs, st.loops)
            if st.ts.get('k') == 'stale':
                self.note('clean-start', 'constants on a used kernel', it, node,
                          'constants of a sweep point are set although the kernel was not '
                          'cleared for this point')
            if st.ts.get('k') == 'used':
                self.note('clean-start', 'constants after model', it, node,
                          'constants are set after a model for this point was built, or without '
                          'clearing the kernel')
            return [(st, C(None))]
        return None

    def build(self, it, st, node, fn, args, kwargs):
        self.builds.setdefault(node, {})[self.partition(st), fn] = (it.fn, st, fn, args, kwargs,
                                                                    st.loops)
        if st.ts.get('k') == 'stale':
            self.note('clean-start', 'model on a used kernel', it, node,
                      'a model is built although the kernel was not cleared for this sweep point')

    def model_call(self, it, st, node, short, args, kwargs):
        s = st.ts.get('m')
        if short == 'analyze':
            if s != 'built':
                self.note('own-model', 'analyze', it, node,
                          'analyze is called on a model that was not freshly built for this point'
                          ' and model selection' if s != 'analyzed' else
                          'analyze is called twice on the same model')
            self.uses[('analyze', node)] = it.fn
            return [(st.setts('m', 'analyzed'), C(None))]
        if short == 'report':
            if s != 'analyzed' and s != 'reported':
                self.note('own-model', 'report', it, node,
                          'a report is made of a model that was not analysed for this point')
            self.uses[('report', node)] = it.fn
            return [(st.setts('m', 'reported'), C(None))]
        return None

    def store(self, ev, key, v):
        self.stores[ev.node, key.alts] = (ev.func, ev.st, key, v)

    def before_points(self, st):
        return all(l[0] != self.point_loop for l in st.loops)

    def drop(self, what, it, st, node, msg):
        if self.final:
            self.left_out.setdefault((what, ''), ('%s:%s' % (it.fn.module.path, node.lineno), msg))

    def picked(self, it, st, node, name, args):
        """Calls that keep only some of the values given for a constant."""
        short = short_name(name)
        if it.fn.module is not self.mod and it.fn.parent is None:
            return
        if short in PICKING and args:
            tags = set()
            for a in args:
                tags |= origin(it, st, a)
            if tags & {'value', 'model'} or tags & {'symbols'} and self.before_points(st):
                self.drop('%s(...)' % short, it, st, node, '%s() keeps only some of the %s' % (
                    short, kinds(tags)))
        if short in ('dict', 'OrderedDict') and args and any(
                t.op == 'attr' and t.args[1] == 'define' for t in args[0].alts):
            self.drop('%s(...)' % short, it, st, node, 'a constant given several times keeps '
                      'only the values given last')
        if name == 'itertools.product' and isinstance(node, ast.Call):
            if len(node.args) != 1 or not isinstance(node.args[0], ast.Starred) or \
                    node.keywords:
                self.drop('product', it, st, node, 'the sweep is not the product of all values '
                          'of all constants')

    def filtered(self, ev):
        """Conditions on given values that do more than leave out duplicates."""
        t = ev.data['term']
        if not isinstance(t, T) or t.op in ('const', 'isinstance', 'len', 'obj', 'param', 'attr'):
            return
        it = self.it
        a, b = ev.data.get('a'), ev.data.get('b')
        tags = origin(it, ev.st, V(t))
        if t.op in ('any', 'all'):
            return          # its parts are conditions of their own
        if t.op == 'in':
            if b is None or all(x.op in ('obj', 'tup', 'attr', 'bin', 'call', 'mcall', 'elem',
                                         'item', 'param', 'keys') for x in b.alts):
                return
        if t.op == 'is' or any(x.op == 'call' and x.args[0] == 'len' for x in walk_terms(t)) and \
                not tags & {'value'}:
            return
        if t.op == 'eq' and a is not None and b is not None:
            for x, y in ((a, b), (b, a)):
                if x.const(None) == '.' and origin(it, ev.st, y) <= {'name', 'define'}:
                    return
        if 'value' in tags or 'model' in tags or 'name' in tags and self.before_points(ev.st):
            self.drop('condition', it, ev.st, ev.node, 'which %s are analysed depends on a '
                      'condition other than that they were not seen before' % kinds(tags))
        elif 'symbols' in tags and self.before_points(ev.st) and t.op in ('in', 'eq', 'lt', 'le'):
            self.drop('symbols', it, ev.st, ev.node, 'which symbols need a value depends on '
                      'how they are called or what they are')

    def on_event(self, ev):
        inmod = ev.func.module is self.mod if ev.func is not None else False
        if ev.kind == 'cond' and inmod:
            self.filtered(ev)
        if ev.kind == 'slice' and inmod:
            tags = origin(self.it, ev.st, ev.data['base'])
            if tags & {'value', 'model'} or tags & {'symbols'} and self.before_points(ev.st):
                self.drop('slice', self.it, ev.st, ev.node, 'only part of the %s is taken' %
                          kinds(tags))
        if ev.kind == 'iter' and self.final and (
                ev.data['loop'] == self.point_loop or ev.data['loop'] in self.model_loops):
            m = ev.st.ts.get('m')
            if m in ('built', 'analyzed', 'reported'):
                self.note('every-model', 'results kept', self.it, ev.node,
                          'the next model or point is turned to although results of the model '
                          'before were not stored')
        if ev.kind == 'iterate' and self.point_loop is not None and \
                self.it.site(ev.node, 'loop') == self.point_loop:
            self.points.append((ev.data['iterable'], ev.st, ev.node))
        if ev.kind == 'setitem' and inmod and self.before_points(ev.st):
            self.tables.setdefault(ev.node, []).append((ev.st, ev.data['base'], ev.data['key'],
                                                        ev.data['value']))
        if ev.kind == 'mutate' and ev.data.get('how') in ('setdefault', 'update'):
            vs = [v for v in list(ev.data.get('args') or ()) + [ev.data.get('value')]
                  if v is not None]
            if any(t.op == 'attr' and t.args[1] == 'results' and has_model(t.args[0])
                   for v in vs for t in v.alts):
                if ev.data['how'] == 'setdefault':
                    self.note('own-model', 'replaces', self.it, ev.node,
                              'results found in the file under the same key are kept instead of '
                              'the new ones')
                    self.store(ev, ev.data['args'][0], vs[-1])
                    ev.st = ev.st.setts('m', 'stored')
                    return False
            elif ev.data['how'] == 'update':
                for v in vs:
                    for t in v.alts:
                        h = ev.st.heap.get(t.args[0]) if t.op == 'obj' else None
                        if h is None or h.kind != 'dict':
                            continue
                        for k, val in [(V(k) if isinstance(k, T) else C(k), x[0])
                                       for k, x in h.slots.items()] + (
                                [h.other] if h.other else []):
                            if any(y.op == 'attr' and y.args[1] == 'results' and
                                   has_model(y.args[0]) for y in val.alts):
                                self.store(ev, k, val)
                                ev.st = ev.st.setts('m', 'stored')
                                return False
        if ev.kind == 'iter':
            if ev.data['loop'] == self.point_loop:
                ev.st = ev.st.setts('k', 'stale').setts('m', 'stale')
            elif ev.data['loop'] in self.model_loops:
                ev.st = ev.st.setts('m', 'stale')
            if ev.data['value'] is not None:
                tok = 'point' if ev.data['loop'] == self.point_loop else \
                    'model' if ev.data['loop'] in self.model_loops else None
                if tok:
                    v = ev.data['value']
                    dep = frozenset([('sweep', tok)])
                    if counting(v):
                        ev.data['value'] = v.dep(dep)
                    else:
                        e = mk('elem', frozenset([mk('sweep', tok)]))
                        if v.one is not None and v.one.op == 'tup' and len(v.one.args[0]) == 2 \
                                and counting(V(v.one.args[0][0])):
                            e = mk('tup', (v.one.args[0][0], frozenset([e])))     # enumerate
                        ev.data['value'] = V(e, v.deps | dep)
                self.elems.setdefault(ev.data['loop'], {})[self.partition(ev.st)] = (
                    ev.data['value'], ev.st)
            return False
        if ev.kind == 'setitem':
            v = ev.data.get('value')
            if v is not None and any(
                    t.op == 'attr' and t.args[1] == 'results' and has_model(t.args[0])
                    for t in v.alts):
                if ev.data.get('key') is not None:
                    self.store(ev, ev.data['key'], v)
                    ev.st = ev.st.setts('m', 'stored')
        return False


PICKING = {'next', 'min', 'max', 'zip', 'islice', 'zip_longest', 'filter', 'takewhile',
           'dropwhile', 'compress', 'sample', 'choice', 'pop', 'popitem', 'nlargest', 'nsmallest'}


def kinds(tags):
    names = {'value': 'values given for a constant', 'model': 'selected models',
             'symbols': 'symbols of the kernel', 'name': 'constants'}
    return ' or '.join(names[t] for t in sorted(tags) if t in names)


def item_of(t, i):
    if t.op != 'item' or len(t.args) < 2:
        return False
    k = t.args[1]
    return any(isinstance(x, T) and x.op == 'const' and x.args[1] == i
               for x in (k if isinstance(k, frozenset) else [k]))


def define_entry(t):
    return t.op == 'elem' and any(x.op == 'attr' and x.args[1] == 'define' for x in bases(t))


def bases(t):
    b = t.args[0]
    return [x for x in (b if isinstance(b, frozenset) else [b]) if isinstance(x, T)]


def origin(it, st, v):
    """Which of the things given by the user or the kernel is a value made from?"""
    tags = set()
    for t in subterms(it, st, v):
        if t.op == 'item' and any(define_entry(x) for x in bases(t)):
            if item_of(t, 1):
                tags.add('value')
            elif item_of(t, 0):
                tags.add('name')
            else:
                tags |= {'name', 'value'}
        elif t.op == 'attr' and t.args[1] == 'pmodel' and any(
                x.op == 'param' for x in bases(t)):
            tags.add('model')
        elif t.op == 'attr' and t.args[1] == 'define' and any(x.op == 'param' for x in bases(t)):
            tags.add('define')
        elif t is KT:
            tags.add('symbols')
    return tags


def counting(v):
    """Is this loop over indices rather than elements?"""
    return bool(v.alts) and all(
        t.op == 'idx' or t.op == 'const' and isinstance(t.args[1], int) or
        t.op == 'elem' and any(x.op == 'call' and x.args[0] == 'range' for x in walk_terms(t))
        for t in v.alts)


def has_model(x):
    if isinstance(x, T):
        return x.op == 'modelobj'
    if isinstance(x, (frozenset, tuple)):
        return any(has_model(y) for y in x)
    return False


def short_name(n):
    return n.split('.')[-1]


def facts_of(st):
    return set(st.facts.items())


HARMLESS = {'verbose'}


def conditional(it, inner, outers):
    """Conditions that hold at inner but not yet at outer (entry of the iteration)."""
    return min((relevant(facts_of(inner) - facts_of(o)) for o in outers), key=len)


def relevant(new):
    out = []
    for t, v in new:
        if not isinstance(t, T):
            continue
        names = {x.args[1] for x in walk_terms(t) if x.op == 'attr' and isinstance(
            x.args[0], T) and x.args[0].op == 'param'}
        if names and names <= HARMLESS:
            continue
        if all(x.op in ('in', 'eq', 'lt', 'is', 'cmp', 'not', 'const', 'tup')
               for x in walk_terms(t)):
            continue      # decided
        # being in a loop over something: not empty
        if t.op in ('elem', 'param', 'obj') or t.op in ('lt', 'le', 'eq') and any(
                x.op == 'call' and x.args[0] == 'len' for x in walk_terms(t)):
            continue
        out.append((t, v))
    return out


def run(prog, rep, tier):
    rep.rule('clean-start', 'per sweep point the kernel is cleared before its constants are set '
             'and before models are built')
    rep.rule('own-constants', 'exactly the constants of the point are set, unconditionally')
    rep.rule('own-model', 'a model is built for this point and kernel, analysed once, then '
             'reported, then its results are taken')
    rep.rule('every-model', 'no selected model is skipped')
    rep.rule('every-point', 'the sweep goes through all combinations of all values given for all '
             'constants the kernel needs')
    rep.rule('as-given', 'a description of values stands for exactly the values it names')
    rep.rule('key', 'the key of stored results determines point, model and option')
    rep.rule('ignored-options', 'options missing in the key do not influence results')
    rep.rule('constants-defined', 'analysis starts only after checking that every symbol of the '
             'kernel has a value')
    rep.rule('reset', 'clearing a kernel resets everything set since construction')
    f = driver(prog)
    rep.require(f is not None, 'driver function run() not found')
    opts = options(prog, rep)
    rep.require(len(opts) >= 10, 'only %d command line options found' % len(opts))
    rep.count('options', len(opts))
    c = SweepClient(prog, opts)
    for pass_ in (0, 1):
        c.final = pass_ == 1
        c.bad = {}
        c.sets, c.builds, c.stores, c.uses, c.elems = {}, {}, {}, {}, {}
        c.left_out, c.tables, c.points = {}, {}, []
        it = Interp(prog, c)
        c.it = it
        ends, _ = run_entry(it, c.start(), f, [param(p) for p in f.params])
        if not pass_:
            rep.require(c.builds, 'no construction of a performance model found in run()')
            if c.sets:
                l0 = [list(s.values())[0][-1] for s in c.sets.values()][0]
                c.point_loop = l0[0][0] if l0 else None
            b0 = [list(b.values())[0][-1] for b in c.builds.values()][0]
            c.model_loops = frozenset(l[0] for l in b0) - {c.point_loop}
    rep.seen(it)
    rep.require(c.sets, 'no constants are set on the kernel in run()')
    rep.require(c.point_loop is not None, 'the loop over sweep points was not found')
    rep.require(c.stores, 'results are not stored under a key in run()')
    for (rule, what), (where, msg) in sorted(c.bad.items()):
        rep.bad(rule, what, where, msg)
    badrules = {r for r, _ in c.bad}
    if 'clean-start' not in badrules:
        rep.ok('clean-start', 'constants', len(c.sets))
        rep.ok('clean-start', 'models', len(c.builds))
    if 'own-model' not in badrules:
        rep.ok('own-model', 'analyze, report, results', len(c.uses) + len(c.stores))
    rep.check(any(k[0] == 'analyze' for k in c.uses), 'own-model', 'analysed', f.qual,
              'models are built but never analysed')
    # constants of the point
    pes = list(c.elems.get(c.point_loop, {}).values())
    rep.require(pes, 'elements of the sweep loop unknown')
    pterms = {mk('elem', frozenset([mk('sweep', 'point')]))}
    mterms = {mk('elem', frozenset([mk('sweep', 'model')]))}
    psts = [s for _, s in pes]

    by_index = any(counting(v) for lp in [c.point_loop] + list(c.model_loops)
                   for v, _ in c.elems.get(lp, {}).values())

    def stems(v, st, terms, tok):
        if by_index:
            return ('sweep', tok) in it.deep_deps(st, v)
        return all(any(x in terms for x in walk_deep(it, t)) for t in v.alts)

    def keeps(v, st, terms, tok):
        if determined(it, st, v, lambda t: t in terms):
            return True
        return by_index and ('sweep', tok) in it.deep_deps(st, v)

    every_point(rep, it, c, f)
    for node, (fn, st, args, kw, loops) in [(n, b) for n, bs in c.sets.items()
                                            for b in bs.values()]:
        where = '%s:%s' % (fn.module.path, node.lineno)
        for i, nm in ((0, 'name'), (1, 'value')):
            v = arg(args, kw, i, nm)
            ok = v is not None and stems(v, st, pterms, 'point')
            rep.check(ok, 'own-constants', '%s of a constant' % nm, where,
                      'the %s given to the kernel does not (only) come from the sweep point being '
                      'analysed' % nm)
            alt = v is not None and altered(it, st, v)
            rep.check(not alt, 'own-constants', '%s unaltered' % nm, where,
                      'the %s given to the kernel is not that of the sweep point itself (%s)' % (
                          nm, alt))
        cond = conditional(it, st, psts)
        rep.check(not cond, 'own-constants', 'set unconditionally', where,
                  'whether a constant of the point is set depends on a condition')
    # models
    for node, (fn, st, ft, args, kw, loops) in [(n, b) for n, bs in c.builds.items()
                                                  for b in bs.values()]:
        where = '%s:%s' % (fn.module.path, node.lineno)
        given = set()
        for a in list(args) + list(kw.values()):
            given |= a.alts
        rep.check(KT in given and MT in given and mk('param', 'args') in given, 'own-model',
                  'built from kernel, machine and options', where,
                  'the model is not given the kernel, machine and options of this run')
        cond = conditional(it, st, psts)
        rep.check(not cond, 'every-model', 'built unconditionally', where,
                  'whether a model is applied to a point depends on a further condition')
        defined(rep, it, st, where)
    # result key
    ignored = {}
    for (node, _), (fn, st, key, val) in c.stores.items():
        where = '%s:%s' % (fn.module.path, node.lineno)
        rep.check(not conditional(it, st, psts), 'every-model', 'results stored unconditionally',
                  where, 'whether results of a model and point are stored depends on a further '
                  'condition')
        rep.check(keeps(key, st, pterms, 'point'), 'key', 'sweep point', where,
                  'results of different sweep points are stored under the same key')
        rep.check(keeps(key, st, mterms, 'model'), 'key', 'model', where,
                  'results of different models are stored under the same key')
        for o in opts:
            if o in ('define', 'pmodel'):
                continue
            pa = mk('attr', mk('param', 'args'), o)
            if determined(it, st, key, lambda t: t is pa):
                rep.ok('key', 'option %s' % o)
            else:
                ignored[o] = where
    influence(prog, rep, ignored)
    reset(prog, rep, c.kernels)
    stored_constants(prog, rep, c.kernels)
    descriptions(prog, rep)
    whole(prog, rep)


SAME_VALUE = {'int', 'str', 'symbol_pos_int', 'Symbol', 'Integer', 'sympify', 'format', 'tuple',
              'list'}


def altered(it, st, v):
    """Operations between the sweep point and the value given to the kernel."""
    bad, todo, seen = set(), list(v.alts), set()
    while todo:
        x = todo.pop()
        if x in seen or isinstance(x, T) and x.op == 'elem':
            continue
        seen.add(x)
        if isinstance(x, (V, frozenset, tuple)):
            todo += list(x.alts if isinstance(x, V) else x)
        elif isinstance(x, T):
            todo += list(x.args)
            if x.op in ('bin', 'un', 'slice', 'ife', 'max', 'min', 'cmp', 'filtered'):
                bad.add(x.op)
            elif x.op in ('call', 'mcall'):
                nm = [short_name(y) for y in x.args if isinstance(y, str)][:1]
                if nm and nm[0] not in SAME_VALUE | {'items', 'keys', 'values', 'product',
                                                     'enumerate', 'iter'}:
                    bad.add(nm[0])
    return ', '.join(sorted(bad))


def every_point(rep, it, c, f):
    """The product of all values of all constants, nothing else."""
    for (what, _), (where, msg) in sorted(c.left_out.items()):
        rep.bad('every-point', what, where, msg)
    if not c.left_out:
        rep.ok('every-point', 'no value, model or symbol left out')
    given = set()
    for v, st, node in c.points:
        where = '%s:%s' % (f.module.path, node.lineno)
        for t in v.alts:
            h = st.heap.get(t.args[0]) if t.op == 'obj' else None
            rep.check(h is None or h.kind not in ('list', 'tuple', 'set') or h.segs or h.other,
                      'every-point', 'not empty', where, 'there is a way into the sweep on which '
                      'no point at all is analysed')
        terms = subterms(it, st, v)
        for t in terms:
            if t.op == 'call' and t.args[0] == 'itertools.product':
                given |= {x for x in subterms(it, st, V(t)) if x.op == 'obj'}
    for node, uses in sorted(c.tables.items(), key=lambda k: k[0].lineno):
        where = '%s:%s' % (f.module.path, node.lineno)
        for st, base, key, val in uses:
            if 'value' not in origin(it, st, val):
                continue
            tab = {x for x in base.alts if x.op == 'obj'}
            rep.check(not given or any(x in given for x in val.alts), 'every-point',
                      'part of the product', where, 'values given for a constant do not become '
                      'part of the sweep')
            # values gathered before must not be replaced
            old = any(x in tab for x in subterms(it, st, val))
            fresh = any(t.op == 'in' and not held and set(t.args[1] if isinstance(
                t.args[1], frozenset) else [t.args[1]]) & tab
                for t, held in implied(st.facts) if len(t.args) > 1)
            filled = False
            for o in tab:
                h = st.heap.get(o.args[0])
                if h is None:
                    continue
                ks = set()
                if h.other:
                    ks |= h.other[0].alts
                ks |= {k for k in h.slots if isinstance(k, T)}
                mine = kind_of_key(it, st, key)
                filled |= any(mine == 'name' or kind_of_key(it, st, V(k)) != mine for k in ks)
            inloop = kind_of_key(it, st, key) == 'name'
            rep.check(old or fresh or not filled and not inloop, 'every-point',
                      'values are added', where, 'values given for a constant replace those '
                      'given for it before')
            pairs(rep, it, st, val, where)


def kind_of_key(it, st, key):
    return 'name' if 'name' in origin(it, st, key) else 'symbol'


def pairs(rep, it, st, val, where):
    """[name, value] pairs hold name and value as given."""
    seen = set()
    todo = [t for t in val.alts]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        items = None
        if t.op == 'tup':
            items = [V(x) if not isinstance(x, (V, frozenset)) else V(x) for x in t.args[0]]
        elif t.op == 'obj' and t.args[0] in st.heap:
            h = st.heap[t.args[0]]
            if len(h.segs) == 2 and all(g.kind == 'one' for g in h.segs):
                items = [g.v for g in h.segs]
            else:
                for g in h.segs:
                    todo += list(g.v.alts)
        if items is None or len(items) != 2:
            continue
        n, v = items
        ok = all(x.op == 'elem' for x in v.alts) and not altered(it, st, v)
        if 'value' in origin(it, st, v):
            rep.check(ok, 'every-point', 'value of a pair', where,
                      'a point does not get the value as it was given (%s)' % (
                          altered(it, st, v) or 'made from it'))
            rep.check(not altered(it, st, n), 'every-point', 'name of a pair', where,
                      'a point does not get the name as it was given (%s)' % altered(it, st, n))


def defined(rep, it, st, where):
    """Facts at model construction: all free symbols of the kernel have values."""
    want = {'array sizes': ('variables',), 'loop bounds': ('start', 'stop'),
            'read indices': ('sources',), 'written indices': ('destinations',)}
    got = set()
    any_check = False
    for t, v in implied(st.facts):
        names = set()
        for x in subterms(it, st, V(t)):
            if x.op == 'attr':
                names.add(x.args[1])
            elif x.op in ('call', 'mcall'):
                names |= {y for y in x.args if isinstance(y, str)}
            elif x.op == 'const' and x.args[1] in ('start', 'stop'):
                names.add(x.args[1])
        names = {n.split('.')[-1] for n in names}
        if 'free_symbols' not in names or (v and t.op not in ('not', 'cmp', 'all')):
            continue
        any_check = True
        for k, ws in want.items():
            if k == 'loop bounds' and names >= set(ws) or k != 'loop bounds' and \
                    names & set(ws):
                got.add(k)
    if not any_check:
        # the check may have been passed on two branches (nothing required / all given)
        pass
    for k in sorted(want):
        rep.check(k in got, 'constants-defined', k, where,
                  'a model is built without having established that all symbols in %s of the '
                  'kernel have a value' % k)


def through_kernel(prog):
    """Options read by machine and kernel on behalf of models: option -> functions using it."""
    out = {}
    for m in ('kerncraft.machinemodel', 'kerncraft.kernel'):
        for ci in prog.modules[m].classes.values():
            for fi in ci.methods.values():
                for x in ast.walk(fi.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and \
                            x.value.attr == '_args' and x.attr not in HARMLESS:
                        out.setdefault(x.attr, set()).add(fi.name)
    return {o: relevant_functions(prog, fs) | fs for o, fs in out.items()}


def influence(prog, rep, ignored):
    indirect = through_kernel(prog)
    for ci in model_classes(prog):
        if prog.find_method(ci, 'analyze') is None:
            continue
        deps = results_deps(prog, rep, ci)
        words = set()
        for k in prog.mro(ci):
            for fi in k.methods.values():
                words |= {x.attr for x in ast.walk(fi.node) if isinstance(x, ast.Attribute)}
        for o, where in sorted(ignored.items()):
            rep.check(('args', o) not in deps and ('model', '_args.' + o) not in deps and
                      not words & indirect.get(o, set()),
                      'ignored-options', '%s in %s' % (o, ci.name), where,
                      'results of %s depend on option %s, which is not part of the key they are '
                      'stored under' % (ci.name, o), sample='%s not in results of %s' % (
                          o, ci.name))


class ResultClient(Client):
    def __init__(self):
        self.deps = frozenset()
        self.it = None

    def inline(self, fi, st, args):
        return True

    def on_event(self, ev):
        if ev.kind in ('setattr', 'setitem', 'mutate', 'augassign'):
            b = ev.data.get('target') if ev.kind in ('mutate', 'augassign') else \
                ev.data.get('base')
            hit = ev.kind == 'setattr' and ev.data.get('name') == 'results'
            if not hit and b is not None:
                hit = any(x.op == 'attr' and x.args[1] == 'results' for t in b.alts
                          for x in walk_terms(t))
                for oid, h in ev.st.heap.items():
                    s = h.slots.get('results') if h.kind == 'inst' else None
                    if s and s[0].alts & b.alts:
                        hit = True
            if hit:
                self.deps |= ev.st.pc
        return False


def results_deps(prog, rep, ci):
    c = ResultClient()
    deps = frozenset()
    sts, it0 = model_state(prog, ci)
    if it0 is not None:
        rep.seen(it0)
    for st, sv in sts:
        it = Interp(prog, c)
        c.it = it
        res, _ = run_entry(it, st, prog.find_method(ci, 'analyze'), [sv])
        rep.seen(it)
        for s, _ in res:
            h = s.heap.get(('root', 'model'))
            r = h.slots.get('results') if h else None
            if r:
                deps |= it.deep_deps(s, r[0])
    return deps | c.deps


def reset(prog, rep, kernels):
    for ci in sorted(kernels, key=lambda k: k.name):
        fi = prog.find_method(ci, 'clear_state')
        if fi is None:
            continue
        late = mutable_attrs(prog, ci)
        if not late:
            continue

        class Cl(Client):
            def inline(self, f, st, args):
                return f.cls is not None

            def on_event(self, ev):
                return False
        it = Interp(prog, Cl())
        st, sv = root_inst(State(), ci, 'self')
        res, _ = run_entry(it, st, fi, [sv])
        rep.seen(it)
        for a in sorted(late):
            ok = bool(res)
            for s, _ in res:
                slot = s.heap[('root', 'self')].slots.get(a)
                if slot is None or not slot[1]:
                    ok = False
                    continue
                if any(d[0] == 'self' for d in it.deep_deps(s, slot[0])):
                    ok = False
            rep.check(ok, 'reset', '%s.%s' % (ci.name, a), '%s:%s' % (fi.module.path,
                                                                     fi.node.lineno),
                      'clear_state of %s leaves %s as a previous sweep point set it' % (
                          ci.name, a))


def stored_constants(prog, rep, kernels):
    """set_constant keeps the value given, whatever was there before."""
    for ci in sorted(kernels, key=lambda k: k.name):
        fi = prog.find_method(ci, 'set_constant')
        if fi is None or len(fi.params) < 3:
            continue
        given = mk('param', fi.params[2])

        class Cl(Client):
            def inline(self, f, st, args):
                return f.cls is not None

            def on_event(self, ev):
                if ev.kind == 'setitem' and ev.data.get('value') is not None and \
                        ev.data['value'].alts == {given} and about(ev.data['base']):
                    ev.st = ev.st.setts('set', True)
                elif ev.kind == 'mutate' and ev.data.get('how') == 'update' and about(
                        ev.data['target']):
                    ev.st = ev.st.setts('set', True)
                return False

            def partition(self, st):
                return st.ts.get('set')

        def about(v):
            return any(x.op == 'attr' and 'const' in str(x.args[1]) or x.op == 'obj'
                       for t in v.alts for x in walk_terms(t))
        it = Interp(prog, Cl())
        st, sv = root_inst(State(), ci, 'self')
        res, _ = run_entry(it, st, fi, [sv] + [param(p) for p in fi.params[1:]])
        rep.seen(it)
        rep.check(bool(res) and all(s.ts.get('set') for s, _ in res), 'own-constants',
                  '%s.set_constant' % ci.name, '%s:%s' % (fi.module.path, fi.node.lineno),
                  'there is a way through set_constant on which the value given is not kept')


def call_args(t):
    """Arguments of a call term: lists of alternatives."""
    rest = t.args[1] if len(t.args) > 1 and isinstance(t.args[1], tuple) else t.args[1:]
    out = []
    for x in rest:
        while isinstance(x, tuple) and len(x) == 1:
            x = x[0]
        out.append(list(x) if isinstance(x, frozenset) else [x])
    return [[y for y in x if isinstance(y, T)] for x in out]


def group_of(t):
    """Name of the group of a matched description a term stands for (through int())."""
    while t.op == 'call' and t.args[0] == 'int':
        inner = call_args(t)
        if len(inner) != 1 or len(inner[0]) != 1:
            return None
        t = inner[0][0]
    if t.op == 'item' and len(t.args) > 1:
        k = t.args[1]
        ks = list(k) if isinstance(k, frozenset) else [k]
        if len(ks) == 1 and isinstance(ks[0], T) and ks[0].op == 'const' and isinstance(
                ks[0].args[1], str):
            return ks[0].args[1]
    if t.op == 'mcall' and 'group' in [a for a in t.args if isinstance(a, str)] or \
            t.op == 'call' and isinstance(t.args[0], str) and t.args[0].endswith('.group'):
        for x in walk_terms(t):
            if x.op == 'const' and isinstance(x.args[1], str) and '(?P' not in x.args[1]:
                return x.args[1]
    return None


class DescriptionClient(Client):
    def __init__(self, prog, names):
        self.prog = prog
        self.names = names
        self.calls_st = {}
        self.lists, self.calls, self.added, self.shared, self.match = [], {}, [], [], {}
        self.it = None

    def inline(self, fi, st, args):
        return not fi.is_generator and not recursive(fi)

    def partition(self, st):
        return st.ts.get('added'), frozenset((t, v) for t, v in st.facts.items()
                                             if any(group_of(x) for x in walk_terms(t)))

    def call(self, it, st, node, name, fn, args, kwargs):
        if short_name(name) in ('match', 'fullmatch', 'search'):
            self.match[node] = (name, fn, args)
        if isinstance(fn, T) and fn.op == 'func' and fn.args[0].is_generator:
            t = mk('series', fn.args[0].name, len(self.calls))
            self.calls_st.setdefault(t, []).append(st)
            self.calls[t] = (fn.args[0], args, kwargs, node, it.fn)
            return [(st, V(t))]
        return None

    def on_event(self, ev):
        if ev.kind == 'setitem' and ev.data.get('key') is not None and \
                ev.data['key'].const(None) == 1 and any(
                    x.op == 'param' for x in ev.data['base'].alts):
            self.lists.append((ev.data['value'], ev.st, ev.where))
        vs = ev.data.get('value')
        if ev.kind == 'setattr' and any(x.op == 'param' and x.args[0] == self.names[1]
                                        for x in ev.data['base'].alts):
            self.added.append((vs, ev.st, ev.where))
            ev.st = ev.st.setts('added', True)
        elif ev.kind in ('mutate', 'augassign') and any(
                x.op == 'param' and x.args[0] == self.names[1] for t in ev.data['target'].alts
                for x in walk_terms(t) if not (t.op == 'obj')):
            self.shared.append(ev.where)
            ev.st = ev.st.setts('added', True)
        return False


def descriptions(prog, rep):
    """Descriptions of values (-D): 5, 5-9, 5-50:4, 5-50:4log2."""
    mod = prog.modules['kerncraft.kerncraft']
    for ci in mod.classes.values():
        fi = ci.methods.get('__call__')
        if fi is None or len(fi.params) < 4:
            continue
        c = DescriptionClient(prog, fi.params[1:])
        it = Interp(prog, c)
        c.it = it
        st, sv = root_inst(State(), ci, 'self')
        res, _ = run_entry(it, st, fi, [sv] + [param(p) for p in fi.params[1:]])
        if not c.match:
            continue
        rep.seen(it)
        home = '%s:%s' % (fi.module.path, fi.node.lineno)
        for name, fn, args in c.match.values():
            pats = [x.args[1] for v in list(args) + [V(fn)] for t in v.alts
                    for x in walk_terms(t) if x.op == 'const' and isinstance(x.args[1], str) and
                    '(?P' in x.args[1]]
            if pats:
                rep.check(short_name(name) == 'fullmatch' or all(
                    p.endswith(('$', '\\Z')) for p in pats) and short_name(name) == 'match',
                    'as-given', 'whole description', home,
                    'only the beginning of a description of values has to be understood, the '
                    'rest is ignored')
        for v, s, where in c.lists:
            series(rep, it, c, v, s, where)
        rep.check(bool(res) and all(s.ts.get('added') for s, _ in res), 'as-given',
                  'every description added', home, 'there is a way on which the values of a '
                  'description are not added to those to be analysed')
        rep.check(not c.shared, 'as-given', 'default unchanged', (c.shared or [home])[0],
                  'values are added to the list found in the namespace, which is the default '
                  'shared by all runs of the parser')
        for v, s, where in c.added:
            ts = subterms(it, s, v)
            vals = mk('param', fi.params[3])
            new = any(t is vals for t in ts)
            old = any(t.op == 'elem' and any(x.op == 'param' and x.args[0] == fi.params[2]
                                             for x in walk_terms(t)) for t in ts)
            gone = any(t.op in ('call', 'noattr') and not held and 'hasattr' in t.args
                       for t, held in implied(s.facts))
            rep.check(new and (old or gone), 'as-given', 'added to those before', where,
                      'values of one description replace those given before, or are left out')


def fact_on(st, grp):
    """True: the group is known to be given, False: known to be absent, None: unknown."""
    for t, held in implied(st.facts):
        if group_of(t) == grp:
            return held
        if t.op == 'is' and any(group_of(x) == grp for x in walk_terms(t)):
            return not held
    return None


def series(rep, it, c, v, st, where):
    for t in v.alts:
        h = st.heap.get(t.args[0]) if t.op == 'obj' else None
        if h is None:
            continue
        for g in h.segs:
            for x in g.v.alts:
                if group_of(x) is not None:
                    rep.check(group_of(x) == 'start' and x.op == 'call' and g.kind == 'one',
                              'as-given', 'single value', where, 'a single value is not taken '
                              'as it is given')
                    rep.check(fact_on(st, 'stop') is False, 'as-given', 'single value only',
                              where, 'a range of values is reduced to one value')
                elif x.op != 'elem' and any(group_of(z) for z in walk_terms(x)):
                    rep.bad('as-given', 'single value', where, 'a single value is not taken as '
                            'it is given')
                elif x.op == 'elem' and any(y.op == 'call' and y.args[0] == 'range'
                                            for y in bases(x)):
                    r = [y for y in bases(x) if y.op == 'call'][0]
                    a = call_args(r)
                    ok = len(a) == 2 and len(a[0]) == 1 and group_of(a[0][0]) == 'start'
                    if ok:
                        b = a[1][0]
                        ok = len(a[1]) == 1 and b.op == 'bin' and str(b.args[0]) in ('Add', '+') \
                            and plus_one(b)
                    rep.check(ok, 'as-given', 'range', where, 'a range start-stop does not stand '
                              'for all values from start to stop')
                    rep.check(fact_on(st, 'num') is False and fact_on(st, 'stop') is True,
                              'as-given', 'range only', where, 'the number of values that was '
                              'asked for is ignored')
                elif x.op == 'elem' and any(y.op == 'series' for y in bases(x)):
                    y = [y for y in bases(x) if y.op == 'series'][0]
                    fi, args, kw, node, fn = c.calls[y]
                    vals = dict(zip(fi.params, args))
                    vals.update(kw)
                    got = {k: {group_of(z) for z in a.alts} - {None} for k, a in vals.items()}
                    flat = [next(iter(z)) for z in got.values() if len(z) == 1]
                    need = ['start', 'stop', 'num']
                    order = [p for p in fi.params if p in got and got[p] & set(need)]
                    ok = [next(iter(got[p])) for p in order] == need and all(
                        p == next(iter(got[p])) for p in order if p in need)
                    rep.check(ok, 'as-given', 'spaced values', where, 'spaced values are not '
                              'made from start, stop and number as given')
                    for nm in ('log', 'base'):
                        known = c.calls_st[y] and [fact_on(q, nm) for q in c.calls_st[y]][0]
                        used = any(group_of(z) == nm for k, a in vals.items() for q in a.alts
                                   for z in walk_terms(q)) or known is False or \
                            nm == 'log' and known and any(
                                a.const(None) is True for a in vals.values())
                        rep.check(used, 'as-given', 'spaced values %s' % nm, where,
                                  'the %s given with a range is ignored' % nm)


def plus_one(b):
    got = set()
    for a in b.args[1:]:
        for x in (a if isinstance(a, frozenset) else [a]):
            got.add(x.args[1] if x.op == 'const' else group_of(x))
    return got == {1, 'stop'}


class WholeClient(Client):
    def __init__(self, fi):
        self.fi = fi
        self.cuts = {}
        self.single = []

    def inline(self, fi, st, args):
        return False

    def on_event(self, ev):
        if ev.kind == 'slice':
            lo, hi = ev.data['lo'].const('?'), ev.data['hi'].const('?')
            self.cuts.setdefault(statement(self.fi, ev.node), {}).setdefault(
                ev.data['base'].alts, set()).add((lo or 0, hi))
        return False


def statement(fi, node):
    best = None
    for s in ast.walk(fi.node):
        if isinstance(s, ast.stmt) and s is not fi.node and any(x is node for x in ast.walk(s)):
            if not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                best = s
    return getattr(best, 'lineno', 0)


def whole(prog, rep):
    """Nested containers are taken over as a whole."""
    mod = prog.modules['kerncraft.kerncraft']
    for fi in mod.functions.values():
        if not recursive(fi):
            continue
        c = WholeClient(fi)
        it = Interp(prog, c)
        run_entry(it, State(), fi, [param(p) for p in fi.params])
        rep.seen(it)
        ok = True
        line = fi.node.lineno
        for ln, by in c.cuts.items():
            for base, iv in by.items():
                pos = 0
                while pos is not None:
                    nx = [hi for lo, hi in iv if lo == pos]
                    if not nx:
                        break
                    pos = None if None in nx else max(nx) if all(
                        isinstance(x, int) and x > pos for x in nx) else -1
                if pos is not None:
                    ok, line = False, ln
        rep.check(ok, 'key', '%s takes all' % fi.name, '%s:%s' % (fi.module.path, line),
                  '%s leaves out part of what it converts: different settings get the same key' %
                  fi.name)
