"""P17: whatever a finished analysis leaves behind, its report can be printed from it."""
import ast
import string

from ksa.interp import Interp, Client
from ksa.models import model_classes, model_state
from ksa.roots import param, run_entry
from ksa.terms import T, V, mk, show

EXPLANATION = (
    'Each performance model is constructed for an arbitrary kernel, machine and options, its '
    'analysis is interpreted abstractly to the end, and from every state it can leave behind its '
    'report is interpreted. Every figure the report takes out of a record must have been put there '
    'on all paths of the analysis (or be guarded by a test for it, or by the condition under which '
    'it was recorded); records indexed by an option must have an entry for every choice of that '
    'option; every attribute used must have been set; and every placeholder of a text must be '
    'given a value.')
ASSUMPTIONS = [
    'a machine has at least one memory level and a kernel at least one loop',
    'records returned by the predictors, the machine description and external programs are not '
    'modelled here',
]
MIN = {'recorded': 40, 'choices': 8, 'placeholders': 0}
OWN = {'prefixedunit', 'kernel', 'machinemodel', 'cacheprediction', 'incore_model', 'iaca_get',
       'kerncraft', 'standalone_pheno'}
ABRUPT = (ast.Continue, ast.Break, ast.Return)


class ReportClient(Client):
    def __init__(self, prog, label, choices, obls, sets):
        self.prog = prog
        self.label = label
        self.choices = choices
        self.obls = obls
        self.sets = sets             # (record, key) -> [(function, node, chain)]
        self.reporting = False
        self.it = None

    def inline(self, fi, st, args):
        return fi.parent is not None or fi.module.name.split('.')[-1] not in OWN

    def obl(self, rule, what, where, ok, msg):
        k = (rule, '%s: %s' % (self.label, what), where)
        cur = self.obls.get(k)
        if cur is None or cur[0]:
            self.obls[k] = (ok, msg)

    # ---- placeholders
    def call(self, it, st, node, name, fn, args, kwargs):
        if fn is None or name.split('.')[-1] != 'format' or not isinstance(node, ast.Call):
            return None
        base = fn.args[0] if fn.op in ('attr', 'bmeth') else None
        if isinstance(base, T) and base.op == 'const' and isinstance(base.args[1], str):
            self.template(it, st, node, base.args[1], args, kwargs)
        return None

    def template(self, it, st, node, text, args, kwargs):
        where = '%s:%s' % (it.fn.module.path if it.fn else '?', node.lineno)
        try:
            fields = list(fields_of(text))
        except ValueError as e:
            self.obl('placeholders', 'text %r' % text[:30], where, False,
                     'the text %r cannot be formatted: %s' % (text[:60], e))
            return
        star = any(isinstance(a, ast.Starred) for a in node.args)
        auto = 0
        keys, opened = set(kwargs), False
        for k in node.keywords:
            if k.arg is None:
                given = self.names(it, st, k.value)
                if given is None:
                    opened = True
                else:
                    keys |= given
        for f in fields:
            if f == '':
                ok, what = star or auto < len(args), 'value %d' % auto
                auto += 1
            elif f.isdigit():
                ok, what = star or int(f) < len(args), 'value %s' % f
            else:
                ok, what = opened or f in keys, 'value named %r' % f
            self.obl('placeholders', '%s of %r' % (what, text[:30]), where, ok,
                     'the text %r needs a %s that is not given' % (text[:60], what))

    def names(self, it, st, n):
        """Names given by **n, None if unknown."""
        if isinstance(n, ast.DictComp):
            g = n.generators[0]
            if len(n.generators) != 1 or g.ifs or not isinstance(n.key, ast.Name):
                return None
            src, first = g.iter, g.target
            if isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and \
                    src.func.attr == 'items' and isinstance(first, ast.Tuple):
                src, first = src.func.value, first.elts[0]
            if not isinstance(first, ast.Name) or first.id != n.key.id:
                return None
            n = src
        out = None
        for _, v in it.ev(n, st):
            for t in v.alts:
                if t.op == 'const' and t.args[1] is None:
                    continue         # guarded elsewhere
                h = st.heap.get(t.args[0]) if t.op == 'obj' else None
                if h is None or h.kind != 'dict' or h.root is not None or h.other is not None:
                    return None
                ks = {k for k, (_, must) in h.slots.items() if must and isinstance(k, str)}
                out = ks if out is None else out & ks
        return out

    # ---- records
    def on_event(self, ev):
        if ev.st is None:
            return False
        if ev.kind == 'setitem':
            k = ev.data['key'].const('?')
            for t in ev.data['base'].alts:
                if t.op == 'obj' and isinstance(k, str):
                    self.sets.setdefault((t.args[0], k), []).append(
                        (self.it.fn, ev.node, list(zip(self.it.fstack, self.it.cstack[1:]))))
        elif ev.kind == 'getitem' and self.reporting:
            self.taken(ev)
        elif ev.kind == 'noattr' and self.reporting:
            self.obl('recorded', 'attribute %s' % ev.data['name'], ev.where, False,
                     'the attribute %s is used, but never set' % ev.data['name'])
        return False

    def attr(self, it, st, base, name):
        if not self.reporting:
            return None
        for t in base.alts:
            if t.op != 'obj' or t.args[0] not in st.heap:
                continue
            h = st.heap[t.args[0]]
            if h.kind == 'inst' and h.root is None and name in h.slots:
                ok = h.slots[name][1] or getattr(h.cls, 'module', None) is None or \
                    self.prog.find_method(h.cls, name) is not None or \
                    self.prog.find_class_attr(h.cls, name) is not None
                self.obl('recorded', 'attribute %s' % name, it.fn.module.path if it.fn else '?',
                         ok, 'the attribute %s is not set on all paths of the analysis' % name)
        return None

    def taken(self, ev):
        key = ev.data['key']
        kc = key.const('?')
        for t in sorted(ev.data['base'].alts):
            if t.op != 'obj' or t.args[0] not in ev.st.heap:
                continue
            h = ev.st.heap[t.args[0]]
            if h.kind != 'dict' or h.root is not None or h.other is not None:
                continue
            names = {k for k, (v, must) in h.slots.items() if isinstance(k, str)}
            if isinstance(kc, str) and kc != '?':
                if kc in h.slots and h.slots[kc][1]:
                    ok = True
                elif kc in h.slots:
                    ok = self.guarded(ev, t, kc) or self.always(t, kc) or self.same_test(ev, t, kc)
                else:
                    ok = False
                self.obl('recorded', 'figure %r' % kc, ev.where, ok,
                         'the report takes %r, which is %s by the analysis (recorded: %s)' % (
                             kc, 'recorded on some paths only' if kc in names else 'not recorded',
                             ', '.join(sorted(names))[:120]))
                continue
            opt = option(key)
            if opt in self.choices and names:
                gone = [c for c in self.choices[opt] if c not in h.slots]
                excluded = {c for c in gone if self.excluded(ev.st, key, c)}
                gone = [c for c in gone if c not in excluded]
                self.obl('choices', 'entry for every choice of --%s' % opt, ev.where, not gone,
                         'the record indexed by --%s has no entry for %s (it has %s)' % (
                             opt, ', '.join(gone), ', '.join(sorted(names))))

    def excluded(self, st, key, c):
        """Is the choice c ruled out here by a comparison?"""
        for k, val in st.facts.items():
            if isinstance(k, T) and k.op == 'eq' and not val and any(
                    y.op == 'const' and y.args[1] == c for a in k.args if isinstance(a, frozenset)
                    for y in a):
                return True
        return False

    def guarded(self, ev, t, kc):
        """A test "key in record" holds here."""
        mine = {(fn, frozenset(tests(fn.node, n)))
                for fn, n, _ in self.sets.get((t.args[0], kc), ()) if fn is not None}
        for k, val in ev.st.facts.items():
            if not (isinstance(k, T) and k.op == 'in' and val):
                continue
            for y in (y for a in k.args if isinstance(a, frozenset) for y in a):
                if y.op != 'const':
                    continue
                if y.args[1] == kc:
                    return True
                its = {(fn, frozenset(tests(fn.node, n)))
                       for fn, n, _ in self.sets.get((t.args[0], y.args[1]), ())
                       if fn is not None}
                if its and its <= mine:
                    return True          # recorded together with the one that is there
        return False

    def always(self, t, kc):
        """Recorded in a loop without a condition."""
        for fn, node, chain in self.sets.get((t.args[0], kc), ()):
            if fn is None:
                continue
            steps = [(fn, node)]
            callers = [f for f, _ in chain]
            ok = unconditional(fn.node, node)
            if ok:
                return True
        return False

    def same_test(self, ev, t, kc):
        """Recorded under the condition under which it is taken."""
        here = tests(self.it.fn.node, ev.node)
        for f, n in zip(self.it.fstack, self.it.cstack[1:]):
            if n is not None:
                here |= tests(f.node, n)
        for fn, node, chain in self.sets.get((t.args[0], kc), ()):
            if fn is not None and tests(fn.node, node) and tests(fn.node, node) <= here:
                return True
        return False


def fields_of(text):
    for _, name, spec, _ in string.Formatter().parse(text):
        if name is None:
            continue
        f = name.split('.')[0].split('[')[0]
        yield f
        if spec and '{' in spec:
            yield from fields_of(spec)


def option(key):
    """Name of the command line option a value is."""
    t = key.one
    if t is None:
        return None
    if t.op == 'attr' and isinstance(t.args[1], str):
        return t.args[1]
    s = show(key)
    if s.startswith('V(args.'):
        return s[7:].split(';')[0].split(')')[0]
    return None


def parents(root):
    return {c: n for n in ast.walk(root) for c in ast.iter_child_nodes(n)}


def path_to(root, node):
    up = parents(root)
    out = [node]
    n = node
    while n in up:
        n = up[n]
        out.append(n)
    return out


def tests(root, node):
    """Conditions (text, polarity) under which node is evaluated in its function."""
    out = set()
    p = path_to(root, node)
    for c, n in zip(p, p[1:]):
        if isinstance(n, (ast.If, ast.IfExp)) and c is not n.test:
            body = n.body if isinstance(n.body, list) else [n.body]
            out |= parts(n.test, any(c is x for x in body))
    return out


def parts(test, val):
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return parts(test.operand, not val)
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and val:
        return {x for v in test.values for x in parts(v, True)}
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or) and not val:
        return {x for v in test.values for x in parts(v, False)}
    return {(ast.dump(test), val)}


def unconditional(root, node):
    """Evaluated in every round of the loops around it, with nothing before that leaves them."""
    p = path_to(root, node)
    for c, n in zip(p, p[1:]):
        if isinstance(n, (ast.If, ast.IfExp, ast.ExceptHandler, ast.BoolOp)) and \
                c is not getattr(n, 'test', None):
            return False
        if isinstance(n, ast.Try) and not any(c is x for x in n.body + n.finalbody):
            return False
        if isinstance(n, (ast.For, ast.While)) and any(c is x for x in n.body):
            for s in n.body:
                if s is c:
                    break
                if any(isinstance(x, ABRUPT) for x in ast.walk(s)):
                    return False
        if n is root:
            break
    return any(isinstance(n, (ast.For, ast.While)) for n in p)


def option_choices(prog):
    """{destination: choices} of the options of the command line."""
    out = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr == 'add_argument':
                names = [a.value for a in n.args if isinstance(a, ast.Constant)]
                ch = [k.value for k in n.keywords if k.arg == 'choices']
                if not ch:
                    continue
                if isinstance(ch[0], ast.Name) and ch[0].id in m.assigns:
                    ch = m.assigns[ch[0].id]
                try:
                    vals = [str(x) for x in ast.literal_eval(ch[0])]
                except (ValueError, TypeError):
                    continue
                long = [x for x in names if isinstance(x, str) and x.startswith('--')]
                if long:
                    d = out.setdefault(long[0].lstrip('-').replace('-', '_'), [])
                    d += [v for v in vals if v not in d]
    return out


def texts(prog, obls):
    """Texts formatted anywhere in the package."""
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                    n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and
                    isinstance(n.func.value.value, str)):
                continue
            if any(isinstance(a, ast.Starred) for a in n.args) or \
                    any(k.arg is None for k in n.keywords):
                continue
            text = n.func.value.value
            auto, gone = 0, []
            try:
                for f in fields_of(text):
                    if f == '':
                        f, auto = str(auto), auto + 1
                    if f.isdigit() and int(f) >= len(n.args) or \
                            not f.isdigit() and f not in {k.arg for k in n.keywords}:
                        gone.append(f)
            except ValueError as e:
                gone.append(str(e))
            obls['placeholders', 'text %r' % text[:30], '%s:%s' % (m.path, n.lineno)] = (
                not gone, 'the text %r is not given its values (%s)' % (
                    text[:60], ', '.join(gone)))


def run(prog, rep, tier):
    rep.rule('recorded', 'every figure and attribute a report takes was recorded on all paths of '
                         'the analysis')
    rep.rule('choices', 'a record indexed by an option has an entry for each of its choices')
    rep.rule('placeholders', 'every placeholder of a text is given a value')
    choices = option_choices(prog)
    obls = {}
    n = 0
    for ci in model_classes(prog):
        a, g = prog.find_method(ci, 'analyze'), prog.find_method(ci, 'report')
        if a is None or g is None or a.cls.name == 'PerformanceModel':
            continue
        sets = {}
        sts, it0 = model_state(prog, ci)
        for st, sv in sts:
            c = ReportClient(prog, ci.name, choices, obls, sets)
            it = c.it = Interp(prog, c)
            res, _ = run_entry(it, st, a, [sv] + [param(p) for p in a.params[1:]],
                               {k.arg: param(k.arg) for k in a.node.args.kwonlyargs})
            rep.seen(it)
            loops = dict(it.loopvars)
            for s, _ in res:
                c = ReportClient(prog, ci.name, choices, obls, sets)
                c.reporting = True
                it = c.it = Interp(prog, c)
                it.loopvars.update(loops)
                run_entry(it, s, g, [sv] + [param(p) for p in g.params[1:]],
                          {k.arg: param(k.arg) for k in g.node.args.kwonlyargs})
                rep.seen(it)
                n += 1
    rep.count('reports', n)
    texts(prog, obls)
    rep.require(n >= 6, 'fewer reports than models expected')
    for (rule, what, where), (ok, msg) in sorted(obls.items()):
        rep.check(ok, rule, '%s at %s' % (what, where.rpartition(':')[0] or where), where, msg)
