"""P06: analyses, reports and queries leave their inputs as they were."""
import ast

from ksa import alias
from ksa.interp import Interp, Client, State
from ksa.models import model_classes, kernel_machine
from ksa.roots import root_inst, param, run_entry
from ksa.terms import V, C, mk, const

EXPLANATION = (
    'Effect and alias analysis: every performance model is constructed, analysed and reported '
    'abstractly (cache predictors, code generation and in-core analysis inlined), and so is every '
    'public query of kernels and machines. Each assignment, item assignment, in-place operation '
    'and mutating method call on the way is an obligation: the object it changes must not be '
    'reachable from the kernel, the machine, the command line arguments, an argument of the '
    'operation or a module or class level table. Reachability follows attributes, elements, '
    'shallow copies and views; deep copies and newly built objects end it.')
ASSUMPTIONS = [
    'calls into other packages change only what the listed mutating methods and functions change',
    'copy.deepcopy returns an object that shares nothing with its argument',
]
MIN = {'inputs-unchanged': 30, 'operations': 40}
ROOTS = ('kernel', 'machine', 'operand', 'other operand')
# operations whose purpose is to change the object they are called on
MODIFIERS = ('set_', 'clear_', 'update', 'process', 'add_', 'reset')
MUTATING_CALLS = {'random.shuffle': 0, 'heapq.heappush': 0, 'heapq.heappop': 0,
                  'heapq.heapify': 0, 'heapq.heapreplace': 0, 'heapq.heappushpop': 0,
                  'bisect.insort': 0, 'bisect.insort_left': 0, 'bisect.insort_right': 0,
                  'operator.setitem': 0, 'operator.delitem': 0, 'operator.iadd': 0,
                  'operator.imul': 0, 'numpy.put': 0, 'numpy.copyto': 0, 'numpy.place': 0,
                  'numpy.random.shuffle': 0}


class EffectClient(Client):
    def __init__(self, rep, prog, streams, owner):
        self.rep = rep
        self.prog = prog
        self.it = None
        self.streams = streams
        self.owner = owner
        self.seen = set()

    def inline(self, fi, st, args):
        return True

    def partition(self, st):
        return (frozenset(st.ts.items()),
                frozenset((t, v) for t, v in st.facts.items() if getattr(t, 'op', '') == 'param'))

    def call(self, it, st, node, name, fn, args, kwargs):
        if name in MUTATING_CALLS and len(args) > MUTATING_CALLS[name]:
            self.change(it.fn, node, args[MUTATING_CALLS[name]], name, None)
        return None

    def on_event(self, ev):
        if ev.kind in ('setattr', 'mutate', 'setitem', 'augassign'):
            b = ev.data.get('target') if ev.kind in ('mutate', 'augassign') else ev.data.get('base')
            how = {'setattr': 'sets attribute %s of' % (ev.data.get('name') or '?'),
                   'setitem': 'assigns an item of', 'augassign': 'changes',
                   'mutate': 'changes (%s)' % ev.data.get('how')}[ev.kind]
            self.change(ev.func, ev.node, b, how, ev.data.get('name')
                        if ev.kind == 'setattr' else None)
        return False

    def change(self, func, node, b, how, attr):
        where = '%s:%s' % (func.module.path if func else '?', getattr(node, 'lineno', '?'))
        k = (where, how, b)
        if k in self.seen:
            return
        self.seen.add(k)
        site = (where, getattr(node, 'col_offset', 0))
        bad = None
        for p in sorted(alias.paths(b, self.it), key=str):
            r = p[0]
            if isinstance(r, str):
                if r not in ROOTS:
                    continue
                if len(p) == 1 and attr is not None and memo_slot(self.prog, r, attr, func):
                    self.rep.count('remembered_results')
                    continue
                bad = 'the %s' % r + ''.join(p[1:])
            elif r.op == 'param':
                if r.args[0] in self.streams:
                    continue
                bad = 'the caller\'s %s' % r.args[0] + ''.join(p[1:])
            elif r.op == 'obj':
                bad = 'the default value of %s%s' % (r.args[0][2], ''.join(p[1:]))
            elif r.op == 'default':
                bad = 'the default value of %s%s' % (r.args[1], ''.join(p[1:]))
            elif r.op == 'static' and r.args[0][0] in ('mod', 'cls'):
                bad = 'the shared %s' % r.args[0][-1] + ''.join(p[1:])
            if bad:
                break
        if bad:
            self.rep.bad('inputs-unchanged',
                         '%s %s %s' % (func.qual.split('.', 1)[1] if func else '?', how, bad),
                         where, '%s, on the way of %s' % (
                             '%s %s' % (how, bad), self.owner))
        else:
            self.rep.ok('inputs-unchanged', '%s %s' % (where, how))


_slots = {}


def memo_slot(prog, root, attr, func):
    """Attribute that constructors and modifiers only ever reset to None, set by a method of the
    object itself: a result it remembers, not an input."""
    if root not in ('kernel', 'machine'):
        return False
    ci = prog.cls({'kernel': 'KernelCode', 'machine': 'MachineModel'}[root])
    fam = set(prog.mro(ci))
    if func is None or func.cls not in fam:
        return False
    key = (id(prog), ci.qual, attr)
    if key not in _slots:
        good = True
        for k in fam:
            for m in k.methods.values():
                if m.name != '__init__' and not m.name.startswith(MODIFIERS):
                    continue
                for n in ast.walk(m.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        flat = []
                        for t in ts:
                            flat += t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                        for t in flat:
                            if isinstance(t, ast.Attribute) and t.attr == attr and not (
                                    isinstance(n.value, ast.Constant) and n.value.value is None):
                                good = False
                    elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) \
                            and n.target.attr == attr:
                        good = False
        _slots[key] = good
    return _slots[key]


def streams_of(fi):
    return {p for p in fi.all_params if p in (
        'output_file', 'out', 'stream', 'outfile', 'output', 'file', 'fp', 'out_file', 'buf')
        or p.endswith('_fp') or p.endswith('_file')}


def interpret(prog, rep, label, st, f, pre, skip):
    c = EffectClient(rep, prog, streams_of(f), label)
    it = Interp(prog, c)
    c.it = it
    given = {a.arg: param(a.arg) for a in f.node.args.kwonlyargs}
    res, _ = run_entry(it, st, f, pre + [param(p) for p in f.params[skip:]], given)
    rep.seen(it)
    rep.ok('operations', label)
    return res


def construct(prog, rep, ci):
    """[(state, instance)] with everything the constructor calls followed."""
    st, kv, mv = kernel_machine(prog)
    st, sv = root_inst(st, ci, 'self')
    h = st.heap[('root', 'self')].copy()
    h.root = None
    st = st.sethobj(('root', 'self'), h)
    init = prog.find_method(ci, '__init__')
    if init is None or init.cls is None:
        return [(st, sv)]
    c = EffectClient(rep, prog, set(), '%s()' % ci.name)
    it = Interp(prog, c)
    c.it = it
    args = [sv] + [{'kernel': kv, 'machine': mv}.get(p, param(p)) for p in init.params[1:]]
    res, _ = run_entry(it, st, init, args, {a.arg: param(a.arg)
                                            for a in init.node.args.kwonlyargs})
    rep.seen(it)
    rep.ok('operations', '%s()' % ci.name)
    return [(s, sv) for s, _ in res]


def run(prog, rep, tier):
    rep.rule('inputs-unchanged', 'an operation changes nothing that is reachable from its inputs')
    rep.rule('operations', 'analyses, reports and public queries interpreted')
    _slots.clear()
    # the stand-alone benchmark model exists to complete the description it is given
    for ci in model_classes(prog):
        if ci.name == 'StandaloneBenchmark':
            rep.notes.append('%s completes the description of the measured binary by design: '
                             'not analysed' % ci.name)
            continue
        sts = construct(prog, rep, ci)
        # analysis first, then what may follow it
        f = prog.find_method(ci, 'analyze')
        rep.require(f is not None, '%s.analyze' % ci.name)
        after = []
        for st, sv in sts:
            after += [(s, sv) for s, _ in
                      interpret(prog, rep, '%s.analyze' % ci.name, st, f, [sv], 1)]
        for m in public(prog, ci, ('analyze', 'configure_arggroup')):
            for st, sv in after:
                interpret(prog, rep, '%s.%s' % (ci.name, m.name), st, m, *pre(m, sv))
    base = prog.cls('CachePredictor')
    for ci in sorted(prog.subclasses(base), key=lambda c: c.name):
        if ci is base:
            continue
        for st, sv in construct(prog, rep, ci):
            for m in public(prog, ci):
                interpret(prog, rep, '%s.%s' % (ci.name, m.name), st, m, *pre(m, sv))
    for name in ('KernelCode', 'KernelDescription', 'MachineModel'):
        ci = prog.cls(name)
        for m in public(prog, ci):
            if m.name.startswith(MODIFIERS):
                continue
            st, kv, mv = kernel_machine(prog)
            if name != 'MachineModel':
                st, kv = root_inst(st, ci, 'kernel')
                h = st.heap[('root', 'kernel')].copy()
                h.slots['_machine'] = (mv, True)
                st = st.sethobj(('root', 'kernel'), h)
            interpret(prog, rep, '%s.%s' % (name, m.name), st, m,
                      *pre(m, mv if name == 'MachineModel' else kv))
    # value objects: operators and conversions leave their operands alone
    for name in ('PrefixedUnit', 'Intervals'):
        ci = prog.cls(name)
        for n, m in sorted(ci.methods.items()):
            if n == '__init__' or m.deco('classmethod') or m.deco('staticmethod') or \
                    n.startswith('_') and not n.endswith('__'):
                continue
            st, sv = root_inst(State(), ci, 'operand')
            st, ov = root_inst(st, ci, 'other operand')
            rest = [ov if p == 'other' else param(p) for p in m.params[1:]]
            interpret(prog, rep, '%s.%s' % (name, n), st, m, [sv] + rest, len(m.params))


def pre(m, sv):
    if m.deco('staticmethod'):
        return [], 0
    if m.deco('classmethod'):
        return [V(mk('cls', m.cls.qual))], 1
    return [sv], 1


def public(prog, ci, skip=()):
    out, seen = [], set()
    for k in prog.mro(ci):
        for n, m in sorted(k.methods.items()):
            if n in seen or n in skip or (n.startswith('_') and n not in ('__getitem__',
                                                                         '__contains__',
                                                                         '__repr__')):
                continue
            seen.add(n)
            if m.deco('property') or m.deco('setter') or m.is_generator:
                continue
            out.append(m)
    return out
