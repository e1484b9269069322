"""P04: what a report writes goes to the stream the caller asked for."""
import ast
import re

from ksa.interp import Interp, Client, State
from ksa.models import model_classes, model_state, set_slot, kernel_machine
from ksa.roots import root_inst, param, run_entry
from ksa.terms import V, mk, walk_terms
from ksa.files import walk_deep, relevant_functions

EXPLANATION = (
    'Value-flow analysis of output streams: every function that takes an output stream (model '
    'reports, kernel print functions, the command line driver) is interpreted abstractly with a '
    'symbolic stream; on all paths, and through every helper it calls, each write must go to '
    'exactly that stream (or be a marked warning on standard error), and each nested reporting '
    'function must be given it.')
ASSUMPTIONS = [
    'output is produced by print, pprint, write methods of streams and the listed library '
    'functions that print to standard output by default',
]
MIN = {'stream': 60, 'accepts-stream': 7, 'forwarded': 4}
# library methods printing to standard output unless told otherwise: name -> (keyword, position)
DEFAULT_STDOUT = {'print_stats': ('file', 0), 'show': ('buf', 0), 'print_help': ('file', 0),
                  'print_usage': ('file', 0), 'pprint': ('stream', None)}
# other ways to put text somewhere
OTHER = {'os.write', 'subprocess.call', 'subprocess.check_call', 'subprocess.run',
         'subprocess.Popen', 'os.system', 'sys.__stdout__.write', 'sys.__stdout__.writelines',
         'sys.stdout.buffer.write', 'sys.displayhook'}
WORDS = {'print', 'pprint', 'pp', 'write', 'writelines', 'stdout', 'stderr', 'print_stats',
         'print_help'}
WARN = re.compile(r'warn|info|error|note|fail|debug', re.I)


def stream_params(fi):
    return [p for p in fi.all_params if p in ('output_file', 'out', 'stream', 'outfile', 'output',
                                              'file', 'fp', 'out_file', 'buf')]


def abstract(f):
    return all(isinstance(s, (ast.Raise, ast.Expr, ast.Pass)) for s in f.node.body)


def reporting(prog):
    """Functions whose callers choose the stream: they have a stream parameter that defaults to
    standard output, and whatever overrides them."""
    out, names = [], set()
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        for f in list(m.functions.values()) + [x for c in m.classes.values()
                                               for x in c.methods.values()]:
            a = f.node.args
            pos = a.posonlyargs + a.args
            dflt = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for x, d in dflt:
                if ast.unparse(d) in ('sys.stdout', 'stdout') or \
                        x.arg == 'output_file' and f.name == 'report':
                    out.append((f, x.arg))
    # names that mean a reporting function whatever the receiver is
    defs = [f for m in prog.modules.values() for c in m.classes.values()
            for f in c.methods.values()]
    ents = {f for f, _ in out}
    for n in {f.name for f, _ in out if f.cls is not None}:
        if all(f in ents or abstract(f) for f in defs if f.name == n):
            names.add(n)
    return out, names


class StreamClient(Client):
    def __init__(self, prog, rep, label, stream, ents, names, rel, only_given=False):
        self.prog = prog
        self.ents = ents
        self.rep = rep
        self.label = label
        self.stream = stream
        self.names = names
        self.rel = rel
        self.only_given = only_given

    def is_stream(self, v):
        return v is not None and bool(v.alts) and all(t is self.stream for t in v.alts)

    def inline(self, fi, st, args):
        if fi.cls is not None and fi.cls.name == 'MachineModel':
            return False
        if self.only_given:
            return any(self.stream in a.alts for a in args) or fi.parent is not None or \
                (fi.name in self.rel and self.module is fi.module)
        return fi.name in self.rel or fi.parent is not None or fi.is_generator

    def decide(self, it, st, cond):
        t, neg = cond
        if t is self.stream:
            return True
        if t.op in ('is', 'eq'):
            flat = list(walk_terms(t.args))
            if any(x is self.stream for x in flat) and any(
                    x.op == 'const' and x.args[1] is None for x in flat):
                return neg
        return None

    def is_reporting(self, it, fn, short):
        if fn.op in ('func', 'bound', 'closure'):
            return it.callee_fi(fn) in self.ents
        return fn.op == 'attr' and short in self.names

    def pending(self, st, v, texts):
        """State after text went to v: text kept in a buffer of its own is owed to the stream
        until the contents of the buffer are written."""
        owed = st.ts.get('owed', frozenset())
        for a in texts:
            for x in walk_terms(a.alts):
                if x.op == 'mcall' and x.args[1] in ('getvalue', 'read'):
                    owed = owed - {x.args[0]} - (x.args[0] if isinstance(
                        x.args[0], frozenset) else frozenset())
        if v is not None and v.alts and all(buffer(t) for t in v.alts):
            owed = owed | frozenset(v.alts)
        return st if owed == st.ts.get('owed', frozenset()) else st.setts('owed', owed)

    def out(self, it, st, node, v, texts, what):
        if v is not None and v.alts and all(buffer(t) for t in v.alts):
            self.rep.ok('stream')
            return
        where = '%s:%s' % (it.fn.module.path, node.lineno)
        # without a stream (or with None) the current standard output is used
        default = st.ts.get('stdout') or frozenset([mk('ext', 'sys.stdout')])
        alts = set(v.alts) if v is not None else set(default)
        alts.discard(self.stream)
        if all(t.op == 'ext' and t.args[0] in ('sys.stderr', 'sys.__stderr__') for t in alts) \
                and alts:
            words = ' '.join(str(x.args[1]) for a in texts for t in a.alts
                             for x in walk_deep(it, t)
                             if x.op == 'const' and isinstance(x.args[1], str))
            words += ' '.join(p for a in texts for t in a.alts for x in walk_deep(it, t)
                              if x.op == 'fmt' for p in x.args[0] if isinstance(p, str))
            if WARN.search(words) or not texts:
                self.rep.ok('stream')
                return
        self.rep.check(not alts, 'stream', '%s:%s' % (it.fn.qual.split('.', 1)[1], what), where,
                       'while reporting with %s, %s does not go to the requested stream but '
                       'to %s' % (self.label, what,
                                  ', '.join(sorted(t.args[0] if t.op == 'ext' else t.op
                                                   for t in alts))),
                       ['%s line %s' % (f.qual, getattr(n, 'lineno', '?'))
                        for f, n in zip(it.fstack, it.cstack)],
                       sample='%s %s' % (where, what))

    def after(self, st, v, texts):
        n = self.pending(st, v, texts)
        return None if n is st else [(n, V(mk('const', 'NoneType', None)))]

    def partition(self, st):
        return frozenset(st.ts.items())

    def call(self, it, st, node, name, fn, args, kwargs):
        short = name.split('.')[-1]
        if name == '%exit':
            old = [t.args[0] for t in args[0].alts if t.op == 'redirected']
            return [(st.setts('stdout', old[0]), V(mk('const', 'NoneType', None)))] if old \
                else None
        if fn is None:
            return None
        if name.endswith('redirect_stdout') and args:
            return [(st.setts('stdout', args[0].alts),
                     V(mk('redirected', st.ts.get('stdout'))))]
        if name == 'print':
            text = text_of(node)
            self.out(it, st, node, kwargs.get('file'), args, 'print %s' % text)
            return self.after(st, kwargs.get('file'), args)
        if name in ('pprint.pprint', 'pprint.pp'):
            v = kwargs.get('stream') or (args[1] if len(args) > 1 else None)
            self.out(it, st, node, v, args[:1], 'pprint %s' % text_of(node))
            return [(st, V(mk('const', 'NoneType', None)))]
        if name.split('.')[-1] == 'partial' and args and kwargs.keys() <= {'file', 'sep', 'end'}:
            return [(st, V(mk('printer', args[0].alts, tuple(sorted(
                (k, v) for k, v in kwargs.items()))), args[0].deps))]
        if fn.op == 'printer':
            if any(t.op in ('builtin', 'ext') and str(t.args[0]).endswith('print')
                   for t in fn.args[0]):
                to = kwargs.get('file') or dict(fn.args[1]).get('file')
                self.out(it, st, node, to, args, 'print %s' % text_of(node))
                return self.after(st, to, args)
        if name in OTHER or name.startswith('logging.') and \
                short not in ('warning', 'error', 'critical', 'exception', 'getLogger'):
            if short in ('write', 'writelines', 'info', 'debug', 'log') or \
                    'stdout' not in kwargs and 'capture_output' not in kwargs:
                self.out(it, st, node, V(mk('ext', name)), (V(mk('top')),), name)
        if fn.op in ('attr', 'bmeth') and short in ('close', 'seek', 'truncate', 'detach') and \
                fn.args[0] is self.stream:
            self.rep.bad('stream', '%s:%s' % (it.fn.qual.split('.', 1)[1], short),
                         '%s:%s' % (it.fn.module.path, node.lineno),
                         'the stream belongs to the caller: %s() while reporting with %s '
                         'takes from it what was or will be written' % (short, self.label))
        if name in ('sys.stdout.write', 'sys.stdout.writelines'):
            self.out(it, st, node, None, args, 'write %s' % text_of(node))
            return None
        if fn.op == 'attr' and short in ('write', 'writelines') and fn.args[0].op == 'ext' and \
                fn.args[0].args[0] in ('sys.stdout', 'sys.stderr'):
            self.out(it, st, node, V(fn.args[0]), args, 'write %s' % text_of(node))
            return None
        if fn.op in ('attr', 'bmeth') and short in ('write', 'writelines') and args:
            return self.after(st, V(fn.args[0]), args)
        if fn.op in ('attr', 'bmeth') and short in DEFAULT_STDOUT:
            kw, pos = DEFAULT_STDOUT[short]
            v = kwargs.get(kw)
            if v is None and pos is not None and len(args) > pos:
                v = args[pos]
            if short != 'pprint':
                if v is None or any(t.op == 'ext' for t in v.alts):
                    self.out(it, st, node, v, (), short)
            return None
        if self.is_reporting(it, fn, short):
            given = any(self.is_stream(a) for a in args) or \
                any(self.is_stream(a) for a in kwargs.values()) or '**' in kwargs
            self.rep.check(given, 'forwarded', '%s:%s' % (it.fn.qual.split('.', 1)[1], short),
                           '%s:%s' % (it.fn.module.path, node.lineno),
                           '%s calls %s without handing on the requested stream' % (
                               self.label, short), sample='%s -> %s' % (self.label, short))
            if not given:
                return [(st, V(it.opaque_call(st, name, args, kwargs).alts))]
        return None


def buffer(t):
    return t.op == 'call' and isinstance(t.args[0], str) and \
        t.args[0].split('.')[-1] in ('StringIO', 'BytesIO')


def text_of(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.strip():
            return repr(re.sub(r'\s+', ' ', n.value)[:30])
    return '(no text)'


def run(prog, rep, tier):
    rep.rule('stream', 'every line written while reporting goes to the stream the caller passed '
                       '(marked warnings may go to standard error)')
    rep.rule('accepts-stream', 'every model accepts the stream its report is to be written to')
    rep.rule('forwarded', 'nested reporting functions are given the stream of the caller')
    ents, names = reporting(prog)
    fis = {f for f, _ in ents}
    rep.require(len(ents) >= 5, 'functions with an output stream parameter')
    for ci in model_classes(prog):
        f = prog.find_method(ci, 'report')
        ok = f is not None and any(g is f for g, _ in ents)
        rep.check(ok, 'accepts-stream', ci.name, '%s:%s' % (ci.module.path, ci.node.lineno),
                  'the report of %s cannot be directed to a stream' % ci.name)
    rel = relevant_functions(prog, WORDS) | names
    unasked(prog, rep, names)
    kinds = {k.name for k in prog.subclasses(prog.cls('Kernel'))} | {'Kernel'}
    for f, p in ents:
        stream = mk('param', p)
        if f.cls is not None and any(c in prog.mro(f.cls) or f.cls is c
                                     for c in [prog.cls('PerformanceModel')]):
            for ci in model_classes(prog):
                if prog.find_method(ci, 'report') is not f or f.name != 'report':
                    continue
                states, _ = model_state(prog, ci)
                for st, sv in states:
                    for o in list(st.heap):
                        h = st.heap[o]
                        if 'results' in h.slots:
                            st = set_slot(st, o, 'results', param('results'))
                    one(prog, rep, ci.name + '.' + f.name, f, st, [sv], p, stream, fis, names, rel)
            continue
        st = State()
        pre = []
        if f.cls is not None:
            st, kv, mv = kernel_machine(prog, st)
            st, sv = root_inst(st, f.cls, 'self')
            pre = [sv]
        one(prog, rep, f.qual.split('.', 1)[1], f, st, pre, p, stream, fis, names, rel,
            only_given=f.cls is None)


def unasked(prog, rep, names):
    """Reporting functions called without a stream anywhere else."""
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in names:
                rep.check(bool(n.args or n.keywords), 'forwarded',
                          '%s:%s' % (m.name, ast.unparse(n.func)),
                          '%s:%s' % (m.path, n.lineno), '%s reports to no stream anyone asked '
                          'for' % ast.unparse(n)[:60], sample=ast.unparse(n)[:60])


def one(prog, rep, label, f, st, pre, p, stream, fis, names, rel, only_given=False):
    c = StreamClient(prog, rep, label, stream, fis, names, rel, only_given)
    c.module = f.module
    it = Interp(prog, c)
    kw = {x: param(x) for x in f.params[len(pre):]}
    kw.update({a.arg: param(a.arg) for a in f.node.args.kwonlyargs})
    res, _ = run_entry(it, st, f, pre, kw)
    for s, v in res:
        rep.check(not s.ts.get('owed'), 'stream', '%s:kept back' % label,
                  '%s:%s' % (f.module.path, f.node.lineno),
                  'on some path, text collected in a buffer never reaches the stream',
                  sample='%s: buffers' % label)
    rep.seen(it)
    rep.count('reporting_functions')
