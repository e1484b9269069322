"""P01: every access to a shared intermediate file happens under the right advisory lock."""
import ast
import re

from ksa.files import *
from ksa.interp import Interp, State
from ksa.program import AnalysisBroken
from ksa.roots import root_inst, param, run_entry
from ksa.terms import V, C, mk, walk_terms

EXPLANATION = (
    'Typestate analysis of flock-protected intermediates over the real call graph (KernelCode and '
    'the cache predictors, package functions inlined context-sensitively, exceptional paths '
    'included). Each lock file object carries the mode it currently holds; every open / pickle / '
    'external-tool access to an intermediate path is an obligation checked against the mode held '
    'at that point. "No path" is decided over all paths of the abstract program, including ones '
    'no test schedules.')
ASSUMPTIONS = [
    'flock(2) provides shared/exclusive advisory locks with the documented semantics',
    'when flock fails with OSError on a blocking request (file system without locks) exclusive '
    'access is assumed, as the tool itself warns',
    'files are closed when their context manager ends or close() is called; file objects that go '
    'out of scope are not assumed to be closed',
    'a command line passed to an external tool writes what follows -o and reads the other paths',
]
MIN = {'read-locked': 6, 'write-locked': 6, 'exclusive-written': 5, 'no-exclusive-return': 5}

READ_MODES = ('SH', 'EX')


class LockClient(FileClient):
    flag_partition = True

    def __init__(self, rep, relevant):
        self.rep = rep
        self.relevant = relevant
        self.locks = {}       # fp term -> set of stems
        self.written = set()
        self.edges = {}
        self.includes = {}    # literal name -> names its generated text includes
        self.commands = []    # (paths read, modes held, construct, where, path)

    inline_small = True

    def inline(self, fi, st, args):
        return fi.name in self.relevant or fi.name == '__init__' or fi.parent is not None

    # ---- helpers
    def fp_terms(self, st, v):
        return [t for t in v.alts if t in self.locks]

    def note_open(self, term, path):
        stems = set()
        for t in path.alts:
            stems.add(stem_of_lock(parts(t)))
        self.locks[term] = stems

    def covering(self, p):
        r = []
        for t, stems in self.locks.items():
            if any(is_prefix(s, p) for s in stems):
                r.append(t)
        return r

    def mode(self, st, t):
        return st.ts.get(('L', t), 'NONE')

    def construct(self, it, what, p):
        return '%s:%s %s' % (it.fn.qual.split('.', 1)[1] if it.fn else '?', what, lit(p))

    def where(self, it, node):
        return '%s:%s' % (it.fn.module.path if it.fn else '?', getattr(node, 'lineno', '?'))

    def inter_paths(self, v):
        """Intermediate paths among the alternatives of v (not the lock files themselves)."""
        r = []
        for t in v.alts:
            if t.op not in ('fmt', 'call', 'mcall', 'item', 'elem', 'const', 'param'):
                continue
            p = parts(t)
            if looks_like_lock(p):
                continue
            if self.covering(p) or (t.op == 'fmt' and (contains_text(t, '_kerncraft'))):
                r.append(p)
        return r

    def access(self, it, st, node, v, kind):
        """kind 'r' or 'w'; returns new state."""
        ps = self.inter_paths(v)
        if not ps:
            return st
        rule = 'read-locked' if kind == 'r' else 'write-locked'
        if st.ts.get('NOFS'):
            for p in ps:
                for t in self.covering(p):
                    if kind == 'w':
                        st = st.setts(('W', t), True)
            return st
        for p in ps[:1]:
            ls = self.covering(p)
            modes = {self.mode(st, t) for t in ls}
            c = self.construct(it, 'read' if kind == 'r' else 'write', p)
            if kind == 'w':
                good = 'EX' in modes
                msg = 'writes %s while holding %s; an exclusive lock is required' % (
                    lit(p), sorted(modes) or 'no lock')
            else:
                good = 'SH' in modes or any(
                    self.mode(st, t) == 'EX' and st.ts.get(('W', t)) for t in ls)
                msg = 'reads %s while holding %s; needs a shared lock, or its own exclusive lock ' \
                      'after having written it' % (lit(p), sorted(modes) or 'no lock')
            self.rep.check(good, rule, c, self.where(it, node), msg,
                           path=['%s line %s' % (f.qual, getattr(n, 'lineno', '?'))
                                 for f, n in zip(it.fstack, it.cstack)])
            if kind == 'w':
                for t in ls:
                    if self.mode(st, t) == 'EX':
                        st = st.setts(('W', t), True)
        return st

    def release(self, it, st, node, t, new):
        """Transition of lock t to mode new (SH/UN/CLOSED)."""
        old = self.mode(st, t)
        if old == 'EX' and not st.ts.get('NOFS'):
            stem = sorted(self.locks[t], key=str)[0]
            c = self.construct(it, 'release', stem)
            if new in ('SH', 'CLOSED') and not st.ts.get(('EXFRESH', t)):
                self.rep.check(bool(st.ts.get(('W', t))), 'exclusive-written', c,
                               self.where(it, node),
                               'the exclusive lock on %s is given up without the file having been '
                               'written, readers waiting for it would use a missing or stale file'
                               % lit(stem))
            for k in st.ts:
                if isinstance(k, tuple) and k[0] == 'OPENW' and st.ts[k]:
                    if any(is_prefix(s, k[2]) for s in self.locks[t]):
                        self.rep.bad('flush-before-release', c, self.where(it, node),
                                     'the exclusive lock on %s is given up while the file is still '
                                     'open for writing (unflushed data)' % lit(stem))
            self.rep.ok('flush-before-release')
        st = st.setts(('L', t), new)
        if new in ('CLOSED', 'UN'):
            st = st.setts(('W', t), None)
        return st

    def no_implicit(self, name):
        return name in ('fcntl.flock', 'fcntl.lockf')

    def freshness(self, st):
        return False

    # ---- transfer
    def call(self, it, st, node, name, fn, args, kwargs):
        r = FileClient.call(self, it, st, node, name, fn, args, kwargs)
        if r is not None:
            return r
        if name in ('open', 'io.open', 'os.open') and args:
            term_v = it.opaque_call(st, name, args, kwargs)
            t = term_v.one
            p0 = [parts(a) for a in args[0].alts]
            if any(looks_like_lock(p) for p in p0):
                self.note_open(t, args[0])
                return [(st.setts(('L', t), 'UN'), term_v.dep(args[0].deps))]
            m = arg(args, kwargs, 1, 'mode')
            mode = m.const('r') if m is not None else 'r'
            ps = self.inter_paths(args[0])
            if ps and isinstance(mode, str):
                if '+' in mode or mode[0] in 'wax':
                    if mode[0] == 'r' or mode[0] == 'a':
                        st = self.access(it, st, node, args[0], 'w')
                    else:
                        st = self.access(it, st, node, args[0], 'w')
                    st = st.setts(('OPENW', t, ps[0]), True)
                else:
                    st = self.access(it, st, node, args[0], 'r')
            return [(st, term_v.dep(args[0].deps))]
        if name in ('.write', '.writelines') and fn is not None and fn.op == 'attr' and args:
            for k in st.ts:
                if isinstance(k, tuple) and k[0] == 'OPENW' and k[1] in V(fn.args[0]).alts:
                    names = included(it, args[0])
                    if names:
                        self.includes.setdefault(k[2], set()).update(names)
        if name in ('os.unlink', 'os.remove', 'os.rename', 'os.replace', 'shutil.move') and args:
            lk = [t for a in args[0].alts for t in [a] if looks_like_lock(parts(a)) or
                  a.op == 'attr' and a.args[1] == 'name' and self.fp_terms(st, V(a.args[0]))]
            self.rep.check(not lk, 'lock-stays', '%s:%s' % (it.fn.qual.split('.', 1)[1], name),
                           self.where(it, node),
                           'a lock file is removed or renamed: a process that has it open and one '
                           'that opens it anew hold locks on different files, both at once')
        if name in ('fcntl.flock', 'fcntl.lockf') and len(args) > 1:
            return self.flock(it, st, node, args)
        if name in ('.close', '%exit'):
            b = None
            if name == '.close':
                if fn.op == 'attr':
                    b = V(fn.args[0])
            else:
                b = args[0]
            if b is not None:
                # list elements that are lock files
                for t in self.fp_terms(st, b):
                    st = self.release(it, st, node, t, 'CLOSED')
                for k in list(st.ts):
                    if isinstance(k, tuple) and k[0] == 'OPENW' and k[1] in b.alts:
                        st = st.setts(k, None)
                return [(st, C(None))]
            return None
        if name in ('os.close',) and args:
            for t in self.fp_terms(st, args[0]):
                st = self.release(it, st, node, t, 'CLOSED')
            return [(st, C(None))]
        if name in LOADERS or name in DUMPERS:
            i = 0 if name in LOADERS else 1
            pv = args[i] if len(args) > i else (kwargs.get('path'))
            if pv is not None:
                st = self.access(it, st, node, pv, 'r' if name in LOADERS else 'w')
            return [(st, it.opaque_call(st, name, args, kwargs))]
        if name in ('shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.move', 'os.rename',
                    'os.replace') and len(args) > 1:
            st = self.access(it, st, node, args[1], 'w')
            return [(st, it.opaque_call(st, name, args, kwargs))]
        if name in SUBPROC and args:
            prev = None
            sts = st
            els = cmd_elements(it, st, args[0])
            reads, writes = [], []
            for v, prev in els:
                c = v.const(None)
                (writes if prev == '-o' else reads).append(v)
            for v in reads:
                sts = self.access(it, sts, node, v, 'r')
            if not st.ts.get('NOFS'):
                held = [stem for t, stems in self.locks.items() for stem in stems
                        if self.mode(st, t) == 'SH' or
                        self.mode(st, t) == 'EX' and st.ts.get(('W', t))]
                for v in reads:
                    for q in self.inter_paths(v)[:1]:
                        self.commands.append((q, held, it.fn.qual.split('.', 1)[1],
                                              self.where(it, node)))
            fail = sts
            for v in writes:
                sts = self.access(it, sts, node, v, 'w')
            return [(sts, it.opaque_call(st, name, args, kwargs))]
        return None

    def flock(self, it, st, node, args):
        modes = set()
        nb = False
        for t in args[1].alts:
            names = {x.args[0].split('.')[-1] for x in walk_terms(t) if x.op == 'ext'}
            nb |= 'LOCK_NB' in names
            if 'LOCK_EX' in names:
                modes.add('EX')
            elif 'LOCK_SH' in names:
                modes.add('SH')
            elif 'LOCK_UN' in names:
                modes.add('UN')
            else:
                modes.add('?')
        fps = self.fp_terms(st, args[0])
        if it.implicit:
            it.raise_(st if nb else st.setts('NOFS', True), {'OSError'}, node, True)
        self.rep.count('flock_transitions')
        if len(modes) != 1 or not fps:
            return [(st, C(None))]
        mode = modes.pop()
        if mode == '?':
            return [(st, C(None))]
        for t in fps:
            old = self.mode(st, t)
            if old == 'CLOSED':
                self.rep.bad('no-use-after-close', self.construct(
                    it, 'flock', sorted(self.locks[t], key=str)[0]), self.where(it, node),
                    'a closed lock file is locked again')
            if mode in ('SH', 'EX'):
                self.acquire(it, st, node, t, mode)
            if old == 'EX' and mode in ('SH', 'UN'):
                # degrade right after acquisition, before anything was written, is legitimate only
                # when the file was just found to be fresh; P03 decides that
                if self.is_fresh_fact(st):
                    st = st.setts(('EXFRESH', t), True)
                st = self.release(it, st, node, t, mode)
                st = st.setts(('EXFRESH', t), None)
            else:
                st = st.setts(('L', t), mode)
                if mode == 'EX':
                    st = st.setts(('W', t), None)
        return [(st, C(None))]

    def is_fresh_fact(self, st):
        for f, val in st.facts.items():
            if not val:
                continue
            for x in walk_terms(f):
                if x.op == 'call' and x.args[0] in ('os.stat', 'os.path.getmtime',
                                                    'os.path.exists'):
                    return True
        return False

    def acquire(self, it, st, node, t, mode):
        """Lock-order edges: held -> acquired."""
        for k, v in st.ts.items():
            if isinstance(k, tuple) and k[0] == 'L' and v in ('SH', 'EX') and k[1] is not t:
                if v == 'SH' and mode == 'SH':
                    continue
                for a in tails(sorted(self.locks[k[1]], key=str)[0]):
                    for b in tails(sorted(self.locks[t], key=str)[0]):
                        self.edges.setdefault((a, b), (self.where(it, node), it.fn.qual))

    def on_event(self, ev):
        return False


INCLUDE = re.compile(r'#\s*include\s+"([^"]+)"')


def included(it, v):
    """Names of the files that a generated text includes."""
    out = set()
    for a in v.alts:
        for t in walk_deep(it, a):
            if t.op == 'const' and isinstance(t.args[1], str):
                out.update(INCLUDE.findall(t.args[1]))
            elif t.op == 'fmt':
                for x in t.args[0]:
                    if isinstance(x, str):
                        out.update(INCLUDE.findall(x))
            elif t.op == 'static':
                for n in initialisers(it.p, t.args[0]):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str):
                            out.update(INCLUDE.findall(x.value))
    return out


def initialisers(prog, key):
    """Expressions a class attribute or module variable is set to."""
    key = tuple(key) if isinstance(key, (tuple, list)) else (key,)
    out = []
    for m in prog.modules.values():
        for ci in m.classes.values():
            if ci.qual in key and key[-1] in ci.attrs:
                out.append(ci.attrs[key[-1]])
        if m.name in key or 'kerncraft.' + m.name in key:
            out += m.assigns.get(key[-1], [])
    return out


def kernel_state(prog, st=None):
    st = st or State()
    st, mv = root_inst(st, prog.cls('MachineModel'), 'machine')
    st, kv = root_inst(st, prog.cls('KernelCode'), 'kernel')
    h = st.heap[('root', 'kernel')].copy()
    h.slots['_machine'] = (mv, True)
    st = st.sethobj(('root', 'kernel'), h)
    return st, kv, mv


def entries(prog):
    """(label, class, method) of everything that touches intermediates."""
    kc = prog.cls('KernelCode')
    out = []
    for m in ('incore_analysis', 'build_executable', 'compile_kernel', 'assemble_to_object',
              'get_kernel_header', 'get_kernel_code', 'get_main_code'):
        f = prog.find_method(kc, m)
        if f is not None:
            out.append((m, kc, f))
    return out


def model_classes(prog):
    base = prog.cls('PerformanceModel')
    return sorted((c for c in prog.subclasses(base) if c is not base), key=lambda c: c.name)


def run(prog, rep, tier):
    rep.rule('read-locked', 'an intermediate is read only while a shared lock on it is held, or '
                            'an exclusive one after this process wrote it')
    rep.rule('write-locked', 'an intermediate is written only while an exclusive lock on it is '
                             'held')
    rep.rule('exclusive-written', 'an exclusive lock is degraded or dropped on a normal path only '
                                  'after the file was written (or found fresh)')
    rep.rule('flush-before-release', 'no file is still open for writing when its exclusive lock '
                                     'is given up')
    rep.rule('no-exclusive-return', 'no public operation returns while still holding an '
                                    'exclusive lock')
    rep.rule('returned-locked', 'a lock file handed to the caller is locked')
    rep.rule('lock-stays', 'lock files are never removed or renamed')
    rep.rule('acyclic-order', 'the order in which one process acquires different intermediate '
                              'locks has no cycle')
    edges = {}
    done = 0
    kc = prog.cls('KernelCode')
    anchor = prog.find_method(kc, 'get_intermediate_location')
    rep.require(anchor is not None, 'KernelCode.get_intermediate_location')
    includes = {}
    commands = []
    for label, ci, f in entries(prog):
        st, kv, mv = kernel_state(prog)
        c = finish(prog, rep, label, f, st, [kv], edges)
        for k, v in c.includes.items():
            includes.setdefault(lit(k), (k, set()))[1].update(v)
        commands += c.commands
        done += 1
    implicit(rep, includes, commands)
    base = prog.cls('CachePredictor')
    for ci in prog.subclasses(base):
        init = prog.find_method(ci, '__init__')
        if ci is base or init is None or init.cls is None:
            continue
        st, kv, mv = kernel_state(prog)
        st, sv = root_inst(st, ci, 'predictor')
        h = st.heap[('root', 'predictor')].copy()
        h.root = None
        st = st.sethobj(('root', 'predictor'), h)
        finish(prog, rep, ci.name, init, st, [sv, kv, mv], edges)
        done += 1
    for ci in model_classes(prog):
        f = prog.find_method(ci, 'analyze')
        if f is None or f.cls is None:
            continue
        st, kv, mv = kernel_state(prog)
        st, sv = root_inst(st, ci, 'model')
        h = st.heap[('root', 'model')].copy()
        h.slots['kernel'] = (kv, True)
        h.slots['machine'] = (mv, True)
        st = st.sethobj(('root', 'model'), h)
        finish(prog, rep, ci.name + '.analyze', f, st, [sv], edges)
        done += 1
    rep.count('entry_points', done)
    rep.require(done >= 4, 'too few entry points touch intermediates')
    # lock order
    adj = {}
    for (a, b) in edges:
        adj.setdefault(a, set()).add(b)
    for (a, b), (w, q) in sorted(edges.items()):
        seen, todo = set(), [b]
        cyc = False
        while todo:
            x = todo.pop()
            if x == a:
                cyc = True
                break
            if x in seen:
                continue
            seen.add(x)
            todo += adj.get(x, ())
        rep.check(not cyc, 'acyclic-order', '%s->%s' % (a, b), w,
                  'acquiring the lock of %s while holding that of %s closes a cycle: two '
                  'processes (or one) can wait for each other forever' % (b, a))


def directory(p):
    """Path up to the last separator, and what follows it."""
    p = list(p)
    tail = []
    while p:
        x = p.pop()
        if isinstance(x, str) and '/' in x:
            a, b = x.rsplit('/', 1)
            return tuple(p + ([a] if a else [])), tuple(([b] if b else []) + tail)
        tail.insert(0, x)
    return (), tuple(tail)


def expand(p):
    """The alternatives of a path, taken apart."""
    out = {()}
    for x in p:
        alts = x if isinstance(x, frozenset) else [x]
        nxt = set()
        for a in alts:
            q = tuple(parts(a)) if not isinstance(a, str) else (a,)
            q = expand(q) if q not in ((a,), (frozenset([a]),)) else {(a,)}
            nxt |= {o + y for o in out for y in q}
        out = nxt
        if len(out) > 64:
            break
    return out


def same_dir(a, b):
    return bool(expand(directory(a)[0]) & expand(directory(b)[0]))


def implicit(rep, includes, commands):
    """Files that a command reads because a generated file includes them."""
    for q, held, fq, where in commands:
        for name, (p, names) in sorted(includes.items()):
            if directory(q)[1] != directory(p)[1]:
                continue
            for inc in sorted(names):
                if not any(directory(h)[1] == (inc,) for x in commands for h in x[1]):
                    continue      # not an intermediate
                rep.check(any(directory(h)[1] == (inc,) and same_dir(h, q)
                              for h in held), 'read-locked', '%s:read %s through %s' % (
                    fq, inc, name), where,
                    'the command reads %s, which %s includes, from the same directory, but no '
                    'lock on such a file is held' % (inc, name))


def finish(prog, rep, label, f, st, pre, edges):
    c = LockClient(rep, relevant_functions(prog))
    it = Interp(prog, c)
    args = list(pre) + [param(x) for x in f.params[len(pre):]]
    res, raised = run_entry(it, st, f, args)
    rep.seen(it)
    for s, v in res:
        for k, m in s.ts.items():
            if isinstance(k, tuple) and k[0] == 'L' and k[1] in c.locks:
                stem = sorted(c.locks[k[1]], key=str)[0]
                rep.check(m != 'EX' or bool(s.ts.get('NOFS')), 'no-exclusive-return',
                          '%s:%s' % (label, lit(stem)), '%s:%s' % (f.module.path, f.node.lineno),
                          '%s can return while still holding the exclusive lock on %s, blocking '
                          'every other process' % (label, lit(stem)))
        for a in v.alts:
            for t in walk_terms(a):
                m = s.ts.get(('L', t)) if t in c.locks else None
                if m is not None and not s.ts.get('NOFS'):
                    stem = sorted(c.locks[t], key=str)[0]
                    rep.check(m in ('SH', 'EX'), 'returned-locked', '%s:%s' % (label, lit(stem)),
                              '%s:%s' % (f.module.path, f.node.lineno),
                              '%s hands out the lock file of %s without holding its lock: the '
                              'caller uses the file unprotected' % (label, lit(stem)))
    edges.update(c.edges)
    return c
