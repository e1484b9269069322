"""P11: an artefact whose creation was interrupted is never taken for a complete one."""
from ksa.files import *
from ksa.interp import Interp
from ksa.roots import param, root_inst, run_entry
from ksa.terms import T, V, walk_terms
from checks.p01 import LockClient, entries, kernel_state, model_classes
from checks.p03 import GateClient, of_files

EXPLANATION = (
    'Typestate analysis of the mark that a writer leaves in the lock file: the mark has to be set '
    'before the gate hands out the right to write, may be cleared only on normal paths on which '
    'the file was written and closed, and every path that ends in read mode has to have branched, '
    'after its last wait for a lock, on a condition that is impossible while the mark is set. The '
    'writing of marks, their removal and the condition are interpreted together, so that they '
    'agree on what the mark is.')
ASSUMPTIONS = [
    'the mark is kept in the lock file, and the lock file is not removed by others',
    'a file is complete once the program or function that writes it returned without an error '
    '(P10 decides that errors of programs are noticed)',
    'file systems that refuse locks are excluded (nothing is ever read back there)',
]
MIN = {'read-unmarked': 1, 'marked-before-write': 1, 'cleared-when-complete': 5,
       'mark-survives-open': 1, 'clean-readable': 1}


class Sink:
    """Swallows the obligations of the base analysis, which P01 decides."""

    def __getattr__(self, n):
        return lambda *a, **k: True


class MarkClient(LockClient):
    def __init__(self, rep, relevant):
        LockClient.__init__(self, Sink(), relevant)
        self.out = rep

    def release(self, it, st, node, t, new):
        st = LockClient.release(self, it, st, node, t, new)
        for k in ('C', 'MK', 'BUF', 'RC'):
            st = st.setts((k, t), None)
        return st

    # ---- which lock file a descriptor or path belongs to
    def fd_of(self, st, v):
        r = []
        for t in v.alts:
            for x in walk_terms(t):
                if x in self.locks and x not in r:
                    r.append(x)
        return r

    def clear(self, it, st, node, t):
        stem = sorted(self.locks[t], key=str)[0]
        bad = None
        if self.mode(st, t) == 'EX' or st.ts.get(('MK', t)):
            if it.unwinding:
                bad = 'although an error is being propagated'
            elif not st.ts.get(('C', t)) and not self.evidently_done(st, t):
                bad = 'although the file has not been (completely) written'
            elif any(isinstance(k, tuple) and k[0] == 'OPENW' and st.ts[k] and
                     any(is_prefix(s, k[2]) for s in self.locks[t]) for k in st.ts):
                bad = 'although the file is still open for writing'
        self.out.check(bad is None, 'cleared-when-complete',
                       self.construct(it, 'clear', stem), self.where(it, node),
                       'the creation of %s is declared complete %s: if it is interrupted, later '
                       'runs use a partial file' % (lit(stem), bad),
                       path=['%s line %s' % (f.qual, getattr(n, 'lineno', '?'))
                             for f, n in zip(it.fstack, it.cstack)])
        return st.setts(('MK', t), None)

    def access(self, it, st, node, v, kind):
        s2 = LockClient.access(self, it, st, node, v, kind)
        if kind == 'w' and not st.ts.get('NOFS'):
            for p in self.inter_paths(v)[:1]:
                ls = self.covering(p)
                if ls:
                    self.out.check(any(st.ts.get(('MK', t)) for t in ls), 'written-marked',
                                   self.construct(it, 'write', p), self.where(it, node),
                                   '%s is written while it is not marked as incomplete: if '
                                   'writing is interrupted, later runs use a partial file'
                                   % lit(p))
                for t in ls:
                    s2 = s2.setts(('C', t), True)
        elif kind == 'w':
            for p in self.inter_paths(v)[:1]:
                for t in self.covering(p):
                    s2 = s2.setts(('C', t), True)
        return s2

    def unchecked(self, name, kwargs):
        n = name.split('.')[-1]
        if n in ('check_output', 'check_call'):
            return False
        if n == 'run' and 'check' in kwargs:
            return kwargs['check'].const(None) is not True
        return True

    def evidently_done(self, st, t):
        """A program whose success is not checked by itself: was its outcome looked at?"""
        r = st.ts.get(('RC', t))
        return r is not None and any(r in set(walk_terms(f)) for f in st.facts)

    def call(self, it, st, node, name, fn, args, kwargs):
        if name in ('os.write', 'os.pwrite') and len(args) > 1:
            fds = self.fd_of(st, args[0])
            c = args[1].const(None)
            for t in fds:
                if c is None or c:
                    st = st.setts(('MK', t), c if isinstance(c, (bytes, str)) else True)
            if fds:
                return [(st, it.opaque_call(st, name, args, kwargs))]
        if name in ('os.ftruncate', 'os.truncate') and args:
            for t in self.fd_of(st, args[0]):
                st = self.clear(it, st, node, t)
        if name in ('.write', '.truncate', '.flush', '.writelines') and fn is not None and \
                fn.op == 'attr':
            b = V(fn.args[0]) if not isinstance(fn.args[0], T) else V(frozenset([fn.args[0]]))
            for t in self.fp_terms(st, b):
                if name == '.truncate':
                    st = self.clear(it, st, node, t)
                elif name == '.flush':
                    if st.ts.get(('BUF', t)):
                        st = st.setts(('MK', t), st.ts[('BUF', t)]).setts(('BUF', t), None)
                else:
                    c = args[0].const(None) if args else None
                    st = st.setts(('BUF', t), c if isinstance(c, (bytes, str)) and c else True)
        if name in ('open', 'io.open') and args:
            ps = [parts(a) for a in args[0].alts]
            m = arg(args, kwargs, 1, 'mode')
            mode = m.const('r') if m is not None else 'r'
            if any(looks_like_lock(p) for p in ps):
                known = [t for t, s in self.locks.items()
                         if any(stem_of_lock(p) in s for p in ps)]
                self.out.check(isinstance(mode, str) and 'w' not in mode, 'mark-survives-open',
                               '%s:open lock file' % it.fn.qual.split('.', 1)[1],
                               self.where(it, node),
                               'opening the lock file discards the mark an interrupted writer '
                               'left in it (mode %r)' % mode)
            else:
                partial = [t for p in self.inter_paths(args[0])[:1] for t in self.covering(p)] \
                    if isinstance(mode, str) and ('+' in mode or mode[0] in 'wax') else []
                r = LockClient.call(self, it, st, node, name, fn, args, kwargs)
                if r is not None:
                    out = []
                    for s, v in r:
                        for t in partial:
                            s = s.setts(('C', t), None)
                        out.append((s, v))
                    return out
                return r
        if name in ('.close', '%exit') and not it.unwinding:
            b = None
            if name == '%exit':
                b = args[0]
            elif fn.op == 'attr':
                b = V(fn.args[0]) if not isinstance(fn.args[0], T) else \
                    V(frozenset([fn.args[0]]))
            if b is not None:
                for k in list(st.ts):
                    if isinstance(k, tuple) and k[0] == 'OPENW' and st.ts[k] and k[1] in b.alts:
                        for t in self.covering(k[2]):
                            st = st.setts(('C', t), True)
        if name in ('os.unlink', 'os.remove') and args:
            # removing the lock file removes the mark
            for t in args[0].alts:
                if looks_like_lock(parts(t)):
                    for x, stems in self.locks.items():
                        if stem_of_lock(parts(t)) in stems:
                            st = self.clear(it, st, node, x)
        r = LockClient.call(self, it, st, node, name, fn, args, kwargs)
        if r is not None and name in SUBPROC and args and self.unchecked(name, kwargs):
            out = []
            for s, v in r:
                for t in self.locks:
                    if s.ts.get(('C', t)) and not st.ts.get(('C', t)):
                        s = s.setts(('C', t), None).setts(('RC', t), v.one)
                out.append((s, v))
            return out
        return r


class MarkGate(MarkClient, GateClient):
    def inline(self, fi, st, args):
        return GateClient.inline(self, fi, st, args)

    def flock(self, it, st, node, args):
        return GateClient.flock(self, it, st, node, args)


# ------------------------------------------------------------------ evaluating conditions
class Unknown(Exception):
    pass


def ev(t, lock, content):
    """Value of a condition if the lock file has this content."""
    if not isinstance(t, T):
        if len(t) != 1:
            raise Unknown
        t = next(iter(t))
    op, a = t.op, t.args
    if op == 'const':
        return a[1]
    if op == 'not':
        return not ev(a[0], lock, content)
    if op in ('eq', 'lt', 'ne', 'le', 'gt', 'ge'):
        x, y = ev(a[0], lock, content), ev(a[1], lock, content)
        try:
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y,
                    'ge': x >= y}[op]
        except TypeError:
            return {'eq': False, 'ne': True}.get(op)
    if op in ('and', 'or'):
        vals = []
        for x in a[0]:
            try:
                vals.append(bool(ev(x, lock, content)))
            except Unknown:
                vals.append(None)
        stop = op == 'or'
        if stop in vals:
            return stop
        if None in vals:
            raise Unknown
        return not stop
    if op == 'in':
        return ev(a[0], lock, content) in ev(a[1], lock, content)
    if op == 'attr' and a[1] == 'st_size' and of_lock(a[0], lock):
        return len(content)
    if op == 'call' and a[0] in ('os.path.getsize',) and of_lock(a[1][0], lock):
        return len(content)
    if op == 'call' and a[0] in ('os.read', 'os.pread') and of_lock(a[1][0], lock):
        return content.encode()
    if op == 'call' and a[0] in ('len', 'bool', 'int', 'str') and len(a[1]) == 1:
        return {'len': len, 'bool': bool, 'int': int, 'str': str}[a[0]](
            ev(a[1][0], lock, content))
    if op in ('len', 'bool', 'int', 'str', 'truth'):
        return {'len': len, 'bool': bool, 'int': int, 'str': str, 'truth': bool}[op](
            ev(a[0], lock, content))
    if op == 'mcall' and of_lock(a[0], lock):
        if a[1] in ('read', 'readline'):
            return content
        if a[1] == 'readlines':
            return [content] if content else []
    raise Unknown


def of_lock(x, lock):
    ts = [x] if isinstance(x, T) else list(x)
    return bool(ts) and all(any(y is lock or y == lock or
                                (y.op == 'fmt' and looks_like_lock(y.args[0]))
                                for y in walk_terms(t)) for t in ts)


def contradicted(s, lock, content):
    """A recorded condition that cannot have this value while the lock file has that content."""
    for f, val in s.facts.items():
        try:
            if bool(ev(f, lock, content)) != bool(val):
                return f
        except Unknown:
            continue
    return None


def gate(prog, rep):
    kc = prog.cls('KernelCode')
    f = prog.find_method(kc, 'lock_intermediate')
    rep.require(f is not None, 'KernelCode.lock_intermediate')
    st, kv, mv = kernel_state(prog)
    c = MarkGate(rep, set())
    it = Interp(prog, c)
    res, _ = run_entry(it, st, f, [kv, param('file_path')])
    rep.seen(it)
    where = '%s:%s' % (f.module.path, f.node.lineno)
    marks = set()
    reads = []
    n = 0
    for s, v in res:
        if s.ts.get('NOFS'):
            continue
        for t, m in [(k[1], m) for k, m in s.ts.items() if isinstance(k, tuple) and k[0] == 'L']:
            n += 1
            if m == 'EX':
                mk = s.ts.get(('MK', t))
                rep.check(bool(mk), 'marked-before-write', 'write-mode:mark', where,
                          'the right to write is handed out without leaving a mark first: if the '
                          'writer is interrupted, its partial file looks complete')
                if mk:
                    marks.add('x' if mk is True else mk if isinstance(mk, str)
                              else mk.decode('latin1'))
            else:
                reads.append((s, t))
    rep.require(n >= 2 and reads, 'lock_intermediate has no read or no write mode')
    for s, t in reads:
        bad = sorted(m for m in marks or {'x'} if contradicted(s, t, m) is None)
        rep.check(not bad, 'read-unmarked', 'read-mode:mark', where,
                  'a cached file is used on a path that does not establish (after waiting for '
                  'the lock) that its creation was completed',
                  sample='excluded: %s' % sorted(marks))
        dirty = contradicted(s, t, '')
        rep.check(dirty is None, 'clean-readable', 'read-mode:clean', where,
                  'a completed file (empty lock file) is not accepted: %s' % str(dirty)[:120])


def users(prog):
    """Everything that makes or uses intermediates: (function, state, leading arguments)."""
    jobs = []
    for label, ci, f in entries(prog):
        st, kv, mv = kernel_state(prog)
        jobs.append((f, st, [kv]))
    base = prog.cls('CachePredictor')
    for ci in prog.subclasses(base):
        init = prog.find_method(ci, '__init__')
        if ci is base or init is None or init.cls is None:
            continue
        st, kv, mv = kernel_state(prog)
        st, sv = root_inst(st, ci, 'predictor')
        h = st.heap[('root', 'predictor')].copy()
        h.root = None
        st = st.sethobj(('root', 'predictor'), h)
        jobs.append((init, st, [sv, kv, mv]))
    for ci in model_classes(prog):
        f = prog.find_method(ci, 'analyze')
        if f is None or f.cls is None:
            continue
        st, kv, mv = kernel_state(prog)
        st, sv = root_inst(st, ci, 'model')
        h = st.heap[('root', 'model')].copy()
        h.slots['kernel'] = (kv, True)
        h.slots['machine'] = (mv, True)
        st = st.sethobj(('root', 'model'), h)
        jobs.append((f, st, [sv]))
    return jobs


def run(prog, rep, tier):
    rep.rule('read-unmarked', 'read mode is entered only on paths whose conditions, evaluated '
                              'after the last lock was waited for, exclude the mark of an '
                              'unfinished writer')
    rep.rule('clean-readable', 'these conditions admit the state a completed writer leaves')
    rep.rule('marked-before-write', 'write mode is handed out only after the mark was set')
    rep.rule('written-marked', 'a file is written only while it is marked as incomplete')
    rep.rule('cleared-when-complete', 'the mark is cleared only on normal paths, after the file '
                                      'was written and closed')
    rep.rule('mark-survives-open', 'opening the lock file keeps the mark')
    gate(prog, rep)
    n = 0
    rel = relevant_functions(prog)
    for f, st, pre in users(prog):
        c = MarkClient(rep, rel)
        it = Interp(prog, c)
        run_entry(it, st, f, list(pre) + [param(x) for x in f.params[len(pre):]])
        rep.seen(it)
        n += 1
    rep.count('entry_points', n)
