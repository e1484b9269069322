"""P03: a cached artefact is only used when it is newer than everything it was made from."""
import ast

from ksa.files import *
from ksa.interp import Interp
from ksa.roots import param, run_entry
from ksa.terms import T, V, walk_terms
from checks.p01 import LockClient, kernel_state

EXPLANATION = (
    'Path-sensitive abstract interpretation of the gate that decides between reading and '
    're-creating an intermediate: on every path that ends in read mode, the branch conditions '
    'recorded on that path must imply that the modification time of the file is strictly later '
    'than that of the machine file, the kernel file and the package, all on the same clock. The '
    'package time stamp itself is analysed separately (latest over all files, no filter).')
ASSUMPTIONS = [
    'file modification times are set by the local clock and never set back',
    'reading under a shared lock goes through this gate (P01 decides the locking of reads)',
]
MIN = {'gate': 3, 'same-clock': 3, 'package-time': 1}
WALKERS = {'walk', 'listdir', 'scandir', 'rglob', 'glob', 'iglob', 'iterdir'}


def walks(fi):
    return any((isinstance(n, ast.Attribute) and n.attr in WALKERS) or
               (isinstance(n, ast.Name) and n.id in WALKERS) for n in ast.walk(fi.node))


class GateClient(LockClient):
    def inline(self, fi, st, args):
        return not walks(fi)

    def flock(self, it, st, node, args):
        """While waiting for a lock others may have changed the file and the lock file: what was
        found out before says nothing about the state afterwards (a conversion of an exclusive
        lock keeps everybody out)."""
        out = LockClient.flock(self, it, st, node, args)
        if any(self.mode(st, t) != 'EX' for t in self.fp_terms(st, args[0])):
            out = [(s.with_(facts={f: v for f, v in s.facts.items() if not of_files(f)}), v)
                   for s, v in out]
        return out


def of_files(t):
    return any(x.op == 'call' and isinstance(x.args[0], str) and
               x.args[0].split('.')[0] in ('os', 'open', 'pathlib', 'io') for x in walk_terms(t))


def zone(ts):
    """Clock a time value is expressed on."""
    r = set()
    for t in ts:
        z = None
        for x in walk_terms(t):
            if x.op == 'call' and isinstance(x.args[0], str):
                n = x.args[0].split('.')[-1]
                a = x.args[1] if len(x.args) > 1 else ()
                kw = x.args[2] if len(x.args) > 2 else ()
                if n in ('utcfromtimestamp', 'utcnow'):
                    z = 'utc'
                elif n == 'fromtimestamp':
                    z = 'aware' if len(a) > 1 or kw else 'local'
                elif n == 'now':
                    z = 'aware' if a or kw else 'local'
                elif n in ('gmtime', 'localtime'):
                    z = n
            elif x.op == 'mcall' and isinstance(x.args[1], str) and x.args[1] in (
                    'astimezone', 'replace', 'timestamp'):
                z = x.args[1]
            if z:
                break
        r.add(z or 'raw')
    return r


def stat_targets(ts):
    """[(path alternatives, timestamp attribute)] of every stat inside the terms."""
    out = []
    for t in ts:
        for x in walk_terms(t):
            if x.op == 'attr' and isinstance(x.args[1], str) and x.args[1].startswith('st_'):
                b = x.args[0]
                for c in ([b] if isinstance(b, T) else sorted(b)):
                    if c.op == 'call' and c.args[0] in ('os.stat', 'os.lstat', 'os.fstat'):
                        out.append((c.args[1][0], x.args[1]))
                    elif c.op == 'mcall':
                        out.append((frozenset([c]), x.args[1]))
            elif x.op == 'call' and x.args[0] in ('os.path.getmtime', 'os.path.getctime',
                                                  'os.path.getatime'):
                out.append((x.args[1][0], {'m': 'st_mtime', 'c': 'st_ctime', 'a': 'st_atime'}[
                    x.args[0][-5]]))
    return out


def is_file(alts, pred):
    return bool(alts) and all(pred(t) for t in alts)


def root_attr(t, root, name):
    return t.op == 'attr' and t.args[1] == name and isinstance(t.args[0], T) and \
        t.args[0].op == 'obj' and t.args[0].args[0] == ('root', root)


KINDS = frozenset(['machine', 'kernel', 'package'])


def leaves(ts):
    """[(time term)] of a bound, looking through max(...)."""
    out = []
    for t in ts:
        a = max_args(t)
        if a is None:
            out.append(t)
        else:
            for x in a:
                out += leaves(x)
    return out


def max_args(t):
    if t.op == 'call' and t.args[0] in ('max', 'builtins.max'):
        args = t.args[1]
    elif t.op == 'max':
        args = t.args[0]
    else:
        return None
    out = []
    for a in args:
        if isinstance(a, tuple):
            a = a[1]
        out.append([a] if isinstance(a, T) else sorted(a))
    return out


def is_now(t):
    return any(x.op == 'call' and isinstance(x.args[0], str) and
               x.args[0].split('.')[-1] in ('utcnow', 'now') for x in walk_terms(t))


def later_than(prog, ts, pkg_fns):
    """What a file is newer than if it is newer than this bound."""
    r = None
    for t in ts:
        a = max_args(t)
        if a is not None:
            k = frozenset().union(*[later_than(prog, x, pkg_fns) for x in a])
        elif is_now(t):
            k = KINDS
        else:
            k = frozenset(classify(prog, t, pkg_fns))
        r = k if r is None else r & k
    return r or frozenset()


def run(prog, rep, tier):
    rep.rule('gate', 'read mode is entered only on paths where the file is strictly newer than '
                     'the machine file, the kernel file and the package')
    rep.rule('same-clock', 'both sides of each freshness comparison are on the same clock and use '
                           'the modification time')
    rep.rule('undistorted', 'the time stamps are compared as the file system gives them')
    rep.rule('created-anew', 'a file found missing or out of date is made anew before it is used, '
                             'handed out or released')
    rep.rule('package-time', 'the time stamp of the package is the latest modification time over '
                             'all files below its directory')
    kc = prog.cls('KernelCode')
    f = prog.find_method(kc, 'lock_intermediate')
    rep.require(f is not None, 'KernelCode.lock_intermediate')
    st, kv, mv = kernel_state(prog)
    c = GateClient(rep, set())
    quiet = rep.findings, dict(rep.obligations)
    it = Interp(prog, c)
    res, _ = run_entry(it, st, f, [kv, param('file_path')])
    # only the gate is decided here: lock obligations belong to P01
    rep.findings = {}
    rep.obligations = {k: v for k, v in quiet[1].items()}
    rep.seen(it)
    pkg_fns = set()
    n = 0
    for s, v in res:
        modes = {m for k, m in s.ts.items() if isinstance(k, tuple) and k[0] == 'L'}
        ret_sh = any(x.op == 'ext' and x.args[0] == 'fcntl.LOCK_SH'
                     for t in v.alts for x in walk_terms(t))
        if not ret_sh and 'SH' not in modes:
            continue
        n += 1
        decide(prog, rep, f, s, pkg_fns)
    rep.count('read_mode_paths', n)
    rep.require(n >= 1, 'no path of lock_intermediate ends in read mode')
    for name in sorted(pkg_fns):
        package_time(prog, rep, name)
    anew(prog, rep)


class AnewClient(LockClient):
    """Who was told to make a file makes it before using or releasing it."""

    def __init__(self, rep, relevant):
        from checks.p11 import Sink
        LockClient.__init__(self, Sink(), relevant)
        self.out = rep

    def is_fresh_fact(self, st):
        return any(val and stat_targets([f]) for f, val in st.facts.items())

    def access(self, it, st, node, v, kind):
        if kind == 'r' and not st.ts.get('NOFS'):
            for p in self.inter_paths(v)[:1]:
                for t in self.covering(p):
                    if self.mode(st, t) == 'EX':
                        self.out.check(bool(st.ts.get(('W', t))), 'created-anew',
                                       self.construct(it, 'use', p), self.where(it, node),
                                       '%s is used although it was found missing or out of date '
                                       'and has not been made anew' % lit(p),
                                       path=['%s line %s' % (f.qual, getattr(n, 'lineno', '?'))
                                             for f, n in zip(it.fstack, it.cstack)])
        return LockClient.access(self, it, st, node, v, kind)

    def release(self, it, st, node, t, new):
        if self.mode(st, t) == 'EX' and not st.ts.get('NOFS') and not it.unwinding and \
                not st.ts.get(('EXFRESH', t)):
            p = sorted(self.locks[t], key=str)[0]
            self.out.check(bool(st.ts.get(('W', t))), 'created-anew',
                           self.construct(it, 'release', p), self.where(it, node),
                           '%s was found missing or out of date, but is released without having '
                           'been made anew' % lit(p))
        return LockClient.release(self, it, st, node, t, new)


def anew(prog, rep):
    from checks.p11 import users
    rel = relevant_functions(prog)
    n = 0
    for f, st, pre in users(prog):
        c = AnewClient(rep, rel)
        it = Interp(prog, c)
        res, _ = run_entry(it, st, f, list(pre) + [param(x) for x in f.params[len(pre):]])
        rep.seen(it)
        n += 1
        for s, v in res:
            for k, m in s.ts.items():
                if isinstance(k, tuple) and k[0] == 'L' and k[1] in c.locks and m == 'EX' and \
                        not s.ts.get('NOFS'):
                    p = sorted(c.locks[k[1]], key=str)[0]
                    rep.check(bool(s.ts.get(('W', k[1]))), 'created-anew',
                              '%s:return %s' % (f.name, lit(p)),
                              '%s:%s' % (f.module.path, f.node.lineno),
                              '%s is handed out although it was found missing or out of date and '
                              'has not been made anew' % lit(p))
    rep.count('users_of_intermediates', n)


def above_stat(ts):
    """Subterms of a time value, down to where it is read from the file system."""
    todo = list(ts)
    while todo:
        x = todo.pop()
        if isinstance(x, V):
            x = x.alts
        if isinstance(x, (tuple, frozenset, list)):
            todo += list(x)
            continue
        if not isinstance(x, T):
            continue
        yield x
        if x.op == 'call' and isinstance(x.args[0], str) and x.args[0].split('.')[-1] in (
                'stat', 'lstat', 'fstat', 'getmtime', 'getctime', 'getatime') or \
                x.op == 'mcall' and x.args[1] in ('stat', 'lstat'):
            continue
        todo += list(x.args)


def distorted(ts):
    """How a time value differs from what the file system says; None if it does not."""
    for x in above_stat(ts):
        n = x.args[0] if x.op == 'call' else x.args[1] if x.op == 'mcall' else x.op
        n = n.split('.')[-1] if isinstance(n, str) else ''
        if x.op == 'bin' or n in ('timedelta', '__add__', '__sub__'):
            return 'is computed with'
        if n in ('int', 'round', 'floor', 'ceil', 'trunc') or n == 'replace' and x.op == 'mcall':
            return 'is rounded'
        if n == 'lstat' or x.op in ('call', 'mcall') and 'follow_symlinks' in str(x.args[2:]):
            return 'is that of the link, not of the file'
    return None


def decide(prog, rep, f, s, pkg_fns):
    where = '%s:%s' % (f.module.path, f.node.lineno)
    bounds = {}
    for t, val in implied(s.facts):
        if t.op != 'lt':
            continue
        for lo, hi, strict in ((t.args[0], t.args[1], True),) if val else \
                ((t.args[1], t.args[0], False),):
            tg = stat_targets(hi)
            if not tg or not all(is_file(p, lambda x: x.op == 'param') for p, a in tg):
                continue
            for kind in later_than(prog, lo, pkg_fns):
                for o in leaves(lo):
                    if is_now(o) or kind in classify(prog, o, pkg_fns):
                        bounds.setdefault(kind, []).append((o, hi, strict, tg))
    for kind, text in (('machine', 'machine file'), ('kernel', 'kernel file'),
                       ('package', 'kerncraft package')):
        bs = bounds.get(kind, [])
        strict = [b for b in bs if b[2]]
        rep.check(bool(strict), 'gate', 'read-mode:%s' % text, where,
                  'a cached file is used on a path that does not establish that it is %s newer '
                  'than the %s' % ('strictly' if bs else 'actually', text),
                  sample='newer than %s' % text)
        for o, hi, st_, tg in strict:
            zo = pkg_zone(prog, o) if kind == 'package' and not is_now(o) else zone([o])
            zh = zone(hi)
            attrs = {a for _, a in tg} | {a for _, a in stat_targets([o])}
            rep.check(zo == zh and len(zh) == 1 and attrs == {'st_mtime'}, 'same-clock',
                      'compare:%s' % text, where,
                      'the freshness comparison with the %s mixes %s and %s time stamps (%s)' % (
                          text, sorted(zo), sorted(zh), sorted(attrs)))
            d = distorted([o]) or distorted(hi)
            rep.check(d is None, 'undistorted', 'compare:%s' % text, where,
                      'a time stamp in the freshness comparison with the %s %s' % (text, d))


def classify(prog, o, pkg_fns):
    r = []
    for p, a in stat_targets([o]):
        if is_file(p, lambda x: root_attr(x, 'machine', '_path')):
            r.append('machine')
        elif is_file(p, lambda x: root_attr(x, 'kernel', '_filename')):
            r.append('kernel')
    for x in walk_terms(o):
        if x.op == 'call' and isinstance(x.args[0], str):
            fi = prog.lookup(x.args[0]) if '.' in x.args[0] else None
            if fi is not None and hasattr(fi, 'node') and hasattr(fi, 'params') and walks(fi):
                r.append('package')
                pkg_fns.add(x.args[0])
    return r


class TimeClient(FileClient):
    def __init__(self):
        self.stats = []
        self.conds = []
        self.prunes = []

    def call(self, it, st, node, name, fn, args, kwargs):
        if name in ('os.stat', 'os.path.getmtime', 'os.lstat'):
            self.stats.append((st, node, args))
        return FileClient.call(self, it, st, node, name, fn, args, kwargs)

    def on_event(self, ev):
        if ev.kind == 'cond':
            self.conds.append(ev.data['term'])
        elif ev.kind == 'slice':
            srcs = list(ev.data['base'].alts)
            for t in list(srcs):
                h = ev.st.heap.get(t.args[0]) if t.op == 'obj' else None
                for g in (getattr(h, 'segs', None) or ()) if h is not None else ():
                    srcs += list(getattr(g.src, 'alts', g.src if isinstance(
                        g.src, frozenset) else ()) or ())
            if any(whole_walk(t) for t in srcs):
                self.prunes.append(ev)
        elif ev.kind == 'mutate':
            tg = ev.data.get('target')
            if tg is not None and any(from_walk(t) for t in tg.alts):
                self.prunes.append(ev)
        return False


def whole_walk(t):
    while isinstance(t, T) and t.op == 'call' and t.args[0] in (
            'list', 'sorted', 'tuple', 'iter', 'reversed') and t.args[1]:
        a = t.args[1][0]
        t = a if isinstance(a, T) else next(iter(a)) if len(a) == 1 else None
    return isinstance(t, T) and t.op == 'call' and t.args[0] in ('os.walk', 'os.listdir',
                                                                 'os.scandir')


def from_walk(t):
    return any(x.op == 'call' and x.args[0] in ('os.walk', 'os.listdir', 'os.scandir')
               for x in walk_terms(t))


def run_time(prog, name):
    fi = prog.lookup(name)
    from ksa.interp import State
    c = TimeClient()
    it = c.it = Interp(prog, c)
    from checks.p02 import entry_args
    res, _ = run_entry(it, State(), fi, [], entry_args(prog, fi, 0))
    return fi, c, it, res


def pkg_zone(prog, o):
    for x in walk_terms(o):
        if x.op == 'call' and isinstance(x.args[0], str) and '.' in x.args[0]:
            fi = prog.lookup(x.args[0])
            if fi is not None and hasattr(fi, 'params') and walks(fi):
                outer = zone([o])
                if outer != {'raw'}:
                    return outer
                return zone([t for s, v in run_time(prog, x.args[0])[3] for t in v.alts])
    return set()


def package_time(prog, rep, name):
    fi, c, it, res = run_time(prog, name)
    rep.seen(it)
    where = '%s:%s' % (fi.module.path, fi.node.lineno)
    short = fi.qual.split('.', 1)[1]
    terms = [t for s, v in res for a in v.alts for t in walk_deep(it, a)]
    uses = [t for t in terms if t.op == 'call' and t.args[0] == 'os.walk']
    rep.check(bool(uses) and all(any(x.op in ('ext', 'default', 'const', 'attr', 'call')
                                     and '__file__' in str(x) for x in walk_terms(u))
                                 for u in uses),
              'package-time', short + ':directory', where,
              'the package time stamp is not derived from a walk over the directory of the '
              'package itself')
    for st, node, args in c.stats:
        flt = [t for t in st.facts if from_walk(t)]
        rep.check(not flt, 'package-time', short + ':filter',
                  '%s:%s' % (fi.module.path, node.lineno),
                  'only some of the files of the package are considered for its time stamp')
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.For, ast.While)):
            for b in ast.walk(n):
                if isinstance(b, (ast.Break, ast.Return)):
                    rep.bad('package-time', short + ':stops-early',
                            '%s:%s' % (fi.module.path, b.lineno),
                            'the walk over the package ends before all files were considered')
    for t in terms:
        if t.op == 'call' and isinstance(t.args[0], str) and t.args[0].split('.')[-1] in (
                'islice', 'next') and from_walk(t):
            rep.bad('package-time', short + ':stops-early', where,
                    'the walk over the package ends before all files were considered')
    d = distorted([t for s, v in res for t in v.alts]) or distorted(
        [t for t in terms if t.op in ('call', 'max') and stat_targets([t])])
    rep.check(d is None, 'undistorted', short, where, 'the time stamp of the package %s' % d)
    for ev in c.prunes:
        rep.bad('package-time', short + ':prunes', ev.where,
                'directories are removed from the walk over the package')
    # latest: a max over the stat values, or a running maximum
    latest = False
    for t in terms:
        if t.op in ('call', 'max') and (t.op == 'max' or t.args[0] in ('max', 'builtins.max')):
            if stat_targets(list(walk_deep(it, t))):
                latest = True
        if t.op == 'call' and t.args[0] in ('min', 'builtins.min') or t.op == 'min':
            latest = False
            break
    if not latest:
        for t in c.conds:
            if t is not None and t.op == 'lt' and stat_targets(t.args[1]) and \
                    not stat_targets(t.args[0]):
                latest = True
    rep.check(latest, 'package-time', short + ':latest', where,
              'the package time stamp is not the latest of the files of the package')
