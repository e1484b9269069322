"""P09: a results file keeps what it holds and is only replaced by a complete new one."""
import ast

from ksa.files import arg, parts, walk_deep, relevant_functions
from ksa.interp import Interp, Client, State
from ksa.roots import param, run_entry
from ksa.terms import T, V, C, mk, walk_terms
from checks.p08 import subterms

EXPLANATION = (
    'The command line programs that write results files are interpreted abstractly. A typestate '
    'per file (read / empty / unreadable, temporary file open / written / closed) is followed '
    'along all paths, exceptional ones included: the file named by the user must never be opened '
    'for writing, truncated or written in place; it may only be replaced by renaming a temporary '
    'file of the same directory that was written and closed; what is written must be built from '
    'the entries read from the file before, and on no path may a file that could not be read be '
    'replaced. New results must be saved before the next sweep point starts.')
ASSUMPTIONS = [
    'renaming within a directory is atomic and only one process adds to a results file at a time',
    'an empty file (end of file while reading) holds no results',
]
MIN = {'not-in-place': 5, 'complete': 4, 'same-directory': 4, 'entries-kept': 3,
       'unreadable-kept': 2, 'saved': 2, 'merge': 1}
LOADS = {'pickle.load', 'pickle.Unpickler', 'json.load', 'dill.load', 'marshal.load'}
DUMPS = {'pickle.dump', 'json.dump', 'dill.dump', 'marshal.dump'}
DUMPSS = {'pickle.dumps', 'json.dumps'}
MOVES = {'shutil.move', 'os.rename', 'os.replace', 'shutil.copy', 'shutil.copyfile', 'os.link',
         'shutil.copy2'}
PARTIAL = {'slice', 'filtered', 'min', 'max', 'cmp'}
PICKS = {'islice', 'min', 'max', 'filter', 'sample', 'choice', 'nlargest', 'nsmallest'}
LOSES = {'clear', 'pop', 'popitem', '__delitem__', 'delitem', 'del'}


class ModeClient(Client):
    """File modes of command line options."""

    def __init__(self):
        self.modes = {}

    def inline(self, fi, st, args):
        return True

    def call(self, it, st, node, name, fn, args, kwargs):
        if name.endswith('add_argument') and args:
            t = kwargs.get('type')
            d = kwargs.get('dest')
            flags = [a.const(None) for a in args if isinstance(a.const(None), str)]
            long_ = [f for f in flags if f.startswith('--')] or flags
            dest = d.const(None) if d is not None else \
                long_[0].lstrip('-').replace('-', '_') if long_ else None
            if t is not None:
                for x in t.alts:
                    if x.op == 'call' and x.args[0] == 'argparse.FileType':
                        m = 'r'
                        for y in x.args[1:]:
                            for z in walk_terms(y):
                                if z.op == 'const' and isinstance(z.args[1], str):
                                    m = z.args[1]
                                    break
                        self.modes[dest] = (m, '%s:%s' % (it.fn.module.path, node.lineno))
        return None

    def on_event(self, ev):
        return False


def mentions_name(t, names):
    return t.op == 'attr' and t.args[1] == 'name'


class StoreClient(Client):
    mark_filtered = 'all'

    def __init__(self, prog, rep, mod, modes, rel):
        self.cut = set()           # containers filled with some of the entries only
        self.prog = prog
        self.rep = rep
        self.mod = mod
        self.modes = modes
        self.rel = rel
        self.it = None
        self.files = {}            # temp file object term -> path alts
        self.final = False
        self.point_loop = None
        self.new = {}              # setitem sites of new results -> loops
        self.obls = {}

    def inline(self, fi, st, args):
        if fi.module is self.mod:
            return not fi.name.startswith('create_parser') and fi.cls is None and not (
                fi.name in [f.name for f in it_stack(self.it)])
        return fi.cls is None and fi.name in self.rel

    def partition(self, st):
        return frozenset((k, v) for k, v in st.ts.items())

    def no_implicit(self, name):
        return name in LOADS

    def obl(self, rule, what, it, node, ok, msg):
        k = (rule, what, '%s:%s' % (it.fn.module.path if it.fn else '?',
                                    getattr(node, 'lineno', '?')))
        cur = self.obls.get(k)
        if cur is None or cur[0]:
            self.obls[k] = (ok, msg)

    def decide(self, it, st, cond):
        """Options that are files or None: "is None" and truth are the same question."""
        term, neg = cond
        f = None
        for t, v in st.facts.items():
            if not isinstance(t, T) or not isinstance(v, bool):
                continue
            x = self.file_or_none(term)
            y = self.file_or_none(t)
            if x is not None and y is not None and x[0] == y[0] and t is not term:
                f = v if x[1] == y[1] else not v
        if f is None:
            return None
        return f != neg

    def file_or_none(self, t):
        """(option, whether the truth of the term means that there is a file)"""
        if t.op == 'attr' and t.args[1] in self.modes:
            return t, True
        if t.op in ('is', 'eq'):
            a = [next(iter(x)) for x in t.args if isinstance(x, frozenset) and len(x) == 1]
            o = [x for x in a if x.op == 'attr' and x.args[1] in self.modes]
            if len(a) == 2 and len(o) == 1 and any(
                    x.op == 'const' and x.args[-1] is None for x in a):
                return o[0], False
        return None

    # ---- which file is meant
    def user_file(self, t):
        """File object opened for a command line option: its option name."""
        if t.op == 'attr' and isinstance(t.args[1], str) and t.args[1] in self.modes:
            return t.args[1]
        if t.op in ('elem', 'item'):
            x = t.args[0]
            for y in (x if isinstance(x, frozenset) else [x]):
                if isinstance(y, T):
                    return self.user_file(y)
        return None

    def user_path(self, v):
        """Option whose file name this is."""
        r = set()
        for t in v.alts:
            if t.op == 'attr' and t.args[1] == 'name':
                b = t.args[0]
                for x in (b if isinstance(b, frozenset) else [b]):
                    r.add(self.user_file(x) if isinstance(x, T) else None)
            else:
                r.add(None)
        r.discard(None)
        return r

    def stem(self, v):
        t = v.one
        return parts(t) if t is not None else None

    def call(self, it, st, node, name, fn, args, kwargs):
        short = name.split('.')[-1]
        if name in ('os.path.abspath', 'os.path.realpath', 'os.fspath', 'str',
                    'pathlib.Path') and args:
            return [(st, args[0])]
        if name in LOADS and args:
            return self.load(it, st, node, name, args)
        if name in DUMPS:
            return self.dump(it, st, node, args[0], arg(args, kwargs, 1, 'file') or
                             arg(args, kwargs, 1, 'fp'))
        if name in ('open', 'io.open', 'os.fdopen') and args:
            return self.open(it, st, node, args, kwargs)
        if name in ('tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile'):
            v = it.opaque_call(st, name, args, kwargs)
            p = V(mk('attr', v.one, 'name'))
            return [(st.setts(('tmp', p.one), 'open'), v)]
        if name == '%exit':
            return [(self.closed(st, args[0]), C(None))]
        if name in MOVES and len(args) >= 2:
            return self.move(it, st, node, name, args)
        if name == '%exit' or fn is None:
            return None
        if name in ('os.remove', 'os.unlink', 'os.truncate') and args or \
                fn.op == 'attr' and short == 'unlink':
            u = self.user_path(args[0] if args else V(fn.args[0]))
            self.obl('not-in-place', 'files', it, node, not u,
                     'the results file given by the user is removed')
        if fn.op == 'attr' and short in ('close', 'seek', 'truncate', 'write', 'writelines',
                                         'write_text', 'write_bytes', 'flush'):
            obj = fn.args[0]
            u = self.user_file(obj)
            if short == 'close':
                return [(self.closed(st, V(obj)), C(None))]
            if short == 'seek' and u and args:
                start = args[0].const(None) == 0 and (
                    len(args) < 2 or args[1].const(None) in (0, 'os.SEEK_SET'))
                return [(st.setts(('seek', u), start), C(None))]
            p = self.path_of(V(obj))
            if short in ('truncate', 'seek') and p is not None and \
                    st.ts.get(('tmp', p)) == 'dumped':
                return [(st.setts(('tmp', p), 'mixed'), C(None))]
            if short in ('truncate', 'write', 'writelines', 'write_text', 'write_bytes'):
                hit = u or self.user_path(V(obj))
                self.obl('not-in-place', 'results file of --%s' % u if u else 'files', it, node,
                         not hit, 'the results file given by the user is changed in place (%s)'
                         % short)
                if short.startswith('write') and args:
                    return self.dump(it, st, node, args[0], V(obj))
        return None

    def open(self, it, st, node, args, kwargs):
        m = arg(args, kwargs, 1, 'mode')
        mode = m.const('?') if m is not None else 'r'
        v = it.opaque_call(st, 'open', args, kwargs)
        write = not isinstance(mode, str) or any(c in mode for c in 'wax+?')
        if write:
            u = self.user_path(args[0])
            self.obl('not-in-place', 'open', it, node, not u,
                     'the results file given by the user (--%s) is opened for writing' %
                     ', '.join(sorted(u)))
            p = args[0].one
            if p is not None:
                self.files[v.one] = args[0]
                old = isinstance(mode, str) and ('a' in mode or mode.startswith('r'))
                st = st.setts(('tmp', p), 'stale' if old else 'open')
        return [(st, v)]

    def path_of(self, v):
        t = v.one
        if t in self.files:
            return self.files[t].one
        if t is not None and t.op in ('call', 'mcall') and any(
                isinstance(a, str) and 'TemporaryFile' in a for a in t.args):
            return mk('attr', t, 'name')
        return None

    def closed(self, st, v):
        p = self.path_of(v)
        if p is not None and ('tmp', p) in st.ts:
            s = st.ts[('tmp', p)]
            return st.setts(('tmp', p), {'open': 'empty', 'dumped': 'closed'}.get(s, s))
        return st

    def load(self, it, st, node, name, args):
        out = []
        us = {self.user_file(t) for t in args[0].alts} - {None}
        v = it.opaque_call(st, name, args, {})
        if len(us) != 1:
            it.raise_(st, {'Exception'}, node)
            return [(st, v)]
        u = us.pop()
        mode = self.modes[u][0]
        self.obl('entries-kept', 'position of --%s' % u, it, node,
                 'a' not in mode or st.ts.get(('seek', u)),
                 'the results file is read from its end (opened for appending), so that it seems '
                 'to be empty')
        it.raise_(st.setts(('load', u), 'eof'), {'EOFError'}, node)
        for e in ('Exception',):
            it.raise_(st.setts(('load', u), 'failed'), {'pickle.UnpicklingError'}, node)
            it.raise_(st.setts(('load', u), 'failed'), {'AttributeError'}, node)
            it.raise_(st.setts(('load', u), 'failed'), {'OSError'}, node)
        return [(st.setts(('load', u), 'ok'), v)]

    def dump(self, it, st, node, content, file):
        if file is None:
            return None
        for t in file.alts:
            u = self.user_file(t)
            if u:
                self.obl('not-in-place', 'dump', it, node, False,
                         'results are written directly into the file given by the user (--%s)' % u)
        p = self.path_of(file)
        if p is not None:
            loaded = set()
            for k, s in st.ts.items():
                if k[0] == 'load' and s == 'ok':
                    loaded.add(k[1])
            has = set()
            for u in loaded:
                if self.keeps(it, st, content, u):
                    has.add(u)
            now = st.ts.get(('tmp', p))
            st = st.setts(('tmp', p), 'dumped' if now in ('open', None) else 'mixed').setts(
                ('holds', p), frozenset(has))
        # writing may fail half way: the temporary file is then incomplete
        return [(st, C(None))]

    def keeps(self, it, st, v, u):
        """Does every alternative contain what was loaded from file u?"""
        def is_loaded(t):
            return t.op == 'call' and t.args[0] in LOADS and any(
                self.user_file(y) == u for y in walk_terms(t))

        def keep(t, seen):
            if t in seen:
                return False
            seen = seen | {t}
            if is_loaded(t):
                return True
            if t.op == 'obj' and t.args[0] in st.heap:
                h = st.heap[t.args[0]]
                vals = [g.v for g in h.segs] + [x for x, _ in h.slots.values()] + \
                    (list(h.other) if h.other else [])
                return t not in self.cut and any(reaches(x) for z in vals for x in z.alts) and \
                    not any(x.op == 'filtered' and reaches(x.args[0])
                            for z in vals for x in z.alts)
            if t.op == 'loopvar':
                return all(keep(x, seen) for x in it.loopvars.get(t, ()))
            if t.op in ('call', 'mcall', 'bin', 'fmt', 'phi'):
                return reaches(t)
            return False

        memo = {}

        def reaches(t):
            """Is a loaded entry part of it, not through a selection?"""
            if isinstance(t, (frozenset, tuple)):
                return any(reaches(x) for x in t)
            if not isinstance(t, T):
                return False
            if t in memo:
                return memo[t]
            memo[t] = False
            if is_loaded(t):
                r = True
            elif t.op in PARTIAL or t in self.cut:
                r = False
            elif t.op in ('call', 'mcall') and any(
                    isinstance(a, str) and a.split('.')[-1] in PICKS for a in t.args):
                r = False
            elif t.op == 'loopvar':
                r = any(reaches(x) for x in it.loopvars.get(t, ()))
            elif t.op == 'obj' and t.args[0] in st.heap:
                h = st.heap[t.args[0]]
                r = any(reaches(x) for z in [g.v for g in h.segs] + [
                    x for x, _ in h.slots.values()] + (list(h.other) if h.other else [])
                    for x in z.alts)
            else:
                r = any(reaches(x) for x in t.args)
            memo[t] = r
            return r
        return bool(v.alts) and all(keep(t, frozenset()) for t in v.alts)

    def move(self, it, st, node, name, args):
        src, dst = args[0], args[1]
        us = self.user_path(dst)
        gone = self.user_path(src)
        self.obl('not-in-place', 'files', it, node, not gone or name not in (
            'shutil.move', 'os.rename', 'os.replace'), 'the results file is moved away: there is '
            'none until the new one is in its place')
        if not us:
            if any(y.op == 'attr' and y.args[1] == 'name' and self.user_path(V(y))
                   for t in dst.alts for y in walk_terms(t)) and src.one is not None and (
                       'tmp', src.one) in st.ts:
                self.obl('complete', 'results file', it, node, False,
                         'what was written replaces another file than the results file')
            return None
        u = sorted(us)[0]
        self.obl('complete', 'atomic replacement of --%s' % u, it, node,
                 name in ('shutil.move', 'os.rename', 'os.replace'),
                 'the results file is replaced by copying (%s), which can stop half way' % name)
        p = src.one
        s = st.ts.get(('tmp', p)) if p is not None else None
        self.obl('complete', 'temporary file for --%s' % u, it, node, s == 'closed',
                 'the results file is replaced by a file that is %s' % {
                     None: 'not known to be completely written', 'open': 'still open and empty',
                     'dumped': 'not yet closed', 'empty': 'empty',
                     'stale': 'not written', 'mixed': 'holding more or less than was written to it '
                     'now (what was there before, or a part cut off)'}.get(s, s))
        self.obl('same-directory', 'temporary file for --%s' % u, it, node,
                 self.beside(it, src, dst), 'the temporary file is not in the directory of the '
                 'results file, replacing it is not atomic')
        if self.modes[u][0] not in ('r', 'rb') and u in self.loaded_opts:
            l = st.ts.get(('load', u))
            self.obl('entries-kept', 'read before --%s is replaced' % u, it, node,
                     l is not None or self.known_empty(st, u), 'the results file is replaced without having been read')
            self.obl('unreadable-kept', 'unreadable --%s' % u, it, node, l != 'failed',
                     'a results file that could not be read is replaced')
            if l == 'ok':
                h = st.ts.get(('holds', p))
                self.obl('entries-kept', 'entries of --%s' % u, it, node,
                         h is not None and u in h,
                         'the new content of the results file does not include the entries it '
                         'held before')
        return [(st.setts('dirty', None) if u in self.loaded_opts else st, C(None))]

    def known_empty(self, st, u):
        """Is it known that the results file holds nothing?"""
        for t, held in st.facts.items():
            if not isinstance(t, T) or not any(
                    x.op == 'call' and x.args[0] == 'os.path.getsize' or
                    x.op == 'attr' and x.args[1] == 'st_size' for x in walk_terms(t)):
                continue
            consts = {x.args[1] for x in walk_terms(t) if x.op == 'const' and isinstance(
                x.args[1], int)}
            if t.op in ('lt', 'call', 'attr') and not held and consts <= {0} or \
                    t.op == 'eq' and held and consts == {0}:
                return True
        return False

    def beside(self, it, src, dst):
        t, d = src.one, dst.one
        if t is None or d is None:
            return False
        ps, pd = parts(t), parts(d)
        if len(ps) > len(pd) and ps[:len(pd)] == pd and all(
                isinstance(x, str) and '/' not in x or not isinstance(x, str)
                for x in ps[len(pd):]):
            return True
        if any(x.op == 'call' and x.args[0] == 'os.path.basename' or x.op == 'item' and any(
                y.op == 'const' and y.args[1] in (1, -1) for y in walk_terms(x.args[1]
                if isinstance(x.args[1], T) else mk('tup', (x.args[1],))))
               for x in walk_terms(t)):
            return False
        for x in walk_terms(t):
            if x.op == 'call' and x.args[0] in ('os.path.dirname', 'os.path.split') and any(
                    y is d for y in walk_terms(x)):
                return True
            if x.op == 'attr' and x.args[1] == 'parent' and any(y is d for y in walk_terms(x)):
                return True
            if x.op == 'mcall' and 'with_suffix' in x.args and any(
                    y is d for y in walk_terms(x)):
                return True
        return False

    def on_event(self, ev):
        if ev.kind == 'iter':
            if ev.data['loop'] == self.point_loop:
                self.unsaved(ev.st, ev.where)
            return False
        if ev.kind == 'slice' and self.sources(ev.data['base']):
            self.obls['merge', 'all sources', ev.where] = (False, 'only some of the given files '
                                                           'are merged')
        if ev.kind == 'slice' and ev.func is not None and any(
                x.op == 'call' and x.args[0] in LOADS
                for x in subterms(self.it, ev.st, ev.data['base'])):
            self.obls['entries-kept', 'part of the entries', ev.where] = (
                False, 'only a part of the entries read from a results file is taken')
        if ev.kind == 'setitem' and ev.data.get('value') is not None:
            about = [t for t in ev.st.facts if isinstance(t, T) and any(
                x.op == 'elem' and any(y.op == 'call' and y.args[0] in LOADS
                                       for y in walk_terms(x)) for x in walk_terms(t))]
            if about and any(y.op == 'call' and y.args[0] in LOADS for t in
                             ev.data['value'].alts for y in walk_terms(t)):
                self.cut |= {t for t in ev.data['base'].alts if t.op == 'obj'}
        if ev.kind == 'setitem':
            v = ev.data.get('value')
            if v is not None and any(
                    t.op == 'attr' and t.args[1] == 'results' for t in v.alts):
                self.new[ev.node] = ev.st.loops
                ev.st = ev.st.setts('dirty', True)
                return False
        if ev.kind in ('setitem', 'mutate', 'setattr', 'augassign'):
            how = ev.data.get('how') or ev.kind
            b = ev.data.get('target') if ev.kind in ('mutate', 'augassign') else \
                ev.data.get('base')
            if b is not None and str(how).strip('.') in LOSES:
                hit = any(t.op == 'call' and t.args[0] in LOADS for t in b.alts)
                if hit:
                    k = ('entries-kept', 'entries removed', ev.where)
                    self.obls[k] = (False, 'entries read from a results file are removed (%s)'
                                    % how)
        return False

    def sources(self, v):
        """A list of files given on the command line?"""
        return any(t.op == 'attr' and t.args[1] in self.modes for t in v.alts)

    def unsaved(self, st, where):
        if not st.ts.get('dirty'):
            return
        no = any(isinstance(t, T) and not v and t.op == 'attr' and t.args[1] in self.loaded_opts
                 or isinstance(t, T) and v and t.op in ('is', 'eq') and any(
                     x.op == 'attr' and x.args[1] in self.loaded_opts for x in walk_terms(t))
                 for t, v in st.facts.items())
        k = ('saved', 'new results', where)
        cur = self.obls.get(k)
        if cur is None or cur[0]:
            self.obls[k] = (no, 'a further sweep point starts (or the run ends) before new '
                            'results were saved in the results file')


def it_stack(it):
    return it.fstack if it is not None else []


def programs(prog):
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        names = {x.attr for x in ast.walk(m.tree) if isinstance(x, ast.Attribute)
                 and isinstance(x.value, ast.Name) and x.value.id in ('pickle', 'json')}
        if names & {'dump', 'dumps', 'Pickler'} and 'main' in m.functions:
            yield m


def run(prog, rep, tier):
    rep.rule('not-in-place', 'files named by the user are not opened for writing or changed')
    rep.rule('complete', 'replacement is a rename of a file that was written and closed')
    rep.rule('same-directory', 'the temporary file lies beside the results file')
    rep.rule('entries-kept', 'what is written contains all entries read before')
    rep.rule('unreadable-kept', 'a file that cannot be read is not replaced')
    rep.rule('saved', 'new results are saved before the next sweep point and before the end')
    rep.rule('merge', 'merging recursion keeps entries of both sides')
    rel = relevant_functions(prog, {'pickle', 'rename', 'move', 'NamedTemporaryFile', 'json'})
    n = 0
    for m in programs(prog):
        mc = ModeClient()
        for f in m.functions.values():
            if any(isinstance(x, ast.Attribute) and x.attr == 'add_argument'
                   for x in ast.walk(f.node)):
                it = Interp(prog, mc)
                run_entry(it, State(), f, [param(p) for p in f.params])
        n += 1
        one(prog, rep, m, mc.modes, rel)
    rep.require(n >= 3, 'only %d programs writing results found' % n)
    merge(prog, rep)


def one(prog, rep, m, modes, rel):
    c = StoreClient(prog, rep, m, modes, rel)
    # options whose file is read as results and replaced later
    c.loaded_opts = {o for o in modes if o and any(
        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
        x.func.attr in ('load', 'Unpickler') and isinstance(x.func.value, ast.Name) and
        x.func.value.id in ('pickle', 'json') and x.args and o in ast.unparse(x.args[0])
        for x in ast.walk(m.tree))} or {o for o in modes if modes[o][0] not in ('r', 'rb')
                                        and 'b' in modes[o][0]}
    for o, (mode, where) in sorted(modes.items()):
        if mode in ('r', 'rb', 'rt'):
            continue
        rep.check(mode[0] == 'a' or mode.startswith('r+') or mode.startswith('rb+'),
                  'not-in-place', '%s mode of --%s' % (m.name.split('.')[-1], o), where,
                  'option %s opens (and empties) the results file before anything was read' % o)
    f = m.functions['main']
    for pass_ in (0, 1):
        c.obls = {}
        c.new = {}
        it = Interp(prog, c)
        c.it = it
        res, _ = run_entry(it, State(), f, [param(p) for p in f.params])
        loops = [l for l in c.new.values() if l]
        c.point_loop = loops[0][0][0] if loops else None
    rep.seen(it)
    for s, _ in res:
        c.unsaved(s, '%s:%s' % (m.path, f.node.lineno))
    name = m.name.split('.')[-1]
    if c.new and not any(k[0] == 'saved' for k in c.obls):
        rep.ok('saved', name)
    for (rule, what, where), (ok, msg) in sorted(c.obls.items()):
        rep.check(ok, rule, '%s: %s' % (name, what), where, msg)
    rep.check(any(k[0] == 'complete' for k in c.obls), 'complete', '%s: replaced' % name, m.path,
              'results are not stored by replacing the results file')


class MergeClient(Client):
    def __init__(self, mod):
        self.mod = mod
        self.sets = []
        self.lost = None
        self.it = None

    def inline(self, fi, st, args):
        # helpers are followed, the recursion itself stays a call
        return fi.module is self.mod and fi not in self.it.fstack

    def partition(self, st):
        return st.ts.get('kept')

    def on_event(self, ev):
        if ev.kind == 'iter' and ev.chain and len(self.it.fstack) <= 1:
            if ev.st.ts.get('kept') == 'no':
                self.lost = ev.where
            ev.st = ev.st.setts('kept', 'no')
        if ev.kind in ('setitem', 'mutate', 'setattr'):
            self.sets.append(ev)
            ev.st = ev.st.setts('kept', 'yes')
        return False


def merge(prog, rep):
    """Recursive dictionary update: nested entries are combined, not replaced."""
    m = prog.modules.get('kerncraft.picklemerge')
    f = m.functions.get('update') if m else None
    if f is None:
        rep.ok('merge')
        return
    c = MergeClient(m)
    it = Interp(prog, c)
    c.it = it
    res, _ = run_entry(it, State(), f, [param(p) for p in f.params])
    rep.seen(it)
    d = mk('param', f.params[0])
    bad = None
    n = 0
    for ev in c.sets:
        b = ev.data.get('target') if ev.kind == 'mutate' else ev.data.get('base')
        if b is None or not any(x is d for t in b.alts for x in walk_terms(t)):
            continue
        n += 1
        if ev.kind == 'mutate' and str(ev.data.get('how')).strip('.') in LOSES:
            bad = (ev.where, 'removes entries of the destination')
        v = ev.data.get('value')
        if ev.kind == 'setitem' and v is not None:
            mapping = [val for t, val in ev.st.facts.items() if isinstance(t, T) and
                       'isinstance' in str(t.op) + str(t.args[:1])]
            if any(val is False for val in mapping):
                continue
            if not all(any(x is d for x in walk_deep(it, t)) for t in v.alts):
                bad = (ev.where, 'replaces nested entries of the destination instead of '
                       'combining them')
    rep.require(n > 0, 'update() of picklemerge changes nothing')
    rep.check(bad is None, 'merge', 'update', bad[0] if bad else m.path,
              'merging ' + (bad[1] if bad else ''))
    if any(s.ts.get('kept') == 'no' for s, _ in res):
        c.lost = c.lost or '%s:%s' % (m.path, f.node.lineno)
    rep.check(c.lost is None, 'merge', 'update takes all entries', c.lost or m.path,
              'there are entries of the files merged that do not get into the result')
    rep.check(all(v.alts == {d} for _, v in res), 'merge', 'update returns destination', m.path,
              'the merged dictionary is not returned')
