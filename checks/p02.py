"""P02: everything a cached artefact depends on selects the file it is cached in."""
from ksa.files import *
from ksa.interp import Interp, State, HObj
from ksa.roots import root_inst, param, run_entry
from ksa.terms import V, C, mk, walk_terms
from checks.p01 import kernel_state

EXPLANATION = (
    'Dependence analysis (data and control) by abstract interpretation of the code that creates '
    'intermediates: for every write to an intermediate the set of inputs the written content '
    'depends on is compared with the set of inputs its path depends on.')
ASSUMPTIONS = [
    'the kernel source file itself is covered by the location (directory and name) and by the '
    'freshness rule (P03); attributes fixed when the kernel object is constructed are a function '
    'of it',
    'external tools (compiler, LIKWID installation, environment of the tools) stay the same '
    'between runs that share intermediates',
    'external tools are functions of their command line and input files',
]
MIN = {'key-complete': 8}


FRESHNESS = {'os.path.exists', 'os.path.isfile', 'os.stat', 'os.path.getmtime',
             'os.path.getctime', 'os.access'}


class KeyClient(FileClient):
    def __init__(self, rep, writes, entry, leaves, valued=frozenset()):
        self.valued = valued
        self.leaves = leaves
        self.rep = rep
        self.entry = entry
        self.writes = writes
        self.open_files = {}
        self.locks = {}

    mark_filtered = True

    def lock_pc(self, ps):
        """Conditions under which the artefact is looked at at all."""
        r = frozenset()
        for stem, pc in self.locks.items():
            if any(is_prefix(stem, p) for p in ps):
                r |= pc
        return r

    def paths_of(self, it, v):
        r = []
        for t in v.alts:
            p = parts(t)
            if looks_like_lock(p):
                continue
            if contains_text(t, '_kerncraft', it) or any(
                    x.op == 'call' and x.args[0] == 'tempfile.mkdtemp'
                    for x in walk_deep(it, t)):
                r.append(p)
        return r

    def component(self, p):
        """Does the constant tail of this path start a new component?"""
        prev = p[-2]
        return isinstance(prev, str) and prev.endswith('/')

    def path_deps(self, it, st, pv):
        """Inputs that select the path: those its value determines, and those that only decide
        between alternatives; not what is merely used to look something else up."""
        deps = it.deep_deps(st, pv)
        inj, seen = set(), set()
        for a in pv.alts:
            atoms(it, a, inj, seen, set())
        mentioned = set()
        for a in pv.alts:
            for t in walk_deep(it, a):
                x = atom(t)
                if x is not None:
                    mentioned.add(x)
        heads = {(x[0], x[1].split('.')[0]) for x in mentioned}
        # a flag may decide between two locations; a number or a name has to be part of one
        return frozenset(inj | {d for d in deps if d not in heads and not (
            d[0] == 'param' and d[1] in self.valued)})

    def note(self, it, st, node, pv, content):
        ps = self.paths_of(it, pv)
        if not ps:
            return
        self.writes.append((lit(ps[0]), it.fn.qual, '%s:%s' % (it.fn.module.path, node.lineno),
                            self.path_deps(it, st, pv), content | (st.pc - self.lock_pc(ps)),
                            ['%s line %s' % (f.qual, getattr(n, 'lineno', '?'))
                             for f, n in zip(it.fstack, it.cstack)], len(it.fstack), self.entry))

    def call(self, it, st, node, name, fn, args, kwargs):
        r = FileClient.call(self, it, st, node, name, fn, args, kwargs)
        if r is not None:
            return r
        if name in ('os.path.basename', 'os.path.split') and len(args) == 1:
            # only the last component is kept: what selects the directory is lost
            ts = set()
            for t in args[0].alts:
                p = parts(t)
                if isinstance(p[-1], str):
                    ts.add(p[-1].rsplit('/', 1)[-1] if '/' in p[-1] or len(p) > 1 and
                           self.component(p) else None)
                else:
                    ts.add(None)
            if len(ts) == 1 and None not in ts and name == 'os.path.basename':
                return [(st, C(ts.pop()))]
        if name in ('set', 'frozenset', 'sorted', 'filter') and args and not (
                name == 'filter' and args[0].const(1) is None):
            return [(st, it.opaque_call(st, name, args, kwargs))]
        if name in FRESHNESS:
            # whether a cached copy exists and is fresh decides if the artefact is recomputed, not
            # what it contains
            return [(st, V(it.opaque_call(st, name, args, kwargs).alts))]
        if name in ('open', 'io.open') and args and any(
                looks_like_lock(parts(t)) for t in args[0].alts):
            for t in args[0].alts:
                self.locks[stem_of_lock(parts(t))] = st.pc
            return [(st, V(it.opaque_call(st, name, args, kwargs).alts))]
        if name in ('open', 'io.open') and args:
            m = arg(args, kwargs, 1, 'mode')
            mode = m.const('r') if m is not None else 'r'
            v = it.opaque_call(st, name, args, kwargs)
            if isinstance(mode, str) and ('+' in mode or mode[0] in 'wax') and \
                    self.paths_of(it, args[0]):
                self.open_files[v.one] = args[0]
            return [(st, v)]
        if name in ('.write', '.writelines') and fn.op == 'attr' and \
                fn.args[0] in self.open_files and args:
            self.note(it, st, node, self.open_files[fn.args[0]], it.deep_deps(st, args[0]))
            return [(st, C(None))]
        if name == 'print' and 'file' in kwargs:
            for t in kwargs['file'].alts:
                if t in self.open_files:
                    d = frozenset()
                    for a in args:
                        d |= it.deep_deps(st, a)
                    self.note(it, st, node, self.open_files[t], d)
        if name in DUMPERS and len(args) > 1:
            self.note(it, st, node, args[1], it.deep_deps(st, args[0]))
            return [(st, C(None))]
        if name in ('pickle.dump', 'json.dump') and len(args) > 1:
            for t in args[1].alts:
                if t in self.open_files:
                    self.note(it, st, node, self.open_files[t], it.deep_deps(st, args[0]))
            return [(st, C(None))]
        if name in SUBPROC and args:
            d = frozenset()
            outs = []
            for v, prev in cmd_elements(it, st, args[0]):
                if prev == '-o':
                    outs.append(v)
                else:
                    d |= it.deep_deps(st, v)
                    for t in [y for z in v.alts for y in walk_deep(it, z)]:
                        a = atom(t)
                        if a is not None and a[0] == 'machine' and a[1].startswith('_args.'):
                            self.leaves.add(a[1][6:])
            # order / presence of arguments is governed by control dependences too
            for o in outs:
                self.note(it, st, node, o, d)
            return [(st, it.opaque_call(st, name, args, kwargs))]
        # an open writable file handed to code that is not analysed further
        return None

    def on_event(self, ev):
        return False


def atom(t):
    """Name of an input: ('param', p), ('machine', '_args.compiler'), ('kernel', 'x')..."""
    if t.op == 'param':
        if t.args[0] in ('constant name', 'constant value'):
            return ('kernel', t.args[0] + 's')
        return ('param', t.args[0])
    path = []
    while t.op == 'attr' and isinstance(t.args[0], type(t)):
        path.insert(0, t.args[1])
        t = t.args[0]
    if path and t.op == 'obj' and isinstance(t.args[0], tuple) and t.args[0][0] == 'root':
        return (t.args[0][1], '.'.join(path))
    return None


LOSSY = {'len', 'bool', 'type', 'min', 'max', 'sum', 'abs', 'hash', 'isinstance', 'round', 'id',
         'any', 'all', 'os.path.dirname', 'os.path.splitext', '.get', '.count', '.find', '.index',
         '.startswith', '.endswith', '.isdigit', '.keys', 'hasattr', 'callable'}
# what tells different arguments apart
FAITHFUL = {'str', 'repr', 'ascii', 'list', 'tuple', 'iter', 'enumerate', 'zip', 'chain', 'map',
            'itertools.chain', 'copy.copy', 'copy.deepcopy', 'deepcopy', 'format', '.format',
            '.join', 'os.path.join', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath',
            'os.path.relpath', 'os.path.expanduser', '.encode', '.hexdigest', '.digest', '.copy',
            'hashlib.sha256', 'hashlib.sha1', 'hashlib.sha512', 'hashlib.md5', 'hashlib.new',
            'hashlib.blake2b', 'hashlib.blake2s', 'hashlib.sha384', 'hashlib.sha3_256', '.split',
            'json.dumps', 'pickle.dumps', 'os.fspath', 'os.fsencode', 'os.fsdecode', 'dict',
            'pathlib.Path', 'Path', '.joinpath', '.as_posix', '.resolve', '.absolute', '.items',
            '.values', 'urllib.parse.quote', 'shlex.quote', 'reversed', 'int', 'float',
            'hex', 'oct', 'shlex.split', 'shlex.join', 'base64.b64encode', '.decode', 'sys.intern',
            'collections.OrderedDict', 'OrderedDict', '.rstrip', '.strip', '.lstrip',
            '.splitlines', 'zlib.crc32', 'binascii.hexlify', '.hex', '.zfill', '.ljust', '.rjust',
            '.setdefault', '.get_identifier', 'textwrap.dedent', 'contextlib.closing'}


def faithful(t):
    """Does the result of this call tell different arguments apart?"""
    from ksa.terms import T
    nm = [y for y in t.args if isinstance(y, str)]
    if not nm:
        return True
    n = nm[0] if t.op == 'call' else '.' + nm[0].lstrip('.')
    if n in ('.replace', 'str.replace'):
        # slashes cannot be part of a file name
        def consts(x):
            if isinstance(x, (tuple, frozenset, list)):
                return [c for y in x for c in consts(y)]
            if isinstance(x, V):
                return consts(x.alts)
            return [x.args[1]] if isinstance(x, T) and x.op == 'const' else []
        # the first argument is the text that disappears, the second what stands for it
        rest = t.args[2:] if t.op == 'mcall' else t.args[1:]
        cs = [c for x in rest for c in consts(x) if isinstance(c, str)]
        return len(cs) > 1 and len(cs[1]) > 0
    if n in ('sorted', 'set', 'frozenset', '.sort', 'dict.fromkeys', 'collections.Counter'):
        # the entries of a dictionary have no order that matters
        from ksa.files import walk_deep
        return any(isinstance(x, T) and x.op in ('call', 'mcall') and any(
            y in ('items', '.items', 'dict.items') for y in x.args if isinstance(y, str))
            for y in t.args for x in walk_terms_of(y))
    return n in FAITHFUL or n.split('.')[-1] in ('join',) or n.startswith('dict.') and \
        n != 'dict.keys' and n != 'dict.get'


def piece(b):
    """Is this a text taken apart (of which one part is then selected)?"""
    from ksa.terms import T
    if isinstance(b, V):
        b = b.alts
    return any(isinstance(x, T) and x.op == 'mcall' and x.args[1] in (
        'split', 'rsplit', 'partition', 'rpartition', 'splitlines')
        for x in (b if isinstance(b, frozenset) else [b]))


def walk_terms_of(x):
    from ksa.terms import T
    if isinstance(x, V):
        x = x.alts
    if isinstance(x, (tuple, frozenset, list)):
        for y in x:
            yield from walk_terms_of(y)
    elif isinstance(x, T):
        yield from walk_terms(x)


def atoms(it, t, out, seen, path):
    """Inputs a term determines (distinct inputs give distinct values)."""
    from ksa.terms import T
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, V):
            x = x.alts
        if isinstance(x, tuple) and len(x) == 3 and x[0] in ('many', 'one', 'opt'):
            # what is iterated counts only as far as the elements carry it
            todo.append(x[1])
            continue
        if isinstance(x, (tuple, frozenset, list)):
            todo += list(x)
            continue
        if hasattr(x, 'v') and hasattr(x, 'kind'):
            todo.append(x.v)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        a = atom(x)
        if a is not None:
            out.add(a)
            continue
        if x.op == 'loopvar':
            todo += sorted(it.loopvars.get(x, ()))
        elif x.op == 'item':
            if atom_root(x.args[0]) is None and not piece(x.args[0]):
                todo += list(x.args)
        elif x.op in ('call', 'mcall'):
            if not faithful(x):
                continue
            todo += list(x.args)
        elif x.op in ('cmp', 'not', 'isinstance', 'keys', 'slice', 'sub', 'filtered', 'min',
                      'max', 'lt', 'eq', 'is', 'in', 'and', 'or', 'all', 'any'):
            continue
        elif x.op == 'bin' and x.args[0] in ('//', '%', '&', '>>', '|'):
            continue
        else:
            todo += [y for y in x.args if isinstance(y, (T, tuple, frozenset, V))]


def atom_root(t):
    from ksa.terms import T
    if isinstance(t, frozenset):
        r = [atom_root(x) for x in t]
        return next((x for x in r if x is not None), None)
    while isinstance(t, T):
        a = atom(t)
        if a is not None:
            return a
        t = t.args[0] if t.args else None
        if isinstance(t, frozenset):
            return atom_root(t)
    return None


def show_dep(d):
    return '.'.join(str(x) for x in d)


def valued(fi):
    """Parameters whose default is a number or text."""
    import ast
    a = fi.node.args
    pos = a.posonlyargs + a.args
    ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
        (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    return frozenset(x.arg for x, d in ds if isinstance(d, ast.Constant) and
                     isinstance(d.value, (int, float, str)) and not isinstance(d.value, bool))


def passed_params(prog):
    """method name -> set of parameter positions / names some call in the package supplies."""
    import ast
    r = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)
                if nm is None:
                    continue
                s = r.setdefault(nm, set())
                if any(isinstance(x, ast.Starred) for x in n.args):
                    s.add('*')
                for i in range(len(n.args)):
                    s.add(i)
                for k in n.keywords:
                    s.add(k.arg if k.arg else '*')
    return r


def entry_args(prog, fi, skip=1):
    """Symbolic arguments; parameters no caller in the package supplies keep their default."""
    sup = passed_params(prog).get(fi.name, set())
    a = fi.node.args
    pos = fi.params[skip:]
    nd = len(a.defaults)
    kw = {}
    for i, x in enumerate(pos):
        has_default = (skip + i) >= len(fi.params) - nd
        if not has_default or i in sup or x in sup or '*' in sup:
            kw[x] = param(x)
    for x in a.kwonlyargs:
        if x.arg in sup or '*' in sup:
            kw[x.arg] = param(x.arg)
    return kw


def mutable_attrs(prog, ci):
    """Attributes of the kernel that change after construction: assigned, item-assigned or mutated
    in a public method that construction does not use."""
    import ast
    mro = prog.mro(ci)
    methods = {}
    for k in reversed(mro):
        methods.update(k.methods)
    reach, todo = set(), ['__init__']
    while todo:
        n = todo.pop()
        if n in reach:
            continue
        reach.add(n)
        for k in mro:
            f = k.methods.get(n)
            if f is None:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr in methods:
                    todo.append(x.attr)
    used = {n for k in mro for n in k.methods if not n.startswith('_')}
    todo = list(used)
    while todo:
        n = todo.pop()
        for k in mro:
            f = k.methods.get(n)
            for x in (ast.walk(f.node) if f is not None else ()):
                if isinstance(x, ast.Attribute) and x.attr in methods and x.attr not in used:
                    used.add(x.attr)
                    todo.append(x.attr)
    out = set()
    for k in mro:
        for n, f in k.methods.items():
            if (n in reach and n != 'set_constant' and n != 'clear_state') or n == '__init__' \
                    or n not in used:
                continue
            selfn = f.params[0] if f.params else None
            for x in ast.walk(f.node):
                tg = []
                if isinstance(x, ast.Assign):
                    tg = x.targets
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                    tg = [x.target]
                for t in tg:
                    for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        while isinstance(y, ast.Subscript):
                            y = y.value
                        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and \
                                y.value.id == selfn:
                            out.add(y.attr)
    return out


def key_state(prog):
    st, kv, mv = kernel_state(prog)
    # the constants mapping: names (fixed by the kernel code) and values (set per run) are
    # tracked separately
    oid = ('root', 'kernel.constants')
    st = st.sethobj(oid, HObj('dict', site=oid, other=(
        V(mk('param', 'constant name'), frozenset([('kernel', 'constant names')])),
        V(mk('param', 'constant value'), frozenset([('kernel', 'constant values')])))))
    h = st.heap[('root', 'kernel')].copy()
    h.slots['constants'] = (V(mk('obj', oid)), True)
    return st.sethobj(('root', 'kernel'), h), kv, mv


def run(prog, rep, tier):
    rep.rule('key-complete', 'every input that the content of an intermediate depends on and that '
                             'can differ between runs sharing a directory also selects its path')
    leaves = set()
    writes = collect(prog, rep, leaves)
    kc = prog.cls('KernelCode')
    mut = mutable_attrs(prog, kc)
    rep.notes.append('kernel attributes that change after construction: %s' % sorted(mut))
    rep.require('pointer_increment' in mut or 'asm_block' in mut or 'constants' in mut,
                'no mutable kernel state found')
    for w in writes:
        decide(rep, w, mut, leaves)


def decide(rep, w, mut, leaves):
    name, fq, where, pd, cd, path, depth, entry = w
    machine_in_path = any(x[0] == 'machine' and x[1] in ('_path', '_data', '*') for x in pd)
    args_in_path = {x[1][6:] for x in pd if x[0] == 'machine' and x[1].startswith('_args.')}
    missing = set()
    for x in cd - pd:
        kind, what = x[0], x[1]
        if kind == 'machine':
            if what == '_args':
                if ('machine', '_args') in pd:
                    continue
                for l in sorted(leaves - args_in_path):
                    missing.add('the %s given on the command line' % l)
            elif what == '_path':
                # the name of the file alone is not content; it appears through freshness tests
                continue
            elif not machine_in_path:
                missing.add('machine description')
        elif kind == 'kernel':
            if what == 'constant values':
                missing.add('values of the constants')
            elif what in mut and what != 'constants':
                missing.add('kernel.%s' % what)
        elif kind == 'param':
            missing.add('argument %s' % what)
        elif kind in ('new:MachineModel', 'default'):
            continue
        rep.count('dependences_compared')
    short = entry.split('.', 1)[1]
    if not missing:
        rep.ok('key-complete', '%s written by %s: content deps %s, path deps %s' % (
            name, short, sorted(map(show_dep, cd)), sorted(map(show_dep, pd))))
    for m in sorted(missing):
        rep.bad('key-complete', '%s:%s<-%s' % (short, name, m), where,
                'the content of %s depends on %s, but its location does not: a later run with '
                'another value reads the result of the earlier one' % (name, m), path)


def collect(prog, rep, leaves):
    writes = []
    kc = prog.cls('KernelCode')
    rel = relevant_functions(prog, {'open', 'subprocess', 'compress_pickle', 'pickle'})
    ents = []
    seen = set()
    for k in prog.mro(kc):
        for n, f in sorted(k.methods.items()):
            if n in seen:
                continue
            seen.add(n)
            if n.startswith('_') or n not in rel or prog.find_method(kc, n) is not f:
                continue
            ents.append(f)
    import ast
    inner = {y.func.attr for k in prog.mro(kc) for f in k.methods.values()
             for y in ast.walk(f.node) if isinstance(y, ast.Call) and
             isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and
             y.func.value.id == (f.params or [None])[0]}
    # methods only other methods use are analysed in the context of those
    ents = [f for f in ents if f.name not in inner]
    rep.require(len(ents) >= 2, 'methods of KernelCode that create intermediates')
    for f in ents:
        st, kv, mv = key_state(prog)
        c = KeyClient(rep, writes, f.qual, leaves, valued(f))
        it = Interp(prog, c)
        run_entry(it, st, f, [kv], entry_args(prog, f))
        rep.seen(it)
    base = prog.cls('CachePredictor')
    for ci in prog.subclasses(base):
        init = prog.find_method(ci, '__init__')
        if ci is base or init is None:
            continue
        st, kv, mv = key_state(prog)
        st, sv = root_inst(st, ci, 'predictor')
        h = st.heap[('root', 'predictor')].copy()
        h.root = None
        st = st.sethobj(('root', 'predictor'), h)
        c = KeyClient(rep, writes, init.qual, leaves, valued(init))
        it = Interp(prog, c)
        run_entry(it, st, init, [sv, kv, mv], entry_args(prog, init, 3))
        rep.seen(it)
    rep.count('write_events', len(writes))
    return writes
