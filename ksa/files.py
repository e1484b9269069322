"""Shared client pieces for analyses about files: path identity, command lines, open modes."""
import re

from .interp import Client, Seg
from .terms import T, V, C, mk, walk_terms

IDENT = {'os.path.relpath', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath',
         'os.path.expanduser', 'os.fspath', 'pathlib.Path', 'str'}
SUBPROC = {'subprocess.check_output', 'subprocess.check_call', 'subprocess.run',
           'subprocess.call', 'subprocess.Popen', 'os.system', 'os.popen',
           'subprocess.getoutput', 'subprocess.getstatusoutput', 'os.execv', 'os.spawnv'}
LOADERS = {'compress_pickle.load', 'numpy.load', 'joblib.load'}
DUMPERS = {'compress_pickle.dump'}


class FileClient(Client):
    """Treats the different spellings of a path as the same file."""

    def call(self, it, st, node, name, fn, args, kwargs):
        if name in IDENT and args and name != 'str':
            return [(st, args[0])]
        return None


def parts(t):
    if t.op == 'fmt':
        return t.args[0]
    if t.op == 'const' and isinstance(t.args[1], str):
        return (t.args[1],)
    return (frozenset([t]),)


def is_prefix(stem, p):
    if not stem or len(stem) > len(p):
        return False
    for a, b in zip(stem[:-1], p[:-1] if len(p) == len(stem) else p):
        if a != b:
            return False
    a, b = stem[-1], p[len(stem) - 1]
    if isinstance(a, str) and isinstance(b, str):
        if len(p) > len(stem) and a != b:
            return b.startswith(a)
        return b.startswith(a)
    return a == b


LOCK_SUFFIX = re.compile(r'[._-]?\w*lo?c?k\w*$', re.I)


def stem_of_lock(p):
    if p and isinstance(p[-1], str):
        s = LOCK_SUFFIX.sub('', p[-1])
        if s != p[-1]:
            return p[:-1] + ((s,) if s else ())
    return p


def looks_like_lock(p):
    return bool(p) and isinstance(p[-1], str) and bool(LOCK_SUFFIX.search(p[-1]))


def tails(p, limit=8):
    """Possible constant tails (file names) of a path given as parts."""
    outs = ['']
    for x in reversed(p):
        if isinstance(x, str):
            outs = [x + o for o in outs]
        else:
            alts = []
            for t in sorted(x):
                if t.op == 'const':
                    alts.append(str(t.args[1]))
                elif t.op == 'fmt':
                    alts += tails(t.args[0])
                else:
                    alts.append('*')
            outs = sorted({a + o for a in alts for o in outs})[:limit]
        if all('/' in o for o in outs):
            break
    return sorted({o.rsplit('/', 1)[-1] for o in outs})


def lit(p):
    """Readable rendering of the constant tail of a path."""
    return '|'.join(tails(p))


def walk_deep(it, t, limit=4000):
    """Terms inside t, looking through loop-carried variables."""
    seen, todo, n = set(), [t], 0
    while todo:
        for x in walk_terms(todo.pop()):
            n += 1
            yield x
            if x.op == 'loopvar' and x not in seen and it is not None:
                seen.add(x)
                todo += sorted(it.loopvars.get(x, ()))
        if n > limit:
            return


def contains_text(t, text, it=None):
    for x in walk_deep(it, t):
        if x.op == 'const' and isinstance(x.args[1], str) and text in x.args[1]:
            return True
        if x.op == 'fmt' and any(isinstance(y, str) and text in y for y in x.args[0]):
            return True
    return False


def cmd_elements(it, st, v):
    """Flattened (value, previous constant) of an argv list."""
    out = []
    prev = None
    for g in it.iter_segs(st, v, None):
        out.append((g.v, prev))
        c = g.v.const(None)
        prev = c if isinstance(c, str) else None
    return out


def arg(args, kwargs, i, name, default=None):
    if name in kwargs:
        return kwargs[name]
    if i is not None and len(args) > i:
        return args[i]
    return default


FILEISH = {'open', 'flock', 'lockf', 'fcntl', 'subprocess', 'shutil', 'mkdtemp', 'makedirs',
           'compress_pickle', 'pickle', 'unlink', 'tempfile', 'stat', 'exists', 'getmtime',
           'getctime', 'rename', 'atexit', 'relpath', 'abspath', 'realpath', 'normpath'}


def relevant_functions(prog, words=FILEISH):
    """Names of package functions that (transitively, by name) handle files."""
    import ast
    uses = {}
    rel = set()
    for m in prog.modules.values():
        for f in list(m.functions.values()) + [x for c in m.classes.values()
                                               for x in c.methods.values()]:
            names = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name):
                    names.add(n.id)
                elif isinstance(n, ast.Attribute):
                    names.add(n.attr)
                    if isinstance(n.value, ast.Name) and n.value.id == 'os' and \
                            n.attr in ('replace', 'remove', 'link', 'truncate', 'system', 'popen'):
                        rel.add(f.name)
            names.discard(f.name)
            if names & words:
                rel.add(f.name)
            uses.setdefault(f.name, set()).update(names)
    for c in [k for m in prog.modules.values() for k in m.classes.values()]:
        if '__init__' in c.methods:
            uses.setdefault(c.name, set()).add('__init__')
    rel.discard('__init__')
    changed = True
    while changed:
        changed = False
        for n, u in uses.items():
            if n not in rel and (u & rel):
                rel.add(n)
                changed = True
    return rel


def all_functions(prog):
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        for f in m.functions.values():
            yield f
        for c in m.classes.values():
            for f in c.methods.values():
                yield f


def reaching(prog, words):
    """Functions that (transitively, callees by name) use one of the words; constructors are told
    apart by their class."""
    import ast
    uses, rel = {}, set()
    key = {}
    for f in all_functions(prog):
        k = '%s.%s' % (f.cls.name, f.name) if f.name == '__init__' and f.cls else f.name
        key[f] = k
        names = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name):
                names.add(n.id)
            elif isinstance(n, ast.Attribute):
                names.add(n.attr)
        if '__init__' in names:
            names.discard('__init__')
            for b in (prog.mro(f.cls)[1:] if f.cls else ()):
                names.add(b.name + '.__init__')
        uses[f] = names
    for m in prog.modules.values():
        for c in m.classes.values():
            for b in prog.mro(c):
                if '__init__' in b.methods:
                    uses.setdefault(c, set()).add(b.name + '.__init__')
                    key[c] = c.name
                    break
    hit = {key[x] for x, u in uses.items() if u & words}
    changed = True
    while changed:
        changed = False
        for x, u in uses.items():
            if key[x] not in hit and u & hit:
                hit.add(key[x])
                changed = True
    return {x for x in uses if key[x] in hit and hasattr(x, 'params')}


def implied(facts):
    """(condition term, value) pairs that hold given the recorded facts."""
    out, todo, seen = [], list(facts.items()), set()
    while todo:
        t, val = todo.pop()
        if (t, val) in seen or not isinstance(t, T):
            continue
        seen.add((t, val))
        out.append((t, val))
        if t.op == 'not' and len(t.args[0]) == 1:
            todo.append((next(iter(t.args[0])), not val))
        elif (t.op == 'and' and val) or (t.op == 'or' and not val):
            todo += [(x, val) for x in t.args[0]]
        elif (t.op == 'all' and val) or (t.op == 'any' and not val):
            for sg in t.args[0]:
                alts = sg[1] if isinstance(sg, tuple) and len(sg) > 1 else ()
                if len(alts) == 1:
                    todo.append((next(iter(alts)), val))
    return out
