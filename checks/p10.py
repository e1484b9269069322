"""P10: a failing external program never yields a result, and no command goes through a shell."""
import ast

from ksa.files import SUBPROC, arg, cmd_elements, walk_deep, all_functions, reaching
from ksa.interp import Interp, Client, State
from ksa.models import kernel_machine, model_classes, model_state
from ksa.roots import root_inst, param, run_entry
from ksa.terms import T, V, C, mk, walk_terms

EXPLANATION = (
    'Every function from which an external program is started is interpreted abstractly. At each '
    'call site the outcome "program missing or failed" is followed along all paths: it must end '
    'in an error (or in the next candidate of a loop) and never in a normal return whose result '
    'does not stem from a successful call, nor may anything be recorded after a failure. Searches '
    'in the output of programs that find nothing must end in an error as well. Command lines must '
    'be argument lists that no shell and no splitting interprets.')
ASSUMPTIONS = [
    'programs report failure by their exit status or by output without the expected figures',
    'lines of program output that do not match a line pattern may be skipped',
]
MIN = {'failure-ends': 10, 'no-shell': 10, 'missing-output': 8}
CHECKED = {'subprocess.check_output', 'subprocess.check_call'}
SHELLS = {'os.system', 'os.popen', 'subprocess.getoutput', 'subprocess.getstatusoutput',
          'commands.getoutput'}
SH = {'sh', 'bash', '/bin/sh', '/bin/bash', 'zsh', 'csh', 'ksh', 'dash', 'eval'}
WORDS = {'subprocess', 'check_output', 'check_call', 'Popen', 'popen', 'getoutput',
         'getstatusoutput', 'system', 'execv', 'spawnv', 'osaca'}
SEARCH = {'re.search', 're.match', 're.fullmatch'}
LISTS = {'re.findall', 're.finditer'}
FIND = {'find_executable', 'which'}
ANALYZER = 'osaca.osaca.'                # in-core analyzer used as a library
STATUS = {'subprocess.run', 'subprocess.call', 'subprocess.Popen', 'os.system',
          'subprocess.getstatusoutput', 'os.spawnv', 'subprocess.getoutput', 'os.popen'}


class ToolClient(Client):
    def __init__(self, prog, rep, rel, label, obls):
        self.prog = prog
        self.rep = rep
        self.rel = rel
        self.mods = {f.module for f in rel}
        self.search = reaching(prog, {'search', 'match', 'fullmatch'})
        self.label = label
        self.obls = obls
        self.sites = {}
        self.it = None
        self.numbers = {}        # (container, key) -> where a number from the source is recorded
        self.figures = set()     # (container, key) that also receive figures from the output
        self.literals = {}
        self.cmds = {}

    inline_small = True

    def inline(self, fi, st, args):
        return fi in self.rel or fi.name == '__init__' and fi.module not in self.mods or \
            fi.cls is None and fi in self.search

    def partition(self, st):
        return frozenset(st.ts.items())

    def no_implicit(self, name):
        return name in SUBPROC

    def obl(self, rule, what, where, ok, msg):
        k = (rule, what, where)
        cur = self.obls.get(k)
        if cur is None or cur[0]:
            self.obls[k] = (ok, msg)

    def where(self, it, node):
        return '%s:%s' % (it.fn.module.path if it.fn else '?', getattr(node, 'lineno', '?'))

    def is_output(self, it, t):
        return any(x.op == 'call' and x.args[0] in SUBPROC or x.op == 'toolproc'
                   for x in walk_deep(it, t))

    # ---- calls
    def call(self, it, st, node, name, fn, args, kwargs):
        if name in SUBPROC:
            return self.tool(it, st, node, name, args, kwargs)
        short = name.split('.')[-1]
        if short in FIND and (fn is None or fn.op in ('ext', 'func')):
            w = self.where(it, node)
            self.obl('failure-ends', 'program looked for', w, True, '')
            return [(st, V(mk('call', 'found:' + short, tuple(a.alts for a in args), ()))),
                    (self.fail(st, 'missing', w), C(None))]
        if name.startswith(ANALYZER) or fn is not None and fn.op == 'attr' and any(
                x.op == 'call' and x.args[0].startswith(ANALYZER) for x in walk_terms(fn.args[0])):
            w = self.where(it, node)
            self.obl('failure-ends', 'analyzer called', w, True, '')
            it.raise_(self.fail(st, 'failed', w), {'Exception'}, node)
            return None
        if name in ('sum', 'max', 'min') and args and (name == 'sum' or 'default' in kwargs):
            if self.unchecked(it, st, args[0]):
                w = self.where(it, node)
                self.obl('missing-output', 'figures summed up', w, False,
                         '%s yields a number even if the output of the program contains none '
                         '(%s)' % (name, self.label))
        if name in SEARCH and len(args) > 1 and args[1].one is not None and \
                self.whole_output(it, args[1].one):
            v = it.opaque_call(st, name, args, kwargs)
            w = self.where(it, node)
            self.obl('missing-output', 'search in the output of a program', w, True, '')
            return [(st, v), (self.fail(st, 'nomatch', w), C(None))]
        if fn is not None and fn.op == 'attr':
            base = fn.args[0]
            if base.op == 'const' and base.args[1] is None:
                it.raise_(st, {'AttributeError'}, node)
                return []
            if base.op == 'toolproc':
                ok, nm = base.args
                if short == 'check_returncode' and not ok:
                    it.raise_(st, {'subprocess.CalledProcessError'}, node)
                    return []
                if short in ('wait', 'poll'):
                    return [(st, C(0 if ok else 1))]
                if short == 'close':
                    return [(st, C(None) if ok else C(1))]
                if short == 'communicate':
                    return [(st, V(mk('tup', (frozenset([base]), frozenset([base])))))]
        if fn is not None and fn.op in ('attr', 'bmeth') and short == 'get' and args:
            base = fn.args[0] if fn.op == 'attr' else fn.args[1]
            if any(self.is_output(it, x)
                   for x in self.contents(it, st, base)):
                w = self.where(it, node)
                v = it.opaque_call(st, name, [V(base)] + args, kwargs)
                d = arg(args, kwargs, 1, 'default') or C(None)
                self.obl('missing-output', 'figure looked up in the output of a program', w,
                         not any(number(x) for x in d.alts),
                         '%s takes a number given in the source if the output of the program '
                         'does not contain the figure' % self.label)
                return [(st, v), (self.fail(st, 'nokey', w), d)]
        return None

    def contents(self, it, st, t):
        if t.op == 'obj' and t.args[0] in st.heap:
            h = st.heap[t.args[0]]
            for g in h.segs:
                for x in g.v.alts:
                    yield x
            for x, _ in h.slots.values():
                for y in x.alts:
                    yield y
            for x in (h.other.alts if isinstance(h.other, V) else ()):
                yield x
        else:
            yield t

    def whole_output(self, it, t):
        """Text that is the complete output of a program (not one of its lines)."""
        while True:
            if t.op == 'call' and t.args[0] in SUBPROC:
                return True
            if t.op == 'toolproc':
                return True
            if t.op == 'attr' and t.args[1] in ('stdout', 'stderr', 'output'):
                t = t.args[0]
            elif t.op == 'mcall' and t.args[1] in ('decode', 'strip', 'replace', 'rstrip',
                                                   'lstrip', 'lower') and len(t.args[0]) == 1:
                t = next(iter(t.args[0]))
            elif t.op == 'call' and t.args[0] == 'str' and len(t.args) > 1 and \
                    isinstance(t.args[1], frozenset) and len(t.args[1]) == 1:
                t = next(iter(t.args[1]))
            elif t.op == 'call' and t.args[0] in SEARCH:
                return False
            elif t.op in ('mcall', 'call') and len(t.args) > 1:
                return False
            else:
                return False

    def unchecked(self, it, st, v):
        """Matches found in the complete output, not known to be there."""
        for t in v.alts:
            for x in walk_deep(it, t):
                if x.op == 'call' and x.args[0] in LISTS and len(x.args[1]) > 1 and any(
                        self.whole_output(it, y) for y in x.args[1][1]):
                    if not any(x in set(walk_terms(k)) for k in st.facts):
                        return True
        return False

    def falsy(self, it, st, node, v):
        for t in v.alts:
            if t.op == 'obj' and t.args[0] in st.heap:
                h = st.heap[t.args[0]]
                hit = h.kind == 'list' and h.segs and all(
                    any(self.is_output(it, x) for x in g.v.alts) for g in h.segs)
            else:
                hit = self.whole_output(it, t) or \
                    t.op == 'call' and t.args[0] in LISTS and any(
                        self.whole_output(it, x) for y in t.args[1] for x in y)
            if hit:
                w = self.where(it, node)
                self.obl('missing-output', 'lines or figures of the output checked', w, True, '')
                return self.fail(st, 'empty', w)
        return st

    def attr(self, it, st, base, name):
        t = base.one
        if t is not None and t.op == 'toolproc' and name == 'returncode':
            return C(0 if t.args[0] else 1)
        return None

    def fail(self, st, kind, where):
        cur = st.ts.get('failed', frozenset())
        loops = tuple(l[0] for l in st.loops if 'While' not in l[0] or kind == 'failed')
        if any(set(x[2]) <= set(loops) for x in cur):
            return st            # that it failed before is at least as bad
        return st.setts('failed', frozenset({(kind, where, loops)}))

    def tool(self, it, st, node, name, args, kwargs):
        w = self.where(it, node)
        cmd = arg(args, kwargs, 0, 'args')
        self.sites[w] = name
        self.obl('failure-ends', 'program started', w, True, '')
        self.shell(it, st, node, name, cmd, kwargs, w)
        key = None if cmd is None else frozenset(cmd.alts)
        if key is not None:
            for x in st.ts.get('failed', ()):
                if x[0] == 'failed' and x[1] != w and self.cmds.get(x[1]) == (name, key):
                    st = st.setts('failed', frozenset(y for y in st.ts['failed'] if y != x) or None)
        self.cmds[w] = (name, key)
        bad = self.fail(st, 'failed', w)
        if name in ('os.system', 'os.popen', 'subprocess.getoutput',
                    'subprocess.getstatusoutput'):
            pass
        else:
            it.raise_(bad, {'FileNotFoundError'}, node)
        v = it.opaque_call(st, name, args, kwargs)
        check = kwargs.get('check')
        if name in CHECKED or name == 'subprocess.run' and check is not None and \
                check.const(None) is True:
            it.raise_(bad, {'subprocess.CalledProcessError'}, node)
            if 'timeout' in kwargs:
                it.raise_(bad, {'subprocess.TimeoutExpired'}, node)
            return [(st, v)]
        if name in ('subprocess.call', 'os.system', 'os.spawnv'):
            return [(st, C(0)), (bad, C(1))]
        if name == 'subprocess.getstatusoutput':
            return [(st, V(mk('tup', (frozenset([mk('const', 'int', 0)]), v.alts)))),
                    (bad, V(mk('tup', (frozenset([mk('const', 'int', 1)]), v.alts))))]
        if name == 'subprocess.getoutput':
            return [(st, v), (bad, v)]
        return [(st, V(mk('toolproc', True, w), v.deps)),
                (bad, V(mk('toolproc', False, w), v.deps))]

    def shell(self, it, st, node, name, cmd, kwargs, w):
        sh = kwargs.get('shell')
        why = None
        if name in SHELLS:
            why = '%s passes the command to a shell' % name
        elif sh is not None and sh.const(None) is not False:
            why = 'the command is passed to a shell'
        elif cmd is not None:
            elems = cmd_elements(it, st, cmd)
            for i, (v, _) in enumerate(elems):
                c = v.const(None)
                if i == 0 and isinstance(c, str) and c.rsplit('/')[-1] in SH:
                    why = 'the command is run by %s' % c
            for v, _ in elems + [(cmd, None)]:
                for t in v.alts:
                    for x in walk_deep(it, t):
                        r = None
                        if x.op == 'mcall' and x.args[1] == 'split' and len(x.args[0]) == 1:
                            r = next(iter(x.args[0]))
                        elif x.op == 'call' and x.args[0] == 'shlex.split':
                            r = next((y for y in walk_terms(x) if self.built(y)), None)
                        if r is not None and self.built(r):
                            why = why or 'the command line is pasted together and then split, ' \
                                'so that names containing blanks fall apart'
        self.obl('no-shell', 'command', w, why is None, why)

    def built(self, t):
        """A text composed of several parts (some of them not constant)."""
        if t.op == 'fmt':
            return sum(not isinstance(p, str) for p in t.args[0]) > 0 and len(t.args[0]) > 1
        if t.op == 'mcall' and t.args[1] in ('join', 'format'):
            return True
        if t.op in ('bin', 'join'):
            return True
        return False

    # ---- what happens after a failure
    def on_event(self, ev):
        f = ev.st.ts.get('failed') if ev.st is not None else None
        if ev.kind == 'getitem' and ev.st is not None and self.it is not None:
            k = ev.data['key'].const(None)
            if isinstance(k, str) and any(
                    self.is_output(self.it, y) for t in ev.data['base'].alts if t.op == 'obj'
                    for y in self.contents(self.it, ev.st, t)):
                w = ev.where
                self.obl('missing-output', 'figure taken from the output of a program', w, True, '')
                if self.it.implicit:         # somebody may handle it
                    self.it.raise_(self.fail(ev.st, 'nokey', w), {'KeyError'}, ev.node)
        if ev.kind == 'setitem' and ev.st is not None and self.it is not None:
            self.recorded(ev)
        if ev.kind == 'iter':
            if f:
                keep = frozenset(x for x in f if ev.data['loop'] not in x[2])
                if keep != f:
                    ev.st = ev.st.setts('failed', keep)
            return False
        if not f:
            return False
        if ev.kind == 'handler':
            if ev.data['names'] and all(n.rsplit('.')[-1] == 'KeyboardInterrupt'
                                        for n in ev.data['names']):
                ev.st = ev.st.setts('failed', None)      # the user interrupted it
            return False
        # after the loop over candidates has ended, what is recorded comes from other candidates
        cur = {l[0] for l in ev.st.loops}
        hard = [x for x in f if set(x[2]) <= cur]
        if ev.kind in ('mutate', 'setitem', 'setattr') and hard and self.escapes(ev):
            for x in hard:
                if x[0] in ('failed', 'missing'):
                    self.obl('failure-ends', 'nothing recorded after a failure', x[1], False,
                             'after the program failed, %s still records something (%s)' % (
                                 self.label, ev.where))
                elif x[2]:
                    self.obl('missing-output', 'nothing recorded without the figure', x[1],
                             False, '%s records something (%s) although the output of the '
                             'program does not contain the figure looked for' % (
                                 self.label, ev.where))
        return False

    # ---- numbers in the place of figures
    def recorded(self, ev):
        if not isinstance(ev.node, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Subscript)):
            return
        k = ev.data['key']
        key = k.const(None) if isinstance(k.const(None), str) else '*'
        nums = [t for t in ev.data['value'].alts if number(t)]
        tool = [t for t in ev.data['value'].alts if not number(t) and self.is_output(self.it, t)]
        made = [t for t in nums if not self.token(ev, t)]
        v = getattr(ev.node, 'value', None)
        if isinstance(v, ast.Dict) and any(isinstance(x, ast.Constant) and number(mk(
                'const', type(x.value).__name__, x.value)) for x in v.values) and any(
                    self.is_output(self.it, z) for t in ev.data['base'].alts if t.op == 'obj'
                    for y in self.contents(self.it, ev.st, t) if y.op == 'obj'
                    for z in self.contents(self.it, ev.st, y)):
            self.numbers.setdefault((None, ev.where), ev.where)
            self.figures.add((None, ev.where))
        made += [t for t in tool if self.mixed(self.it, t)]
        for t in ev.data['base'].alts:
            if t.op != 'obj':
                continue
            if tool:
                self.figures.add((t.args[0], key))
            if made:
                self.numbers.setdefault((t.args[0], key), ev.where)

    def mixed(self, it, t, st=None):
        """A variable that keeps the number it started with if no line is the one looked for."""
        for x in walk_terms(t):
            if x.op == 'loopvar' and 'While' not in x.args[0][0]:
                alts = it.loopvars.get(x, ())
                if any(number(y) for y in alts) and any(
                        not number(y) and self.is_output(it, y) for y in alts):
                    return True
            if st is not None and x.op == 'call' and x.args[0] == 'sum' and \
                    self.unchecked(it, st, V(x)):
                return True
            if st is not None and any(
                    any(number(y) for y in s) and any(
                        not number(y) and self.is_output(it, y) for y in s)
                    for s in sets(x.args)):
                return True
        return False

    def values(self, it, st, v):
        """(key, values) of what is returned: the value itself, the attributes of an instance."""
        yield None, sorted(v.alts)
        for t in v.alts:
            if t.op == 'obj' and t.args[0] in st.heap and st.heap[t.args[0]].kind == 'inst':
                for k, (x, _) in st.heap[t.args[0]].slots.items():
                    yield k, sorted(x.alts)

    def token(self, ev, t):
        """Does the program print a placeholder (like '-') that stands for this number?"""
        if self.it.fn is None:
            return False
        v = getattr(ev.node, 'value', None)
        if not isinstance(v, ast.AST) or any(isinstance(n, ast.Subscript) for n in ast.walk(v)):
            return True              # taken from somewhere else
        key = (self.it.fn, v)
        if key not in self.literals:
            self.literals[key] = origins(self.it.fn, v)
        own, lits, names = self.literals[key]
        own = [x for x in own if isinstance(x.value, (int, float)) and
               (x.value == t.args[1] or names > 1)]
        return bool(own) and all(any(x is y for y in lits) for x in own)

    def invented(self):
        for (o, k), w in sorted(self.numbers.items(), key=str):
            yield w, (o, k) not in self.figures

    def escapes(self, ev):
        """Is something recorded that outlives the call (a result list, an attribute)?"""
        how = str(ev.data.get('how') or ev.kind)
        v = ev.data.get('value')
        vals = [v] if v is not None else list(ev.data.get('args') or ())
        if ev.kind == 'mutate' and how.strip('.') not in ('append', 'extend', 'insert', 'add',
                                                          'update', 'setdefault', '+='):
            return False
        b = ev.data.get('target') or ev.data.get('base')
        if b is None:
            return False
        for t in b.alts:
            if t.op == 'ext' or t.op == 'attr' and t.args[0].op == 'ext':
                return False         # sys.stderr and the like
        return bool(vals)


def number(t):
    """A number given by the source (not-a-number stands for an unknown figure)."""
    if t.op != 'const' or isinstance(t.args[1], bool):
        return False
    return isinstance(t.args[1], (int, float)) and t.args[1] == t.args[1]


def sets(args):
    for a in args:
        if isinstance(a, frozenset):
            yield a
        elif isinstance(a, tuple):
            yield from sets(a)


def origins(fn, v):
    """(constants the value v may stem from, constants that stand for a text, number of names)"""
    own, lits, seen = [], [], {}

    def go(f, x, depth):
        if f.node not in seen:
            seen[f.node] = set()
            lits.extend(placeholders(f))
        own.extend(n for n in ast.walk(x) if isinstance(n, ast.Constant))
        names = {n.id for n in ast.walk(x) if isinstance(n, ast.Name)} - seen[f.node]
        seen[f.node] |= names
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and names & {
                    y.id for z in n.targets for y in ast.walk(z) if isinstance(y, ast.Name)}:
                own.extend(y for y in ast.walk(n.value) if isinstance(y, ast.Constant))
                if depth:
                    calls(f, n.value, depth)
        if depth:
            calls(f, x, depth)

    def calls(f, x, depth):
        for g in called(f, x):
            for n in ast.walk(g.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    go(g, n.value, depth - 1)
    go(fn, v, 3)
    return own, lits, len(seen[fn.node])


def called(f, x):
    """Functions of the same module that are called in x."""
    names = {(n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None))
             for n in ast.walk(x) if isinstance(n, ast.Call)}
    fs = list(f.module.functions.values())
    for c in f.module.classes.values():
        fs.extend(c.methods.values())
    return [g for g in fs if getattr(g.node, 'name', None) in names]


def placeholders(f):
    """Numbers chosen by whether a text is equal to a constant."""
    out = []

    def values(name):
        return [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(
            isinstance(y, ast.Name) and y.id == name for y in n.targets)]

    def assigned(b):
        return {y.id for n in ast.walk(b) if isinstance(n, ast.Assign) for y in n.targets
                if isinstance(y, ast.Name)}

    def text(test, depth=2):
        return any(isinstance(c, ast.Compare) and
                   isinstance(c.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) and
                   any(isinstance(x, ast.Constant) and isinstance(x.value, str)
                       for y in [c.left] + c.comparators for x in ast.walk(y))
                   for c in ast.walk(test)) or depth > 0 and any(
                       text(g.node, depth - 1) for g in called(f, test)) or any(
                           text(x, depth - 1) for n in ast.walk(test) if depth > 0 and
                           isinstance(n, ast.Name) for x in values(n.id))

    for n in ast.walk(f.node):
        for body in (getattr(n, k, None) for k in ('body', 'orelse', 'finalbody')):
            if not isinstance(body, list):
                continue
            for i, s in enumerate(body):
                if not isinstance(s, ast.If) or not text(s.test):
                    continue
                part = s.body + s.orelse
                if isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Break)):
                    part = part + body[i + 1:]
                for b in body[:i]:           # a number chosen first and replaced then
                    if isinstance(b, ast.Assign) and isinstance(b.value, ast.Constant) and \
                            assigned(b) & assigned(s):
                        part = part + [b]
                for b in part:
                    out += [x for x in ast.walk(b) if isinstance(x, ast.Constant)]
        if isinstance(n, ast.IfExp) and text(n.test):
            out += [x for b in (n.body, n.orelse) for x in ast.walk(b)
                    if isinstance(x, ast.Constant)]
    return [x for x in out if isinstance(x.value, (int, float))]


def produced(it, st, v, depth=4):
    """Does every alternative of v stem from the output of a program?"""
    def has(t, d, seen):
        if t in seen or d < 0:
            return False
        seen = seen | {t}
        for x in walk_deep(it, t):
            if x.op == 'call' and x.args[0] in SUBPROC or x.op == 'toolproc' and x.args[0]:
                return True
            if x.op == 'obj' and x.args[0] in st.heap:
                h = st.heap[x.args[0]]
                vals = [g.v for g in h.segs] + [y for y, _ in h.slots.values()]
                if any(has(y, d - 1, seen) for z in vals for y in z.alts if y not in seen):
                    return True
        return False
    return bool(v.alts) and all(has(t, depth, frozenset()) for t in v.alts)


def words_in(f):
    return {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(f.node)
            if isinstance(n, (ast.Attribute, ast.Name))}


def judged(rel):
    """Functions from which failures are followed: those that start programs or search output,
    handle exceptions, or call private helpers that do (helpers are judged with their callers)."""
    private = {f.name for f in rel if f.name.startswith('_') and not f.name.startswith('__')}
    called = set()
    uses = {}
    reads = {f.name for f in rel if words_in(f) & WORDS - {'osaca'} and any(
        isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f.node))}
    names = {f.name for f in rel if f.name != '__init__'} | \
        {f.cls.name for f in rel if f.name == '__init__' and f.cls}
    for f in rel:
        uses[f] = words_in(f) - {f.name}
        called |= uses[f]
    for f in rel:
        if f.name in private and f.name in called:
            continue
        if f.name == '__init__' and f.cls is not None:
            continue
        if uses[f] & (WORDS | {'search', 'match', 'fullmatch'} | private | reads) or any(
                isinstance(n, ast.Try) and names & {
                    x.attr if isinstance(x, ast.Attribute) else x.id for b in n.body
                    for x in ast.walk(b) if isinstance(x, (ast.Attribute, ast.Name))}
                for n in ast.walk(f.node)):
            yield f


def entries(prog, rel):
    """(label, state, function, arguments)"""
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        for f in m.functions.values():
            if f in rel:
                yield f.qual.split('.', 1)[1], State(), f, [param(p) for p in f.params]
    kc = prog.cls('KernelCode')
    seen = set()
    for ci in [kc, prog.cls('MachineModel')]:
        for k in prog.mro(ci):
            for f in k.methods.values():
                if f not in rel or prog.find_method(ci, f.name) is not f or f in seen or \
                        f.name == '__init__':
                    continue
                seen.add(f)
                st, kv, mv = kernel_machine(prog)
                yield (f.qual.split('.', 1)[1], st, f,
                       ([] if 'staticmethod' in f.decorators else
                        [kv if ci is kc else mv]) + [param(p) for p in f.params[1:]])
    for ci in model_classes(prog):
        for k in prog.mro(ci):
            for f in k.methods.values():
                if f not in rel or prog.find_method(ci, f.name) is not f or \
                        f.name == '__init__':
                    continue
                states, _ = model_state(prog, ci)
                for st, sv in states[:1]:
                    yield (ci.name + '.' + f.name, st, f,
                           [sv] + [param(p) for p in f.params[1:]])


def run(prog, rep, tier):
    rep.rule('failure-ends', 'when an external program is missing or fails, no path returns '
                             'normally without a result of another, successful call, and nothing '
                             'is recorded')
    rep.rule('missing-output', 'a search in the output of a program that finds nothing ends in '
                               'an error')
    rep.rule('no-shell', 'commands are argument lists, not interpreted by a shell or split')
    rel = reaching(prog, WORDS)
    obls = {}
    n = 0
    all_sites = set()
    sel = set(judged(rel))
    # failures that leave a function normally are reported there, callers are not followed then
    todo = sorted(entries(prog, sel), key=lambda e: not (words_in(e[2]) & WORDS))
    bad = False
    for label, st, f, args in todo:
        if bad:
            break
        c = ToolClient(prog, rep, rel, label, obls)
        it = c.it = Interp(prog, c)
        kw = {a.arg: param(a.arg) for a in f.node.args.kwonlyargs}
        res, raised = run_entry(it, st, f, args, kw)
        rep.seen(it)
        n += 1
        all_sites |= set(c.sites)
        for s, v in res:
            for kind, where, loops in s.ts.get('failed', ()):
                ok = bool(loops) and (produced(it, s, v) or v.const(0) is None)
                if kind == 'missing':
                    ok = ok or v.const(0) is None or isinstance(v.const(0), bool)
                    kind = 'failed'
                if kind == 'failed':
                    c.obl('failure-ends', 'program started', where, ok,
                          '%s returns normally although the program failed' % label)
                else:
                    ok or c.obl('missing-output', {
                        'nomatch': 'search in the output of a program',
                        'nokey': 'figure looked up in the output of a program',
                        'empty': 'lines or figures of the output checked'}[kind], where,
                        False, '%s returns normally although the output of the program does not '
                        'contain the figure looked for' % label)
        for w, ok in c.invented():
            c.obl('missing-output', 'number recorded next to figures from a program', w, ok,
                  '%s records a number given in the source where figures from the output of a '
                  'program are recorded otherwise' % label)
        vals, mixed = {}, False
        for s, v in res:
            for k, ts in c.values(it, s, v):
                vals.setdefault(k, []).extend(ts)
                mixed = mixed or any(c.mixed(it, t, s) for t in ts)
        if mixed or any(any(number(t) for t in ts) and any(
                not number(t) and c.is_output(it, t) for t in ts) for ts in vals.values()):
            w = '%s:%s' % (f.module.path, f.node.lineno)
            c.obl('missing-output', 'number returned', w, False, '%s returns a number given in '
                  'the source if the output of the program does not contain the figure' % label)
        bad = any(not ok for ok, _ in obls.values())
    rep.count('entries', n)
    # every call site in the sources was reached
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and ast.unparse(x.func) in SUBPROC:
                w = '%s:%s' % (m.path, x.lineno)
                rep.check(bad or w in all_sites, 'failure-ends', 'analysed %s' % w, w,
                          'a call of an external program that no analysed operation reaches')
    for (rule, what, where), (ok, msg) in sorted(obls.items()):
        rep.check(ok, rule, '%s at %s' % (what, site_name(prog, where)), where, msg)


def site_name(prog, where):
    """Function around a source position (stable against line shifts)."""
    path, _, line = where.rpartition(':')
    best = None
    for m in prog.modules.values():
        if m.path != path:
            continue
        for f in list(m.functions.values()) + [x for c in m.classes.values()
                                               for x in c.methods.values()]:
            if f.node.lineno <= int(line) <= (f.node.end_lineno or 0):
                if best is None or f.node.lineno > best.node.lineno:
                    best = f
    return best.qual if best else where
