"""Where the order of unordered collections becomes visible.

Flow-insensitive points-to analysis of the containers of the whole program (allocation sites, one
content field each, calls resolved by name) plus an order taint: sets, directory listings and
whatever sequence, dictionary or generator is filled in their iteration order have no determined
order, until they are sorted. An event is emitted where such an order is turned into something
that depends on it (element picked by position, text, output, argument of a library function).
"""
import ast
import string

from .program import walk_no_nested

RECEIVERS = {'kernel': 'Kernel', 'machine': 'MachineModel', '_machine': 'MachineModel'}
SETMAKERS = {'set', 'frozenset'}
SEQ = {'list', 'tuple', 'iter', 'reversed', 'enumerate', 'zip', 'map', 'filter', 'deque',
       'islice', 'takewhile', 'dropwhile', 'zip_longest', 'starmap', 'accumulate', 'cycle',
       'filterfalse', 'product', 'permutations', 'combinations', 'pairwise', 'groupby', 'tee'}
INSENSITIVE = {'len', 'any', 'all', 'sum', 'bool', 'isinstance', 'min', 'max', 'issubclass',
               'type', 'hasattr', 'callable', 'fsum', 'deepcopy', 'copy', 'Add', 'Mul', 'Max',
               'Min', 'gcd', 'lcm', 'And', 'Or', 'dump', 'dumps', 'super', 'FiniteSet', 'Union',
               'Intersection', 'prod', 'issubset', 'issuperset', 'isdisjoint', 'subs', 'xreplace',
               'cache_clear', 'warn', 'error', 'exit', 'int', 'float', 'abs', 'round', 'range',
               'Integer', 'Float', 'Rational', 'join', 'exists', 'isfile', 'isdir', 'getmtime', 'stat'}
UNORDERED_ATTRS = {'free_symbols', 'atoms', 'free_dynamicsymbols', 'symmetric_difference'}
LISTINGS = {'os.listdir', 'os.scandir', 'glob.glob', 'glob.iglob', 'os.walk', 'os.fwalk'}
LISTING_METHODS = {'iterdir', 'rglob', 'glob', 'scandir'}
DICTS = {'dict', 'OrderedDict', 'defaultdict', 'Counter', 'ChainMap', 'CommentedMap'}
CONTAINER = {'append', 'add', 'insert', 'extend', 'update', 'setdefault', 'get', 'items', 'keys',
             'values', 'pop', 'copy', 'union', 'intersection', 'difference', 'remove', 'discard',
             'sort', 'reverse', 'clear', 'index', 'count', 'popitem', 'popleft', 'appendleft',
             'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference',
             'difference_update', 'intersection_update', 'elements', 'most_common', 'subtract'}
TEXT = {'str', 'repr', 'format', 'pformat', 'ascii'}
# keys that do not tell different elements apart
WEAK_KEYS = {'len', 'type', 'bool'}


class Site:
    __slots__ = ('node', 'kind', 'fi', 'cls')

    def __init__(self, node, kind, fi):
        self.cls = None
        self.node = node
        self.kind = kind
        self.fi = fi

    def __repr__(self):
        return '<%s@%s>' % (self.kind, getattr(self.node, 'lineno', '?'))


class Scope:
    """A function or the body of a module."""

    def __init__(self, module, node, name, fi=None, parent=None, cls=None):
        self.cls = cls
        self.module = module
        self.node = node
        self.qual = name
        self.fi = fi
        self.parent = parent
        self.locals = set()
        self.globals = set()
        self.nested = {}
        self.body = node.body if isinstance(node.body, list) else [node.body]
        a = getattr(node, 'args', None)
        if a is not None:
            self.pos = [x.arg for x in a.posonlyargs + a.args]
            self.kw = [x.arg for x in a.kwonlyargs]
            self.vararg = a.vararg.arg if a.vararg else None
            self.kwarg = a.kwarg.arg if a.kwarg else None
            self.locals |= set(self.pos + self.kw) | {self.vararg, self.kwarg} - {None}
        else:
            self.pos, self.kw, self.vararg, self.kwarg = [], [], None, None
        self.generator = False
        for n in walk_no_nested(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.generator = True
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.globals |= set(n.names)
        self.locals -= self.globals
        self.method = False


def within(node, outer):
    return any(n is node for n in ast.walk(outer))


class Order:
    def __init__(self, prog):
        self.prog = prog
        self.pts = {}
        self.sites = {}
        self.U = set()
        self.sorted_sites = set()
        self.ctx_u = set()
        self.scopes = []
        self.methods = {}
        self.props = {}
        self.classes = {}
        self.events = []
        self.emitted = set()
        self.fields = {}
        self.final = False
        self.unordered_seen = {}
        self.nested_of = {}
        self.module_scope = {}
        # classes whose objects share attributes: ancestors and descendants
        self.related = {}
        for m in prog.modules.values():
            for c in m.classes.values():
                for d in prog.mro(c):
                    self.related.setdefault(c.name, set()).add(d.name)
                    self.related.setdefault(d.name, set()).add(c.name)
        for m in sorted(prog.modules.values(), key=lambda m: m.name):
            self.collect(m)
        self.solve()

    # ------------------------------------------------------------------ scopes
    def collect(self, m):
        s = Scope(m, m.tree, m.name)
        self.module_scope[m.name] = s
        self.scopes.append(s)
        self.collect_in(m, m.tree, s, None)

    def collect_in(self, m, node, parent, cls):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                s = Scope(m, n, '%s.%s' % (parent.qual if cls is None else
                                           parent.qual + '.' + cls, n.name), n, parent, cls)
                self.scopes.append(s)
                decos = {ast.unparse(d).split('.')[-1] for d in n.decorator_list}
                if cls is not None:
                    s.method = 'staticmethod' not in decos
                    self.methods.setdefault(n.name, []).append(s)
                    if decos & {'property', 'cached_property'}:
                        self.props.setdefault(n.name, []).append(s)
                else:
                    parent.nested[n.name] = s
                self.collect_in(m, n, s, None)
            elif isinstance(n, ast.ClassDef):
                self.classes.setdefault(n.name, n)
                self.collect_in(m, n, parent, n.name)
            elif isinstance(n, ast.Lambda):
                self.collect_in(m, n, parent, cls)
            else:
                self.collect_in(m, n, parent, cls)

    # ------------------------------------------------------------------ solving
    def site(self, node, kind, sc):
        k = (id(node), kind)
        s = self.sites.get(k)
        if s is None:
            s = self.sites[k] = Site(node, kind, sc)
            if kind == 'set':
                self.U.add(s)
        return s

    def add(self, key, vals):
        if not vals:
            return
        cur = self.pts.setdefault(key, set())
        n = len(cur)
        cur |= vals
        if len(cur) != n:
            self.changed = True

    def mark(self, s):
        if s not in self.U and s not in self.sorted_sites:
            self.U.add(s)
            self.changed = True

    def get(self, key):
        return self.pts.get(key, set())

    def kept(self, sites, node, what):
        for s in sites:
            if s in self.U and s.kind in ('seq', 'row', 'view'):
                self.event('kept', node, 'it is kept as a sequence %s' % what)
                return

    def contents(self, sites, key=None):
        r = set()
        for s in sites:
            if key is not None:
                r |= self.get(('c', s)) | self.get(('c', s, key))
            else:
                r |= self.inside(s)
        return r

    def inside(self, s):
        r = set(self.get(('c', s)))
        for k in self.fields.get(s, ()):
            r |= self.get(('c', s, k))
        return r

    def put(self, s, v, node):
        """Store under a subscript; constant keys are kept apart."""
        if s.kind == 'dict' and isinstance(node, ast.Constant) and isinstance(node.value, str):
            self.fields.setdefault(s, set()).add(node.value)
            self.add(('c', s, node.value), v)
        else:
            self.add(('c', s), v)

    def column(self, row, i, vals):
        self.fields.setdefault(row, set()).add(i)
        self.add(('c', row, i), vals)

    def pour(self, s, x):
        """All entries of a dictionary into another one."""
        self.add(('c', s), self.get(('c', x)))
        for k in list(self.fields.get(x, ())):
            self.fields.setdefault(s, set()).add(k)
            self.add(('c', s, k), self.get(('c', x, k)))
        self.add(('k', s), self.get(('k', x)))

    def keys(self, sites):
        r = set()
        for s in sites:
            r |= self.get(('k', s))
        return r

    def unordered(self, sites):
        return any(s in self.U for s in sites)

    def reaches(self, sites, depth=4, sets=True):
        """An unordered collection among these or inside them."""
        seen, todo = set(), [(s, 0) for s in sites]
        while todo:
            s, d = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if s in self.U and (sets or s.kind != 'set'):
                return s
            if d < depth:
                todo += [(x, d + 1) for x in self.inside(s) | self.get(('k', s))]
        return None

    def solve(self):
        # sequences sorted in place
        for i in range(40):
            self.changed = False
            for s in self.scopes:
                self.run_scope(s)
            if not self.changed:
                break
        self.final = True
        for s in self.scopes:
            self.run_scope(s)

    def run_scope(self, sc):
        self.sc = sc
        self.loops = []
        self.stack = []
        self.quiet = 0
        self.parents = None
        self.block(sc.body)

    def event(self, kind, node, msg):
        if self.final and not self.quiet and (id(node), kind) not in self.emitted:
            self.emitted.add((id(node), kind))
            self.events.append((kind, self.sc, node, msg))

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def in_u(self):
        return bool(self.loops) or self.sc in self.ctx_u

    def made_here(self, site):
        """Created anew in each pass of the unordered loop (or not seen from here)."""
        if not self.loops:
            return True
        return within(site.node, self.loops[-1]) and not within(site.node, self.loops[-1].iter)

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.ev(d)
            return
        if isinstance(s, ast.ClassDef):
            for x in s.body:
                if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if isinstance(x, ast.Assign):
                        v = self.ev(x.value)
                        for t in x.targets:
                            if isinstance(t, ast.Name):
                                self.add(('a', t.id, None), v)
            return
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return
            v = self.ev(s.value)
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            self.aug(s, v)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.ev(s.iter)
            u = self.iterated(v, s.iter)
            self.assign(s.target, self.elements(v), None)
            if u:
                self.loops.append(s)
                self.note(s.iter)
            self.block(s.body)
            if u:
                self.survivors(s)
                self.carried(s)
                self.loops.pop()
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.ev(s.test)
            self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value)
                self.add(('r', self.sc), v)
                if self.loops and self.depends(s.value, self.loops[-1]):
                    self.event('pick', s, 'returns the element that happens to come first')
        elif isinstance(s, ast.Raise):
            self.quiet += 1
            for x in (s.exc, s.cause):
                if x is not None:
                    self.ev(x)
            self.quiet -= 1
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
            if s.msg is not None:
                self.quiet += 1
                self.ev(s.msg)
                self.quiet -= 1
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
            if self.in_u() and isinstance(s.value, ast.Call):
                self.effect(s.value)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.ev(t)

    def note(self, node):
        if self.final:
            self.unordered_seen[id(node)] = (self.sc, node)

    def iterated(self, v, node):
        return self.unordered(v)

    def elements(self, v):
        r = set()
        for s in v:
            r |= self.get(('k', s)) if s.kind == 'dict' else self.inside(s)
        return r

    def assign(self, t, v, value):
        if isinstance(t, ast.Name):
            self.add(self.var(t.id), v)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value)
            self.kept(v, t, 'in .%s' % t.attr)
            for k in self.attr_keys(t):
                self.add(k, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            k = self.ev(t.slice)
            if b or not isinstance(t.value, ast.Name):
                self.kept(v, t, 'inside of another object')
            for s in b:
                self.put(s, v, t.slice)
                self.add(('k', s), k)
                if s.kind == 'dict' and self.in_u() and not self.made_here(s) and \
                        not isinstance(t.slice, ast.Constant):
                    self.mark(s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and \
                    not any(isinstance(x, ast.Starred) for x in t.elts + value.elts):
                for x, y in zip(t.elts, value.elts):
                    self.assign(x, self.ev(y), y)
                return
            if value is not None and self.unordered(v) and len(t.elts) > 1:
                self.event('pick', t, 'elements are taken apart by position')
            c = self.elements(v)
            plain = not any(isinstance(x, ast.Starred) for x in t.elts)
            for i, x in enumerate(t.elts):
                if plain and all(y.kind == 'row' for y in v):
                    # rows keep their columns apart
                    self.assign(x, self.contents(v, i), None)
                elif isinstance(x, ast.Starred):
                    l = self.site(x, 'seq', self.sc)
                    self.add(('c', l), c)
                    self.assign(x.value, {l}, None)
                else:
                    self.assign(x, c, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)

    def var(self, name):
        sc = self.sc
        while sc is not None:
            if name in sc.locals or sc.parent is None:
                if name in sc.locals or name not in sc.module.imports:
                    return ('v', sc, name)
                return self.imported(sc.module, name)
            sc = sc.parent
        return ('v', self.sc, name)

    def imported(self, module, name):
        full = module.imports[name]
        m, _, n = full.rpartition('.')
        if m in self.module_scope:
            return ('v', self.module_scope[m], n)
        return ('v', self.module_scope[module.name], name)

    def aug(self, s, v):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.get(self.var(t.id))
        elif isinstance(t, ast.Attribute):
            cur = self.attr_values(t)
        else:
            cur = self.ev(ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)) \
                if not hasattr(t, '_ld') else set()
        if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            for x in cur:
                if x.kind == 'set':
                    self.add(('c', x), self.contents(v))
            return
        for x in cur:
            if x.kind == 'seq':
                self.add(('c', x), self.contents(v))
                if self.unordered(v) or self.in_u() and not self.made_here(x):
                    self.mark(x)
        if self.loops and isinstance(s.op, ast.Add) and self.stringy(s):
            self.event('text', s, 'text is put together')

    def stringy(self, s):
        def texty(e):
            for n in ast.walk(e):
                if isinstance(n, ast.JoinedStr):
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr in ('format', 'join') or isinstance(n, ast.Call) and \
                        isinstance(n.func, ast.Name) and n.func.id in ('str', 'repr'):
                    return True
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and \
                        isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    return True
            if isinstance(e, ast.Constant):
                return isinstance(e.value, str)
            if isinstance(e, ast.BinOp):
                return texty(e.left) or texty(e.right)
            return False
        if texty(s.value):
            return True
        if isinstance(s.target, ast.Name):
            for n in walk_no_nested(self.sc.node):
                if isinstance(n, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == s.target.id for t in n.targets) and \
                        texty(n.value):
                    return True
        return False

    def effect(self, call):
        """Statement call in unordered order: what happens to the outside happens in that order."""
        f = call.func
        if isinstance(f, ast.Name):
            if f.id == 'print' and not any(k.arg == 'file' and ast.unparse(k.value) ==
                                           'sys.stderr' for k in call.keywords):
                self.event('output', call, 'lines are written')
            return
        if isinstance(f, ast.Attribute):
            if f.attr in ('pprint', 'write', 'writelines'):
                self.event('output', call, 'lines are written')
                return
            if f.attr in CONTAINER or f.attr in self.methods or f.attr in INSENSITIVE:
                return
            if self.loops and self.callees(call) == [] and f.attr not in (
                    'close', 'flush', 'unlink', 'remove', 'rmtree', 'sort', 'add_argument',
                    'seed', 'mkdir', 'makedirs'):
                self.event('effect', call, '%s() is called' % f.attr)

    def names_set(self, loop):
        """Names that differ from pass to pass."""
        r = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
        for i in range(3):
            for n in ast.walk(loop):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    if any(isinstance(x, ast.Name) and x.id in r for x in ast.walk(n.value)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            r |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and
                                  isinstance(x.ctx, ast.Store)}
                elif isinstance(n, ast.For) and n is not loop and any(
                        isinstance(x, ast.Name) and x.id in r for x in ast.walk(n.iter)):
                    r |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        return r

    def depends(self, expr, loop):
        names = self.names_set(loop)
        return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(expr))

    def survivors(self, loop):
        """Plain variables set in the loop and read behind it: the last (or first) pass wins."""
        if not self.final:
            return
        inside = set(map(id, ast.walk(loop)))
        end = getattr(loop, 'end_lineno', loop.lineno)
        later = {n.id for n in walk_no_nested(self.sc.node)
                 if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and
                 id(n) not in inside and n.lineno > end}
        if not later:
            return
        for n in ast.walk(loop):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                for x in ast.walk(t):
                    if not isinstance(x, ast.Name) or not isinstance(x.ctx, ast.Store) or \
                            x.id not in later:
                        continue
                    if not self.depends(n.value, loop) or commutes(n.value, x.id):
                        continue
                    if self.rebound(x.id, loop, end):
                        continue
                    self.event('pick', n, 'keeps %s of the pass that happens to come last'
                               % x.id)

    def carried(self, loop):
        """Running totals that are read in the loop: their value depends on the passes before."""
        for n in ast.walk(loop):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                name, value = n.target.id, n.value
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                    n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp) and any(
                        isinstance(x, ast.Name) and x.id == n.targets[0].id
                        for x in (n.value.left, n.value.right)):
                name, value = n.targets[0].id, n.value
            else:
                continue
            own = {id(x) for x in ast.walk(n)}
            inits = [x for x in ast.walk(loop) if isinstance(x, ast.Assign) and x is not n and any(
                isinstance(t, ast.Name) and t.id == name for t in x.targets)]
            if inits:
                continue
            reads = [x for x in ast.walk(loop) if isinstance(x, ast.Name) and x.id == name and
                     isinstance(x.ctx, ast.Load) and id(x) not in own]
            if reads and not name_is_container(self, name):
                self.event('pick', n, '%s is read while it adds up' % name)

    def rebound(self, name, loop, end):
        """Assigned again behind the loop before it is read."""
        reads, writes = [], []
        for n in walk_no_nested(self.sc.node):
            if isinstance(n, ast.Name) and n.id == name and n.lineno > end:
                (reads if isinstance(n.ctx, ast.Load) else writes).append(n.lineno)
        return bool(writes) and min(writes) <= min(reads)

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        if e is None or isinstance(e, ast.Constant):
            return set()
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is not None:
            return m(e)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return set()

    def ev_Name(self, e):
        return set(self.get(self.var(e.id)))

    def ev_Attribute(self, e):
        self.ev(e.value)
        if e.attr in UNORDERED_ATTRS and not self.methods.get(e.attr):
            return {self.site(e, 'set', self.sc)}
        r = self.attr_values(e)
        for s in self.props.get(e.attr, ()):
            r |= self.result(s)
        if isinstance(e.value, ast.Name):
            m = self.module_of(e.value.id)
            if m is not None:
                r |= self.get(('v', m, e.attr))
        return r

    def own_class(self):
        sc = self.sc
        while sc is not None:
            if sc.cls is not None:
                return sc.cls
            sc = sc.parent
        return None

    def attr_keys(self, t):
        if isinstance(t.value, ast.Name) and t.value.id in ('self', 'cls') and self.own_class():
            return [('a', t.attr, self.own_class())]
        return [('a', t.attr, c) for c in self.owners(t.value) or [None]]

    def owners(self, recv, sites=None):
        """Classes a receiver may be an object of (None: not known)."""
        if isinstance(recv, ast.Name) and recv.id in ('self', 'cls') and self.own_class():
            return self.related.get(self.own_class(), set())
        if sites is None:
            self.quiet += 1
            sites = self.ev(recv)
            self.quiet -= 1
        cs = {s.cls for s in sites if s.kind == 'obj'}
        name = recv.attr if isinstance(recv, ast.Attribute) else \
            recv.id if isinstance(recv, ast.Name) else None
        if not cs and name in RECEIVERS:
            cs = {RECEIVERS[name]}
        if isinstance(recv, ast.Name) and recv.id in self.classes:
            cs = {recv.id}
        if isinstance(recv, ast.Call) and isinstance(recv.func, ast.Name) and \
                recv.func.id == 'super' and self.own_class():
            cs = {self.own_class()}
        if not cs:
            return None
        r = set()
        for c in cs:
            r |= self.related.get(c, set())
        return r

    def attr_values(self, t):
        """Values of an attribute: of the class itself, its ancestors and its descendants."""
        r = set(self.get(('a', t.attr, None)))
        own = self.own_class() if isinstance(t.value, ast.Name) and t.value.id == 'self' else None
        for f in self.owners(t.value) or ():
            for s in self.get(('a', t.attr, f)):
                n = s.node
                if own is not None and f != own and s.kind in ('dict', 'seq', 'set') and (
                        isinstance(n, ast.Dict) and not n.keys or
                        isinstance(n, ast.List) and not n.elts or
                        isinstance(n, ast.Call) and not n.args and not n.keywords):
                    # what starts empty in a base class is another object for each class
                    c = self.site(n, s.kind + ':' + own, self.sc)
                    c.kind = s.kind
                    if s.kind == 'dict':
                        self.pour(c, s)
                    else:
                        self.add(('c', c), self.get(('c', s)))
                    if s in self.U:
                        self.mark(c)
                    s = c
                r.add(s)
        return r

    def module_of(self, name):
        sc = self.sc
        full = sc.module.imports.get(name)
        if full in self.module_scope:
            return self.module_scope[full]
        return None

    def result(self, sc):
        if sc.generator:
            s = self.site(sc.node, 'seq', sc)
            return {s}
        return set(self.get(('r', sc)))

    def ev_Yield(self, e):
        v = self.ev(e.value)
        s = self.site(self.sc.node, 'seq', self.sc)
        self.add(('c', s), v)
        if self.loops:
            self.mark(s)
        return set()

    def ev_YieldFrom(self, e):
        v = self.ev(e.value)
        s = self.site(self.sc.node, 'seq', self.sc)
        self.add(('c', s), self.elements(v))
        if self.loops or self.unordered(v):
            self.mark(s)
        return set()

    def ev_Await(self, e):
        return self.ev(e.value)

    def ev_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e.value)
        return v

    def ev_IfExp(self, e):
        self.ev(e.test)
        return self.ev(e.body) | self.ev(e.orelse)

    def ev_BoolOp(self, e):
        r = set()
        for x in e.values:
            r |= self.ev(x)
        return r

    def ev_Lambda(self, e):
        self.ev(e.body)
        return set()

    def ev_List(self, e):
        s = self.site(e, 'seq', self.sc)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                self.add(('c', s), self.elements(v))
                if self.unordered(v):
                    self.mark(s)
            else:
                self.add(('c', s), self.ev(x))
        return {s}

    ev_Tuple = ev_List

    def ev_Set(self, e):
        s = self.site(e, 'set', self.sc)
        for x in e.elts:
            self.add(('c', s), self.ev(x.value if isinstance(x, ast.Starred) else x))
        return {s}

    def ev_Dict(self, e):
        s = self.site(e, 'dict', self.sc)
        for k, v in zip(e.keys, e.values):
            x = self.ev(v)
            if k is None:
                for y in x:
                    self.pour(s, y)
                if self.unordered(x):
                    self.mark(s)
            else:
                self.add(('k', s), self.ev(k))
                self.put(s, x, k)
        return {s}

    def gens(self, e):
        u = False
        for g in e.generators:
            v = self.ev(g.iter)
            if self.iterated(v, g.iter):
                u = True
                self.note(g.iter)
            self.assign(g.target, self.elements(v), None)
            for c in g.ifs:
                self.ev(c)
        return u

    def ev_ListComp(self, e):
        u = self.gens(e)
        s = self.site(e, 'seq', self.sc)
        self.add(('c', s), self.ev(e.elt))
        if u:
            self.mark(s)
        return {s}

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e):
        self.gens(e)
        s = self.site(e, 'set', self.sc)
        self.add(('c', s), self.ev(e.elt))
        return {s}

    def ev_DictComp(self, e):
        u = self.gens(e)
        s = self.site(e, 'dict', self.sc)
        self.add(('k', s), self.ev(e.key))
        self.add(('c', s), self.ev(e.value))
        if u:
            self.mark(s)
        return {s}

    def ev_Starred(self, e):
        return self.ev(e.value)

    def ev_Subscript(self, e):
        b = self.ev(e.value)
        self.ev(e.slice)
        if isinstance(e.slice, ast.Slice):
            r = set()
            for s in b:
                n = self.site(e, 'seq', self.sc)
                self.add(('c', n), self.inside(s))
                if s in self.U:
                    self.mark(n)
                    if s.kind == 'seq' and (e.slice.lower is not None or
                                            e.slice.upper is not None):
                        self.event('pick', e, 'a part is taken by position')
                r.add(n)
            return r
        if isinstance(e.ctx, ast.Load):
            for s in b:
                if s.kind == 'seq' and s in self.U and not self.single(e, e.value, b):
                    self.event('pick', e, 'an element is taken by position')
        k = e.slice
        return self.contents(b, k.value if isinstance(k, ast.Constant) and
                             isinstance(k.value, str) else None)

    def ev_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, ast.Mod):
            if self.is_text(e.left):
                if isinstance(e.right, ast.Tuple):
                    b = self.contents(b)
                self.sink_text(e, b)
            return set()
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            if any(s.kind in ('set', 'view') for s in a | b):
                s = self.site(e, 'set', self.sc)
                self.add(('c', s), self.contents(a) | self.contents(b))
                return {s}
            ds = [s for s in a | b if s.kind == 'dict']
            if ds and isinstance(e.op, ast.BitOr):
                return self.merged(e, 'dict', ds)
            return set()
        ss = [s for s in a | b if s.kind == 'seq']
        if isinstance(e.op, ast.Add) and any(s.kind == 'seq' for s in a) and any(
                s.kind == 'seq' for s in b) or isinstance(e.op, ast.Mult) and any(
                    isinstance(x, (ast.List, ast.Tuple)) for x in (e.left, e.right)):
            return self.merged(e, 'seq', ss)
        return set()

    def merged(self, e, kind, ss):
        s = self.site(e, kind, self.sc)
        for x in ss:
            self.add(('c', s), self.inside(x))
            self.add(('k', s), self.get(('k', x)))
            if x in self.U:
                self.mark(s)
        return {s}

    def is_text(self, e):
        return isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and \
            isinstance(e.value, str) or isinstance(e, ast.BinOp) and (
                self.is_text(e.left) or self.is_text(e.right))

    def ev_JoinedStr(self, e):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.sink_text(e, self.ev(x.value))
        return set()

    def ev_Compare(self, e):
        quiet = any(isinstance(x, ast.Constant) and x.value is None for x in e.comparators)
        self.quiet += quiet
        for x in [e.left] + e.comparators:
            self.ev(x)
        self.quiet -= quiet
        return set()

    def sink_text(self, node, sites):
        s = self.reaches(sites)
        if s is not None:
            self.event('text', node, 'text is made of it')

    # ------------------------------------------------------------------ calls
    def callees(self, call):
        f = call.func
        if isinstance(f, ast.Name):
            sc = self.sc
            while sc is not None:
                if f.id in sc.nested:
                    return [sc.nested[f.id]]
                if f.id in sc.locals and sc.parent is not None:
                    return []
                sc = sc.parent
            full = self.sc.module.imports.get(f.id)
            if full:
                m, _, n = full.rpartition('.')
                if m in self.module_scope and n in self.module_scope[m].nested:
                    return [self.module_scope[m].nested[n]]
                if n in self.classes and m in self.module_scope:
                    return self.ctor(n)
            elif f.id in self.classes:
                return self.ctor(f.id)
            return []
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name):
                m = self.module_of(f.value.id)
                if m is not None:
                    if f.attr in m.nested:
                        return [m.nested[f.attr]]
                    if f.attr in self.classes:
                        return self.ctor(f.attr)
                if f.value.id in self.sc.module.imports and f.value.id not in self.sc.locals:
                    full = self.sc.module.imports[f.value.id]
                    if not full.startswith('kerncraft'):
                        return []
            own = self.owners(f.value)
            ms = list(self.methods.get(f.attr, ()))
            if own is not None:
                return [m for m in ms if m.cls in own]
            return ms
        return []

    def ctor(self, name):
        if any(n.startswith('__') and n.strip('_') in ('mul', 'truediv', 'float') for n in (
                f.name for f in self.classes[name].body if isinstance(f, ast.FunctionDef))):
            return []            # numbers hold no collections
        return [s for s in self.methods.get('__init__', ()) if s.qual.endswith(
            '.%s.__init__' % name)]

    def fullname(self, f):
        try:
            t = ast.unparse(f)
        except Exception:
            return ''
        head, _, rest = t.partition('.')
        full = self.sc.module.imports.get(head)
        if full and head not in self.sc.locals:
            return full + ('.' + rest if rest else '')
        if head in self.sc.locals:
            full = self.local_imports(self.sc).get(head)
            if full:
                return full + ('.' + rest if rest else '')
        return t

    def local_imports(self, sc):
        """Modules a function imports for itself."""
        r = sc.__dict__.get('local_imports')
        if r is None:
            r = {}
            for n in ast.walk(sc.node):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        r[a.asname or a.name.split('.')[0]] = a.name if a.asname else \
                            a.name.split('.')[0]
                elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                    for a in n.names:
                        r[a.asname or a.name] = '%s.%s' % (n.module, a.name)
            sc.local_imports = r
        return r

    def ev_Call(self, e):
        f = e.func
        name = self.fullname(f)
        short = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        full_short = name.split('.')[-1] if isinstance(f, ast.Name) else short
        recv = self.ev(f.value) if isinstance(f, ast.Attribute) else set()
        if not isinstance(f, (ast.Name, ast.Attribute)):
            self.ev(f)
        args = [(a, self.ev(a)) for a in e.args]
        kw = [(k.arg, self.ev(k.value)) for k in e.keywords]
        cs = self.callees(e)
        if isinstance(f, ast.Attribute) and short in CONTAINER and (
                recv or not cs or not isinstance(f.value, ast.Name) or f.value.id not in (
                    'self', 'cls', 'kernel', 'machine', 'model')):
            return self.container(e, short, recv, args, kw)
        if cs:
            return self.invoke(e, cs, args, kw)
        if self.object(e):
            return self.object(e)
        if isinstance(f, ast.Name) and f.id in self.sc.locals:
            return set()
        return self.builtin(e, name, full_short, recv, args, kw)

    def invoke(self, e, cs, args, kw):
        out = set()
        for c in cs:
            if self.in_u() and c not in self.ctx_u:
                self.ctx_u.add(c)
                self.changed = True
            pos = list(c.pos)
            if c.method and pos:
                pos = pos[1:]
                if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and \
                        e.func.value.id in self.classes and len(args) > len(pos):
                    pos = list(c.pos)
            i = 0
            for a, v in args:
                if isinstance(a, ast.Starred):
                    el = self.elements(v)
                    for p in pos[i:]:
                        self.add(('v', c, p), el)
                    if c.vararg:
                        l = self.site(c.node.args.vararg, 'seq', c)
                        self.add(('c', l), el)
                        if self.unordered(v):
                            self.mark(l)
                        self.add(('v', c, c.vararg), {l})
                    elif self.unordered(v):
                        self.event('pick', e, 'elements are handed over by position')
                elif i < len(pos):
                    self.add(('v', c, pos[i]), v)
                    i += 1
                elif c.vararg:
                    l = self.site(c.node.args.vararg, 'seq', c)
                    self.add(('c', l), v)
                    self.add(('v', c, c.vararg), {l})
            for k, v in kw:
                if k is None:
                    el = self.contents(v)
                    for p in pos + c.kw:
                        self.add(('v', c, p), el)
                elif k in c.pos + c.kw:
                    self.add(('v', c, k), v)
                elif c.kwarg:
                    l = self.site(c.node.args.kwarg, 'dict', c)
                    self.add(('c', l), v)
                    self.add(('v', c, c.kwarg), {l})
            if not c.qual.endswith('__init__'):
                out |= self.result(c)
        return out | self.object(e)

    def object(self, e):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if n in self.classes and n not in self.sc.locals:
            s = self.site(e, 'obj', self.sc)
            s.cls = n
            return {s}
        return set()

    def seq(self, e, sites, kind='seq', contents=None):
        s = self.site(e, kind, self.sc)
        self.add(('c', s), self.elements(sites) if contents is None else contents)
        if self.unordered(sites):
            self.mark(s)
        return {s}

    def builtin(self, e, name, short, recv, args, kw):
        vals = [v for _, v in args]
        allv = set().union(*vals, *[v for _, v in kw]) if vals or kw else set()
        star = [(a, v) for a, v in args if isinstance(a, ast.Starred)]
        first = vals[0] if vals else set()
        if short in SETMAKERS:
            s = self.site(e, 'set', self.sc)
            self.add(('c', s), self.elements(first))
            return {s}
        if short in UNORDERED_ATTRS:
            return {self.site(e, 'set', self.sc)}
        if name in LISTINGS or short in LISTING_METHODS and name not in LISTINGS and \
                isinstance(e.func, ast.Attribute) and not recv:
            s = self.site(e, 'seq', self.sc)
            t = self.site(e, 'listing', self.sc)
            self.mark(s)
            if short in ('walk', 'fwalk'):
                l = self.site(e.func, 'seq', self.sc)
                self.mark(l)
                self.add(('c', t), {l})
                self.add(('c', s), {t})
            return {s}
        if short == 'sorted':
            s = self.site(e, 'seq', self.sc)
            self.add(('c', s), self.elements(first))
            self.sorted_sites.add(s)
            key = dict((k.arg, k.value) for k in e.keywords).get('key')
            if key is not None and weak(key, self.functions()) and self.unordered(first):
                self.sorted_sites.discard(s)
                self.mark(s)
            return {s}
        if short == 'next':
            if self.unordered(first) and not self.single(e, e.args[0], first):
                self.event('pick', e, 'the first element is taken')
            return self.elements(first)
        if short in ('chain', 'from_iterable'):
            s = self.site(e, 'seq', self.sc)
            for a, v in args:
                inner = v
                if isinstance(a, ast.Starred) or short == 'from_iterable':
                    if self.unordered(v):
                        self.mark(s)
                    inner = self.elements(v)
                self.add(('c', s), self.elements(inner))
                if self.unordered(inner):
                    self.mark(s)
            return {s}
        if short in SEQ:
            if short == 'zip' and star:
                s = self.site(e, 'seq', self.sc)
                row = self.site(e, 'row', self.sc)
                for a, v in args:
                    inner = self.elements(v) if isinstance(a, ast.Starred) else v
                    self.add(('c', row), self.elements(inner))
                    if self.unordered(inner):
                        self.mark(s)
                    if isinstance(a, ast.Starred) and self.unordered(v):
                        self.mark(s)
                self.add(('c', s), {row})
                return {s}
            if short in ('enumerate', 'zip', 'zip_longest', 'product', 'combinations',
                         'permutations', 'pairwise', 'groupby'):
                s = self.site(e, 'seq', self.sc)
                row = self.site(e, 'row', self.sc)
                for i, v in enumerate(vals):
                    if short in ('zip', 'zip_longest', 'enumerate'):
                        self.column(row, i + (short == 'enumerate'), self.elements(v))
                    else:
                        self.add(('c', row), self.elements(v))
                    if self.unordered(v):
                        self.mark(s)
                self.add(('c', s), {row})
                if short == 'enumerate' and self.unordered(first) and self.numbered(e):
                    self.event('pick', e, 'elements are numbered')
                return {s}
            if short in ('map', 'filter', 'starmap', 'takewhile', 'dropwhile', 'filterfalse'):
                rest = set().union(*vals[1:]) if len(vals) > 1 else set()
                c = self.elements(rest)
                if short in ('map', 'starmap') and e.args:
                    c = set()
                    fn = e.args[0]
                    if isinstance(fn, ast.Name):
                        for x in self.callees(ast.copy_location(
                                ast.Call(fn, [], []), e)):
                            for p in x.pos[:1]:
                                self.add(('v', x, p), self.elements(rest))
                            c |= self.result(x)
                return self.seq(e, rest, contents=c)
            return self.seq(e, first)
        if short in DICTS:
            s = self.site(e, 'dict', self.sc)
            if short == 'defaultdict' and e.args:
                fn = e.args[0]
                kind = fn.id if isinstance(fn, ast.Name) else None
                if isinstance(fn, ast.Lambda):
                    self.add(('c', s), self.ev(fn.body))
                elif kind in ('list', 'dict', 'set'):
                    self.add(('c', s), {self.site(fn, {'list': 'seq'}.get(kind, kind), self.sc)})
                return {s}
            for v in vals:
                for x in v:
                    if x.kind == 'dict':
                        self.pour(s, x)
                    else:
                        rows = self.inside(x)
                        self.add(('c', s), self.contents(rows))
                        self.add(('k', s), self.contents(rows))
                if self.unordered(v):
                    self.mark(s)
            for k, v in kw:
                if k is not None:
                    self.put(s, v, ast.Constant(k))
            return {s}
        if short == 'fromkeys':
            s = self.site(e, 'dict', self.sc)
            self.add(('k', s), self.elements(first))
            if self.unordered(first):
                self.mark(s)
            return {s}
        if short == 'reduce':
            fn = ast.unparse(e.args[0]) if e.args else ''
            if self.unordered(vals[1] if len(vals) > 1 else set()) and not (
                    fn.startswith('operator.') or fn in ('max', 'min', 'mul', 'add', 'or_',
                                                         'and_')):
                self.event('pick', e, 'it is folded from one end')
            return set()
        if short in ('deepcopy', 'copy'):
            return first
        if short == 'getattr' and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
            return set()
        if short == 'pformat':
            x = self.reaches(allv, sets=False)
            if x is not None:
                self.event('text', e, 'text is made of it')
            return set()
        if short == 'format' and isinstance(e.func, ast.Attribute) and isinstance(
                e.func.value, ast.Constant) and numeric(e.func.value.value):
            return set()
        if short in TEXT:
            self.sink_text(e, allv)
            return set()
        if short == 'join' and name != 'os.path.join' and not name.endswith('.path.join'):
            self.sink_text(e, allv)
            return set()
        if short in ('print', 'pprint'):
            x = self.reaches(allv, sets=short == 'print')
            if x is not None:
                self.event('output', e, 'it is written out')
            return set()
        if short in INSENSITIVE or short[:1].isupper() and short.endswith(('Error', 'Exception',
                                                                           'Warning')):
            return set()
        if isinstance(e.func, ast.Attribute) and short in CONTAINER:
            return set()
        # any other library function may depend on the order of sequences
        s = self.reaches(allv)
        if s is not None and s.kind != 'dict':
            self.event('library', e, 'it is handed to %s()' % short)
        return set()

    def functions(self):
        """Functions of the program by the name they have here."""
        r = {}
        sc = self.sc
        while sc is not None:
            for n, x in sc.nested.items():
                r.setdefault(n, x.node)
            sc = sc.parent
        for n, full in self.sc.module.imports.items():
            m, _, x = full.rpartition('.')
            if m in self.module_scope and x in self.module_scope[m].nested:
                r.setdefault(n, self.module_scope[m].nested[x].node)
        return r

    def numbered(self, e):
        """Is the number of the element used?"""
        for n in ast.walk(self.sc.node):
            if isinstance(n, (ast.For, ast.comprehension)) and n.iter is e:
                t = n.target
                if isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
                    return any(isinstance(x, ast.Name) and x.id == t.elts[0].id and
                               isinstance(x.ctx, ast.Load) for x in ast.walk(self.sc.node))
        return True

    def container(self, e, m, recv, args, kw):
        vals = [v for _, v in args]
        first = vals[0] if vals else set()
        last = vals[-1] if vals else set()
        out = set()
        for s in recv:
            mut = self.in_u() and not self.made_here(s)
            if m in ('append', 'add', 'insert', 'appendleft', 'setdefault'):
                self.kept(last, e, 'inside of another object')
            if m in ('append', 'add', 'insert', 'appendleft'):
                self.add(('c', s), last)
                if mut and s.kind == 'seq':
                    self.mark(s)
            elif m == 'extend':
                self.add(('c', s), self.elements(first))
                if s.kind == 'seq' and (mut or self.unordered(first)):
                    self.mark(s)
            elif m == 'update':
                if s.kind == 'dict':
                    for x in first:
                        if x.kind == 'dict':
                            self.pour(s, x)
                        else:
                            rows = self.inside(x)
                            self.add(('c', s), self.contents(rows))
                            self.add(('k', s), self.contents(rows))
                    if mut or self.unordered(first):
                        self.mark(s)
                else:
                    for v in vals:
                        self.add(('c', s), self.elements(v))
            elif m == 'setdefault':
                self.add(('k', s), first)
                if len(vals) > 1:
                    self.add(('c', s), last)
                if mut and s.kind == 'dict':
                    self.mark(s)
                out |= self.inside(s)
            elif m == 'get':
                k = e.args[0] if e.args else None
                out |= self.contents({s}, k.value if isinstance(k, ast.Constant) and isinstance(
                    k.value, str) else None)
                if len(vals) > 1:
                    out |= last
            elif m == 'items':
                n, row = self.site(e, 'seq', self.sc), self.site(e, 'row', self.sc)
                self.column(row, 0, self.get(('k', s)))
                self.column(row, 1, self.inside(s))
                self.add(('c', n), {row})
                if s in self.U:
                    self.mark(n)
                out.add(n)
            elif m in ('keys', 'values'):
                n = self.site(e, 'seq' if m == 'values' else 'view', self.sc)
                self.add(('c', n), self.get(('k' if m == 'keys' else 'c', s)))
                if s in self.U:
                    self.mark(n)
                out.add(n)
            elif m in ('pop', 'popleft', 'popitem'):
                if s in self.U and (s.kind in ('set', 'seq') and not (
                        s.kind == 'set' and args) or m == 'popitem') and \
                        not self.single(e, e.func.value, {s}):
                    self.event('pick', e, 'an element is taken out')
                out |= self.inside(s)
            elif m in ('union', 'intersection', 'difference', 'symmetric_difference'):
                n = self.site(e, 'set', self.sc)
                self.add(('c', n), self.inside(s))
                if m in ('union', 'symmetric_difference'):
                    for v in vals:
                        self.add(('c', n), self.elements(v))
                out.add(n)
            elif m == 'copy':
                out.add(s)
            elif m == 'sort':
                key = dict((k.arg, k.value) for k in e.keywords).get('key')
                if s not in self.sorted_sites and not (key is not None and weak(key, self.functions())):
                    self.sorted_sites.add(s)
                    self.U.discard(s)
                    self.changed = True
            elif m in ('index',) and s in self.U:
                self.event('pick', e, 'a position is looked up')
            elif m in ('elements', 'most_common'):
                out |= self.seq(e, {s})
        if not recv:
            if m == 'get' and len(vals) > 1:
                out |= last
            if m == 'setdefault' and len(vals) > 1:
                out |= last
            if m in ('union', 'intersection', 'difference', 'symmetric_difference'):
                out.add(self.site(e, 'set', self.sc))
        return out

    # ------------------------------------------------------------------ exactly one element
    def single(self, node, expr, sites):
        """Is the collection known to have one element where it is used?"""
        if self.quiet or not self.final:
            return True           # nothing would be reported
        return single_here(self, node, expr, sites)


def numeric(text):
    """All fields of the format string are numbers."""
    try:
        fs = [(n, spec) for _, n, spec, _ in string.Formatter().parse(text) if n is not None]
    except (ValueError, TypeError):
        return False
    return bool(fs) and all(spec[-1:] and spec[-1] in 'bcdeEfFgGnoxX%' for _, spec in fs)


def name_is_container(o, name):
    return bool(o.get(o.var(name)))


def commutes(value, name):
    """max, min, and, or, union with the old value."""
    if isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and \
            value.func.id in ('max', 'min', 'any', 'all') or isinstance(value, ast.BoolOp) or \
            isinstance(value, ast.BinOp) and isinstance(value.op, (
                ast.Add, ast.Mult, ast.BitOr, ast.BitAnd, ast.Sub)):
        return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(value))
    return False


def weak(key, functions=None):
    """Keys that may leave different elements in the order they came in."""
    if isinstance(key, ast.Name):
        if key.id in WEAK_KEYS:
            return True
        if functions is None or key.id not in functions:
            return False
        return weak_function(functions[key.id], functions)
    if isinstance(key, ast.Lambda):
        return weak_result(key.body, [a.arg for a in key.args.args], functions)
    return False


def weak_function(f, functions):
    """A function of the program: some of its results is coarser than its argument."""
    rs = [n.value for n in walk_no_nested(f) if isinstance(n, ast.Return)]
    ps = [a.arg for a in f.args.args]
    local = {}
    for n in walk_no_nested(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name):
            local[n.targets[0].id] = n.value
    return not rs or any(weak_result(local.get(r.id, r) if isinstance(r, ast.Name) and
                                     r.id not in ps else r, ps, functions) for r in rs)


def weak_result(b, params, functions):
    if isinstance(b, ast.Constant) or b is None:
        return True
    if isinstance(b, (ast.Tuple, ast.List)):
        return all(weak_result(x, params, functions) for x in b.elts)
    if isinstance(b, ast.Call):
        n = b.func.id if isinstance(b.func, ast.Name) else None
        if n in WEAK_KEYS:
            return True
        if n is not None and functions and n in functions:
            return weak_function(functions[n], functions)
        return False
    if isinstance(b, ast.Name):
        return b.id not in params
    return False


def one_test(test, same):
    """1: the condition says that there is one element, -1: its negation does"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return -one_test(test.operand, same)
    if isinstance(test, ast.BoolOp):
        rs = [one_test(x, same) for x in test.values]
        if isinstance(test.op, ast.And) and 1 in rs:
            return 1
        if isinstance(test.op, ast.Or) and -1 in rs:
            return -1
        return 0
    if not isinstance(test, ast.Compare) or len(test.ops) != 1:
        return 0
    l, r, op = test.left, test.comparators[0], test.ops[0]
    if isinstance(l, ast.Constant):
        l, r = r, l
        op = {ast.Lt: ast.Gt(), ast.Gt: ast.Lt(), ast.LtE: ast.GtE(), ast.GtE: ast.LtE()}.get(
            type(op), op)
    if not (isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == 'len' and
            l.args and same(l.args[0]) and isinstance(r, ast.Constant)):
        return 0
    n = r.value
    if isinstance(op, ast.Eq) and n == 1 or isinstance(op, ast.LtE) and n == 1 or \
            isinstance(op, ast.Lt) and n == 2:
        return 1
    if isinstance(op, ast.NotEq) and n == 1 or isinstance(op, ast.Gt) and n == 1 or \
            isinstance(op, ast.GtE) and n == 2:
        return -1
    return 0


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Raise, ast.Return, ast.Continue, ast.Break)) \
        or bool(body) and isinstance(body[-1], ast.Expr) and isinstance(
            body[-1].value, ast.Call) and ast.unparse(body[-1].value.func) in ('sys.exit', 'exit')


def single_here(o, node, expr, sites):
    def same(x):
        if ast.dump(x) == ast.dump(expr):
            return True
        q = o.quiet
        o.quiet += 1
        r = o.ev(x)
        o.quiet = q
        return bool(r) and r == set(sites)

    def search(body):
        """None: node not here; otherwise whether one element is established before it"""
        known = False
        for s in body:
            if any(n is node for n in ast.walk(s)):
                if known:
                    return True
                if isinstance(s, ast.If):
                    t = one_test(s.test, same)
                    if any(n is node for n in ast.walk(s.test)):
                        if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                            return t == 1
                        return False
                    for part, want in ((s.body, 1), (s.orelse, -1)):
                        if any(n is node for x in part for n in ast.walk(x)):
                            return t == want or search(part)
                for f in ('body', 'orelse', 'finalbody'):
                    part = getattr(s, f, None)
                    if isinstance(part, list) and any(n is node for x in part
                                                      for n in ast.walk(x)):
                        return search(part)
                for h in getattr(s, 'handlers', ()):
                    if any(n is node for n in ast.walk(h)):
                        return search(h.body)
                for n in ast.walk(s):
                    if isinstance(n, ast.IfExp):
                        t = one_test(n.test, same)
                        if t == 1 and any(x is node for x in ast.walk(n.body)) or \
                                t == -1 and any(x is node for x in ast.walk(n.orelse)):
                            return True
                return False
            if isinstance(s, ast.Assert) and one_test(s.test, same) == 1:
                known = True
            elif isinstance(s, ast.If):
                t = one_test(s.test, same)
                if t == -1 and leaves(s.body) or t == 1 and s.orelse and leaves(s.orelse):
                    known = True
        return False
    return search(o.sc.body)
