"""P16: results, reports and generated code do not depend on the order of unordered collections."""
import ast

from ksa.order import Order
from ksa.program import walk_no_nested

EXPLANATION = (
    'Points-to analysis of all containers of the program (one abstract object per allocation '
    'site, contents per constant key, attributes per class, calls resolved by class or by name) '
    'combined with an order taint: sets, free symbols of expressions, directory listings, and '
    'every sequence, dictionary or generator filled in their iteration order have no determined '
    'order until they are sorted by a key that tells elements apart. Obligation of rule '
    '"order": no element is picked by position or by coming first or last, no text or output '
    'is made in such an order, and no such sequence is handed to a library, except when it is '
    'known to have one element. Obligation of rule "random": on no path through the call graph '
    'are random numbers drawn before the generator is seeded with a constant. Obligation of '
    'rule "identity": memory addresses and hash values are only used by equality and hashing.')
ASSUMPTIONS = [
    'Dictionaries keep insertion order (CPython 3.7 and later).',
    'Text on standard error and messages of exceptions are not results.',
    'Commutative folds (sum, min, max, any, all, sets) of exact values do not depend on the '
    'order; rounding of floating-point sums is not considered.',
    'A list sorted in place anywhere in its function counts as sorted.',
]
MIN = {'order': 10, 'random': 1, 'identity': 1}

RULES = {
    'order': 'what has no determined order is not turned into something that depends on it',
    'random': 'random numbers are drawn only after seeding with a constant',
    'identity': 'addresses and hash values are not used for anything but equality and hashing',
}
DRAWS = {'random', 'uniform', 'randint', 'randrange', 'choice', 'choices', 'shuffle', 'sample',
         'gauss', 'normalvariate', 'triangular', 'betavariate', 'expovariate', 'getrandbits',
         'rand', 'randn', 'permutation', 'normal', 'lognormvariate', 'random_sample'}
NEVER = {'os.urandom', 'uuid.uuid1', 'uuid.uuid4', 'random.SystemRandom', 'secrets.token_hex',
         'secrets.choice', 'secrets.randbelow', 'secrets.token_bytes', 'secrets.token_urlsafe',
         'os.getpid', 'os.getppid', 'os.times', 'threading.get_ident', 'os.getrandom'} | {
    'time.' + n for n in ('time', 'time_ns', 'perf_counter', 'perf_counter_ns', 'monotonic',
                          'monotonic_ns', 'process_time', 'process_time_ns', 'ctime', 'asctime',
                          'localtime', 'gmtime', 'strftime')} | {
    'datetime.%s.%s' % (c, n) for c in ('datetime', 'date') for n in ('now', 'utcnow', 'today')}


class Seeds:
    """Which functions draw random numbers before the generator is seeded."""

    def __init__(self, order, module):
        self.o = order
        self.mod = module
        self.draws = {}        # scope -> call that draws unseeded
        self.seeds = {}        # scope -> seeded at each normal exit
        self.n = 0
        for s in order.scopes:
            self.seeds[s] = True
        for i in range(30):
            before = (dict(self.draws), dict(self.seeds))
            for s in order.scopes:
                self.scope(s)
            if before == (self.draws, self.seeds):
                break

    def scope(self, sc):
        self.sc = sc
        self.o.sc = sc
        self.exits = []
        end = self.block(sc.body, False)
        if end is not None:
            self.exits.append(end)
        self.seeds[sc] = all(self.exits) if self.exits else True

    def block(self, body, seeded):
        """Seeded behind the statements, None if they are never left at the end."""
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(s, ast.If):
                seeded = self.expr(s.test, seeded)
                a = self.block(s.body, seeded)
                b = self.block(s.orelse, seeded)
                if a is None and b is None:
                    return None
                seeded = b if a is None else a if b is None else a and b
            elif isinstance(s, (ast.For, ast.While)):
                seeded = self.expr(s.iter if isinstance(s, ast.For) else s.test, seeded)
                self.block(s.body, seeded)
                self.block(s.orelse, seeded)
            elif isinstance(s, ast.With):
                for i in s.items:
                    seeded = self.expr(i.context_expr, seeded)
                seeded = self.block(s.body, seeded)
                if seeded is None:
                    return None
            elif isinstance(s, ast.Try):
                before = seeded
                a = self.block(s.body, seeded)
                if a is not None:
                    a = self.block(s.orelse, a)
                outs = [a] + [self.block(h.body, before) for h in s.handlers]
                outs = [x for x in outs if x is not None]
                fin = self.block(s.finalbody, all(outs) if outs else before)
                if not outs or fin is None:
                    return None
                seeded = fin
            elif isinstance(s, ast.Return):
                self.exits.append(self.expr(s.value, seeded))
                return None
            elif isinstance(s, ast.Raise):
                return None
            elif isinstance(s, (ast.Break, ast.Continue)):
                return None
            else:
                seeded = self.expr(s, seeded)
        return seeded

    def expr(self, e, seeded):
        if e is None:
            return seeded
        for c in calls(e):
            name = self.o.fullname(c.func)
            if name == self.mod + '.seed':
                seeded = bool(c.args) and constant(c.args[0], self.sc) and not c.keywords
                continue
            mod, _, fn = name.rpartition('.')
            if mod == self.mod and (fn in DRAWS or fn in ('Random', 'default_rng', 'RandomState')
                                    and not (c.args and constant(c.args[0], self.sc))):
                self.n += 1
                if not seeded or fn not in DRAWS:
                    self.draws.setdefault(self.sc, c)
                continue
            cs = self.o.callees(c)
            for x in cs:
                if x in self.draws and not seeded:
                    self.draws.setdefault(self.sc, c)
            if cs and all(self.seeds[x] for x in cs):
                seeded = True
        return seeded


def calls(e):
    """Calls in evaluation order."""
    r = []

    def walk(n):
        if isinstance(n, (ast.Lambda, ast.FunctionDef)):
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
        if isinstance(n, ast.Call):
            r.append(n)
    if isinstance(e, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and e.value is not None:
        walk(e.value)
        for t in e.targets if isinstance(e, ast.Assign) else [e.target]:
            walk(t)
    else:
        walk(e)
    return r


def constant(e, sc):
    if isinstance(e, ast.Constant):
        return e.value is not None
    if isinstance(e, ast.UnaryOp):
        return constant(e.operand, sc)
    if isinstance(e, ast.BinOp):
        return constant(e.left, sc) and constant(e.right, sc)
    if isinstance(e, ast.Name):
        # constant of the module, default value or local bound to constants only
        if e.id in sc.locals and sc.parent is not None:
            vs = [n.value for n in walk_no_nested(sc.node) if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            a = sc.node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            if e.id in ps:
                d = dict(zip(reversed(ps), reversed(a.defaults)))
                return e.id in d and constant(d[e.id], sc)
            return bool(vs) and all(constant(v, sc) for v in vs)
        vs = sc.module.assigns.get(e.id)
        vs = vs if isinstance(vs, (list, tuple)) else [vs] if vs is not None else []
        return bool(vs) and all(isinstance(v, ast.AST) and constant(v, sc) for v in vs)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in (
            'self', 'cls') or isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        vs = [n.value for n in ast.walk(sc.module.tree) if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Attribute) and t.attr == e.attr or
            isinstance(t, ast.Name) and t.id == e.attr for t in n.targets)]
        return bool(vs) and all(isinstance(v, ast.Constant) and v.value is not None for v in vs)
    return False


def run(prog, rep, tier):
    for n, t in RULES.items():
        rep.rule(n, t)
    o = Order(prog)
    rep.require(o.scopes, 'no functions found')
    rep.functions |= {s.qual for s in o.scopes}
    rep.count('allocation_sites', len(o.sites))
    rep.count('sites_without_order', len(o.U))
    rep.count('iterations_without_order', len(o.unordered_seen))
    for kind, sc, node, msg in o.events:
        rep.bad('order', '%s: %s' % (short(sc), what(node)), '%s:%d' % (
            sc.module.path, node.lineno), 'in undetermined order %s' % msg)
    for s in sorted({s.node.lineno if hasattr(s.node, 'lineno') else 0 for s in o.U}):
        rep.ok('order')
    for sc, n in o.unordered_seen.values():
        rep.ok('order', '%s iterates over %s' % (short(sc), ast.unparse(n)[:60]))

    # random numbers
    called = set()
    for s in o.scopes:
        o.sc = s
        for n in walk_no_nested(s.node):
            if isinstance(n, ast.Call):
                for c in o.callees(n):
                    if c is not s:
                        called.add(c)
    for module in ('random', 'numpy.random'):
        sd = Seeds(o, module)
        rep.count('random_draws', sd.n)
        for s in o.scopes:
            if s in called:
                continue
            c = sd.draws.get(s)
            if c is None:
                rep.ok('random')
                continue
            # down to the call that draws
            path, cur = [], s
            while cur in sd.draws and len(path) < 20:
                c = sd.draws[cur]
                path.append('%s:%d %s' % (cur.module.path, c.lineno, what(c)))
                o.sc = cur
                nxt = [x for x in o.callees(c) if x in sd.draws]
                if not nxt or nxt[0] is cur:
                    break
                cur = nxt[0]
            rep.bad('random', '%s' % short(cur), path[-1].split(' ')[0],
                    'random numbers are drawn before seeding with a constant', path)
    for s in o.scopes:
        o.sc = s
        for n in every(s.node):
            if isinstance(n, ast.Call) and o.fullname(n.func) in NEVER:
                rep.check(only_compared(o, s, n, o.scopes), 'random',
                          '%s: %s' % (short(s), what(n)), '%s:%d' % (s.module.path, n.lineno),
                          'differs from run to run and is not only compared')

    # addresses
    for s in o.scopes:
        for n in every(s.node):
            name = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.args:
                name = n.func
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ('__hash__', '__repr__') and (
                        n.func.attr == '__hash__' or isinstance(n.func.value, ast.Name) and
                        n.func.value.id == 'object'):
                rep.check(s.qual.rpartition('.')[2] in ('__hash__', '__eq__', '__ne__'),
                          'identity', '%s: %s' % (short(s), what(n)), '%s:%d' % (
                              s.module.path, n.lineno), 'differs from run to run')
            if name is not None and name.id in ('id', 'hash') and own(s, name.id):
                ok = s.qual.rpartition('.')[2] in ('__hash__', '__eq__', '__ne__') or compared(
                    n, s.node)
                rep.check(ok, 'identity', '%s: %s' % (short(s), what(n)), '%s:%d' % (
                    s.module.path, n.lineno), 'differs from run to run')
            # the function itself, as a key or mapped
            if isinstance(n, ast.Call):
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name) and a.id in ('id', 'hash') and own(s, a.id) and \
                            a.id not in s.locals:
                        rep.bad('identity', '%s: %s' % (short(s), what(n)), '%s:%d' % (
                            s.module.path, n.lineno), '%s differs from run to run' % a.id)
        rep.ok('identity')


def own(s, name):
    """The name is the built-in function."""
    return name not in s.locals and name not in s.module.functions and \
        name not in s.module.imports


def every(fn):
    """Nodes of a function including its lambdas, without nested functions and classes."""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))


def only_compared(o, s, call, scopes, depth=0):
    """The value is used in nothing but comparisons, here and where it is returned to."""
    if depth > 2:
        return False
    par = {}
    for n in ast.walk(s.node):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    p = par.get(call)
    if isinstance(p, ast.Compare):
        return True
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        uses = [n for n in ast.walk(s.node) if isinstance(n, ast.Name) and
                n.id == p.targets[0].id and isinstance(n.ctx, ast.Load)]
        return all(isinstance(par.get(u), ast.Compare) or
                   isinstance(par.get(u), ast.Return) and returned(o, s, scopes, depth)
                   for u in uses)
    if isinstance(p, ast.Return):
        return returned(o, s, scopes, depth)
    return False


def returned(o, s, scopes, depth):
    keep = o.sc
    try:
        for x in scopes:
            o.sc = x
            for n in every(x.node):
                if isinstance(n, ast.Call) and s in o.callees(n):
                    if not only_compared(o, x, n, scopes, depth + 1):
                        return False
                    o.sc = x
        return True
    finally:
        o.sc = keep


def compared(call, fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and all(isinstance(x, (ast.Eq, ast.NotEq, ast.Is, ast.In,
                                                             ast.NotIn, ast.IsNot))
                                              for x in n.ops) and \
                (n.left is call or any(x is call for x in n.comparators)):
            return True
    return False


def short(sc):
    return sc.qual.split('.', 1)[1] if '.' in sc.qual else sc.qual


def what(node):
    return ' '.join(ast.unparse(node).split())[:70]
