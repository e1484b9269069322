"""Normal form of function bodies: temporaries that only carry a value to the next statement.

`t = E; if t: ..` becomes `if E: ..` (likewise for return, assignment and the head of a for
statement, and for the operand of `not` or the first operand of and / or) when t is assigned once
and used once in the function; `t = name` becomes plain uses of name when neither is assigned
again; while statements that step an index or call next() become for statements, and loops over
the indices of a list loops over its elements.  All are exact: evaluation order and results stay the same.
"""
import ast

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def blocks(node):
    for n in ast.walk(node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def slot(node, field):
    """(node, field) of the expression that is evaluated first in node.field"""
    while True:
        e = getattr(node, field)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            node, field = e, 'operand'
        elif isinstance(e, ast.BoolOp):
            if isinstance(e.values[0], ast.Name):
                return e, None
            node, field = e.values[0], None
            if not (isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not)):
                return None
            field = 'operand'
        else:
            return node, field


def heads(s):
    if isinstance(s, ast.If):
        return 'test'
    if isinstance(s, (ast.Return, ast.Assign)):
        return 'value'
    if isinstance(s, ast.For):
        return 'iter'
    return None


def counts(fn):
    use, store, other = {}, {}, set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            d = use if isinstance(n.ctx, ast.Load) else store
            d[n.id] = d.get(n.id, 0) + 1
            if isinstance(n.ctx, ast.Del):
                other.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            other.update(n.names)
        elif isinstance(n, ast.arg):
            store[n.arg] = store.get(n.arg, 0) + 1
        elif isinstance(n, ast.ExceptHandler) and n.name:
            store[n.name] = store.get(n.name, 0) + 1
        elif isinstance(n, FUNCS) and n is not fn and not isinstance(n, ast.Lambda):
            other.add(n.name)
        elif isinstance(n, ast.ClassDef):
            other.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            other.update((a.asname or a.name).split('.')[0] for a in n.names)
        elif isinstance(n, ast.MatchAs) and n.name:
            other.add(n.name)
    return use, store, other


def forward(fn):
    use, store, other = counts(fn)
    for b in blocks(fn):
        i = 0
        while i < len(b) - 1:
            s, nx = b[i], b[i + 1]
            done = False
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name) and not isinstance(
                        s.value, (ast.Yield, ast.YieldFrom, ast.Await)):
                t = s.targets[0].id
                f = heads(nx)
                if f and getattr(nx, f) is not None and use.get(t) == 1 and store.get(t) == 1 and \
                        t not in other:
                    p = slot(nx, f)
                    if p is not None:
                        node, field = p
                        e = node.values[0] if field is None else getattr(node, field)
                        if isinstance(e, ast.Name) and e.id == t:
                            if field is None:
                                node.values[0] = s.value
                            else:
                                setattr(node, field, s.value)
                            del b[i]
                            done = True
                            i = max(0, i - 1)
            if not done:
                i += 1


def nested(fn):
    """def f(): return E; return f()   as   return E"""
    for b in list(blocks(fn)):
        for i, (s, nx) in enumerate(zip(b, b[1:])):
            f = heads(nx)
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or not f or \
                    any(vars(s.args)[k] for k in vars(s.args)):
                continue
            body = s.body[1:] if isinstance(s.body[0], ast.Expr) and isinstance(
                s.body[0].value, ast.Constant) else s.body
            e = getattr(nx, f)
            if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and \
                    isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                    e.func.id == s.name and not e.args and not e.keywords and \
                    counts(fn)[0].get(s.name) == 1 and not any(
                        isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr))
                        for n in ast.walk(body[0])):
                setattr(nx, f, body[0].value)
                del b[i]
                break


def own_level(body, *types):
    """statements of these types that belong to the loop with this body"""
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, types):
            return True
        if isinstance(n, (ast.For, ast.While)):
            todo += n.orelse
            continue
        if not isinstance(n, FUNCS + (ast.ClassDef,)):
            todo += ast.iter_child_nodes(n)
    return False


def loads(nodes, name):
    return [n for s in nodes for n in ast.walk(s)
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]


def assigned(nodes, name):
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load):
                return True
    return False


def is_len(e):
    return e.args[0] if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
        e.func.id == 'len' and len(e.args) == 1 and not e.keywords else None


def steady(e, body):
    """e is the same, and as long, in every round"""
    if isinstance(e, ast.Constant):
        return True
    root = e
    while isinstance(root, ast.Attribute):
        root = root.value
    if not isinstance(root, ast.Name) or assigned(body, root.id):
        return False
    txt = ast.dump(e)
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load) and \
                    isinstance(e, ast.Attribute) and n.attr == e.attr:
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    ast.dump(n.func.value) == txt and n.func.attr in (
                        'append', 'insert', 'extend', 'pop', 'remove', 'clear', 'popleft', 'add',
                        'discard'):
                return False
            if isinstance(n, ast.Delete) and any(txt in ast.dump(t) for t in n.targets):
                return False
    return True


def plus_one(s, i):
    if isinstance(s, ast.AugAssign):
        return isinstance(s.target, ast.Name) and s.target.id == i and \
            isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) and s.value.value == 1
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and \
        isinstance(s.targets[0], ast.Name) and s.targets[0].id == i and \
        ast.unparse(s.value) in (i + ' + 1', '1 + ' + i)


def index_while(fn, b, k):
    """i = a; while i < n: ..; i += 1   as a for statement over range(a, n)"""
    w = b[k]
    t = w.test
    if w.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    l, r = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Gt):
        l, r = r, l
    elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
        return None
    if not isinstance(l, ast.Name):
        return None
    i = l.id
    init = next((j for j in range(k - 1, -1, -1) if isinstance(b[j], ast.Assign) and
                 len(b[j].targets) == 1 and isinstance(b[j].targets[0], ast.Name) and
                 b[j].targets[0].id == i), None)
    if init is None or not isinstance(b[init].value, ast.Constant) or \
            not isinstance(b[init].value.value, int) or loads(b[init + 1:k], i):
        return None
    if isinstance(t.ops[0], ast.NotEq) and not (b[init].value.value == 0 and is_len(r)):
        return None
    seq = is_len(r)
    if not steady(seq if seq is not None else r, w.body):
        return None
    inc = [j for j, s in enumerate(w.body) if plus_one(s, i)]
    if len(inc) != 1:
        return None
    j = inc[0]
    if assigned(w.body[:j] + w.body[j + 1:], i) or loads(w.body[j + 1:], i) or \
            own_level(w.body[:j], ast.Continue, ast.Break):
        return None
    use, store, other = counts(fn)
    if i in other or store.get(i) != 2 or use.get(i, 0) != len(loads([w], i)):
        return None
    a = b[init].value
    rng = ast.Call(ast.Name('range', ast.Load()), [r] if a.value == 0 else [a, r], [])
    f = ast.copy_location(ast.For(ast.Name(i, ast.Store()), rng, w.body[:j] + w.body[j + 1:], []), w)
    if not f.body:
        return None
    ast.fix_missing_locations(f)
    return init, f


class Elem(ast.NodeTransformer):
    def __init__(self, seq, i, x):
        self.seq, self.i, self.x, self.n = ast.dump(seq), i, x, 0

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name) and \
                n.slice.id == self.i and ast.dump(n.value) == self.seq:
            self.n += 1
            return ast.copy_location(ast.Name(self.x, ast.Load()), n)
        return self.generic_visit(n)


def range_len(fn, f):
    """for i in range(len(xs)): .. xs[i] ..   as a for statement over (enumerate of) xs"""
    it = f.iter
    if f.orelse or not isinstance(f.target, ast.Name) or not isinstance(it, ast.Call) or \
            not isinstance(it.func, ast.Name) or it.func.id != 'range' or len(it.args) != 1 or \
            it.keywords:
        return
    seq, i = is_len(it.args[0]), f.target.id
    if seq is None or not steady(seq, f.body) or assigned(f.body, i):
        return
    root = ast.dump(seq)
    if any(isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and
           ast.dump(n.value) == root for s in f.body for n in ast.walk(s)):
        return                      # elements replaced on the way
    if any(isinstance(n, FUNCS) for s in f.body for n in ast.walk(s)):
        return
    s = f.body[0]
    e = Elem(seq, i, '%s_item' % i)
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Subscript) and \
            isinstance(s.value.slice, ast.Name) and s.value.slice.id == i and \
            ast.dump(s.value.value) == root and len(f.body) > 1:
        target = s.targets[0]
        if isinstance(target, ast.Name) and not assigned(f.body[1:], target.id):
            e.x = target.id
            f.body = [e.visit(x) for x in f.body[1:]]
        else:
            if any(isinstance(n, ast.Subscript) and ast.dump(n.value) == root
                   for x in f.body[1:] for n in ast.walk(x)):
                return
            f.body = f.body[1:]
    else:
        target = ast.Name(e.x, ast.Store())
        body = [e.visit(x) for x in f.body]
        if not e.n:
            return
        f.body = body
    if loads(f.body, i) or counts(fn)[0].get(i, 0) != len(loads([f], i)):
        f.target = ast.Tuple([f.target, target], ast.Store())
        f.iter = ast.Call(ast.Name('enumerate', ast.Load()), [seq], [])
    else:
        f.target, f.iter = target, seq
    ast.copy_location(f.target, f)
    ast.fix_missing_locations(f)


def next_while(fn, b, k):
    """it = iter(xs); while True: try: x = next(it) except StopIteration: break; ..  as for"""
    w = b[k]
    if w.orelse or not (isinstance(w.test, ast.Constant) and w.test.value in (True, 1)) or \
            len(w.body) < 2 or not isinstance(w.body[0], ast.Try):
        return None
    t = w.body[0]
    if len(t.body) != 1 or t.orelse or t.finalbody or len(t.handlers) != 1 or \
            not isinstance(t.handlers[0].type, ast.Name) or \
            t.handlers[0].type.id != 'StopIteration' or len(t.handlers[0].body) != 1 or \
            not isinstance(t.handlers[0].body[0], ast.Break):
        return None
    s = t.body[0]
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Call) and
            isinstance(s.value.func, ast.Name) and s.value.func.id == 'next' and
            len(s.value.args) == 1 and isinstance(s.value.args[0], ast.Name)):
        return None
    v = s.value.args[0].id
    init = next((j for j in range(k - 1, -1, -1) if isinstance(b[j], ast.Assign) and
                 len(b[j].targets) == 1 and isinstance(b[j].targets[0], ast.Name) and
                 b[j].targets[0].id == v), None)
    use, store, _ = counts(fn)
    if init is None or use.get(v) != 1 or store.get(v) != 1:
        return None
    c = b[init].value
    if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'iter' and
            len(c.args) == 1):
        return None
    f = ast.copy_location(ast.For(s.targets[0], c.args[0], w.body[1:], []), w)
    ast.fix_missing_locations(f)
    return init, f


def loops(fn):
    while any(loop_pass(b, fn) for b in list(blocks(fn))):
        pass
    for b in list(blocks(fn)):
        for s in b:
            if isinstance(s, ast.For):
                range_len(fn, s)


def loop_pass(b, fn):
    for k, s in enumerate(b):
        if isinstance(s, ast.While):
            r = index_while(fn, b, k) or next_while(fn, b, k)
            if r is not None:
                init, f = r
                b[k] = f
                del b[init]
                return True
    return False


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        return n


def aliases(fn):
    """t = name at the top of the body, neither changed afterwards"""
    if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return
    use, store, other = counts(fn)
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    m = {}
    for s in list(fn.body):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name):
            t, v = s.targets[0].id, m.get(s.value.id, s.value.id)
            if v in params and store.get(t) == 1 and store.get(v) == 1 and \
                    t not in other and v not in other:
                m[t] = v
                fn.body.remove(s)
    if m:
        if not fn.body:
            fn.body.append(ast.copy_location(ast.Pass(), fn))
        fn.body = [Rename(m).visit(s) for s in fn.body]


def normalize(tree):
    for n in list(ast.walk(tree)):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            aliases(n)
            nested(n)
            loops(n)
            forward(n)
    return tree
