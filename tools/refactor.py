#!/usr/bin/env python3
"""refactor.py KIND OUTDIR [REPO] [REGEX]: behaviour-preserving rewrite of the whole package.

Writes a copy of REPO's package to OUTDIR in which every place KIND applies to (in functions whose
qualified name matches REGEX) is rewritten.  Used to test that the checks judge what the code does
and not how it is written (`tools/stress.py` runs them all).
"""
import ast
import copy
import os
import re
import shutil
import sys

BUILTIN = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and
            (ctx is None or isinstance(n.ctx, ctx))}


def has(node, *types):
    return any(isinstance(n, types) for n in ast.walk(node))


def N(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


class Base:
    """f(fn, ctx) rewrites one function definition in place."""

    def __init__(self):
        self.n = 0
        self.k = 0

    def fresh(self, p='tmp'):
        self.n += 1
        return '%s_%d' % (p, self.n)

    def blocks(self, fn):
        """all statement lists of fn (nested functions excluded)"""
        out = []

        def rec(body):
            out.append(body)
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, f, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                        rec(b)
                for h in getattr(s, 'handlers', []) or []:
                    rec(h.body)
        rec(fn.body)
        return out


class RenameLocals(Base):
    def apply(self, fn, info):
        a = fn.args
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        params |= {x.arg for x in (a.vararg, a.kwarg) if x}
        keep = set(params)
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                keep |= set(n.names)
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    keep.add(n.name)
                if not isinstance(n, ast.ClassDef):
                    keep |= {x.arg for x in n.args.args + n.args.kwonlyargs}
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                keep |= {(x.asname or x.name).split('.')[0] for x in n.names}
        loc = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and
               isinstance(n.ctx, (ast.Store, ast.Del))}
        loc |= {h.name for h in ast.walk(fn) if isinstance(h, ast.ExceptHandler) and h.name}
        loc -= keep
        if 'locals' in names(fn):
            return
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = 'the_' + n.id
                self.k += 1
            if isinstance(n, ast.ExceptHandler) and n.name in loc:
                n.name = 'the_' + n.name


class ReturnTemp(Base):
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, ast.Return) and s.value is not None and \
                        not isinstance(s.value, (ast.Name, ast.Constant)):
                    t = self.fresh('result')
                    b[i:i + 1] = [ast.Assign([N(t, ast.Store())], s.value), ast.Return(N(t))]
                    self.k += 1


class InvertIf(Base):
    def apply(self, fn, info):
        for n in ast.walk(fn):
            if isinstance(n, ast.If) and n.orelse:
                if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                    continue
                n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and \
                    isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body
                self.k += 1


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class ElseAfterExit(Base):
    """if c: return x / rest  ->  if c: return x else: rest"""
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                    self.k += 1
                    break


class NoElseAfterExit(Base):
    def apply(self, fn, info):
        for b in self.blocks(fn):
            i = 0
            while i < len(b):
                s = b[i]
                if isinstance(s, ast.If) and s.orelse and ends(s.body):
                    b[i + 1:i + 1] = s.orelse
                    s.orelse = []
                    self.k += 1
                i += 1


class GuardContinue(Base):
    """for x in y: if c: body   ->   for x in y: if not c: continue; body"""
    def apply(self, fn, info):
        for n in ast.walk(fn):
            if isinstance(n, (ast.For, ast.While)) and n.body and isinstance(n.body[-1], ast.If) \
                    and not n.body[-1].orelse:
                s = n.body.pop()
                n.body.append(ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], []))
                n.body += s.body
                self.k += 1


class CompToLoop(Base):
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if not isinstance(s, (ast.Assign, ast.Return)) or s.value is None:
                    continue
                c = s.value
                if isinstance(s, ast.Assign) and len(s.targets) != 1:
                    continue
                if not isinstance(c, (ast.ListComp, ast.DictComp)):
                    continue
                t = self.fresh('acc')
                # comprehension variables may shadow locals: rename
                ren = {}
                for g in c.generators:
                    for x in names(g.target, ast.Store):
                        ren[x] = self.fresh('it_' + x)
                first = c.generators[0].iter
                free = names(first)

                class R(ast.NodeTransformer):
                    def visit_Name(self, n):
                        if n.id in ren:
                            n.id = ren[n.id]
                        return n
                if free & set(ren) or has(c, ast.Lambda):
                    continue
                R().visit(c)
                if isinstance(c, ast.ListComp):
                    init = ast.List([], ast.Load())
                    stm = ast.Expr(ast.Call(ast.Attribute(N(t), 'append', ast.Load()), [c.elt], []))
                else:
                    init = ast.Dict([], [])
                    stm = ast.Assign([ast.Subscript(N(t), c.key, ast.Store())], c.value)
                body = [stm]
                for g in reversed(c.generators):
                    for f in reversed(g.ifs):
                        body = [ast.If(f, body, [])]
                    body = [ast.For(g.target, g.iter, body, [])]
                s.value = N(t)
                b[i:i] = [ast.Assign([N(t, ast.Store())], init)] + body
                self.k += 1


class LoopToComp(Base):
    """x = []; for a in b: x.append(e)  ->  x = [e for a in b]"""
    def apply(self, fn, info):
        for b in self.blocks(fn):
            i = 0
            while i + 1 < len(b):
                s, f = b[i], b[i + 1]
                i += 1
                if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and
                        isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and
                        not s.value.elts and isinstance(f, ast.For) and not f.orelse and
                        len(f.body) == 1):
                    continue
                x = s.targets[0].id
                body, ifs = f.body[0], []
                if isinstance(body, ast.If) and not body.orelse and len(body.body) == 1:
                    ifs = [body.test]
                    body = body.body[0]
                if not (isinstance(body, ast.Expr) and isinstance(body.value, ast.Call) and
                        isinstance(body.value.func, ast.Attribute) and
                        body.value.func.attr == 'append' and
                        isinstance(body.value.func.value, ast.Name) and
                        body.value.func.value.id == x):
                    continue
                e = body.value.args[0]
                if x in names(e) | names(f.iter) or has(e, ast.Yield):
                    continue
                b[i - 1:i + 1] = [ast.Assign(s.targets, ast.ListComp(
                    e, [ast.comprehension(f.target, f.iter, ifs, 0)]))]
                self.k += 1


class ExtractArg(Base):
    """f(g(x)) -> t = g(x); f(t)   (first evaluated sub-expression of a statement)"""
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if not isinstance(s, (ast.Assign, ast.Return, ast.Expr)):
                    continue
                if isinstance(s, ast.Assign) and not all(
                        isinstance(t, (ast.Name, ast.Attribute)) for t in s.targets):
                    continue
                c = s.value
                if not isinstance(c, ast.Call) or not c.args:
                    continue
                f = c.func
                while isinstance(f, ast.Attribute):
                    f = f.value
                if not isinstance(f, ast.Name) or f.id == 'super':
                    continue
                a = c.args[0]
                if isinstance(a, (ast.Name, ast.Constant, ast.Starred, ast.Lambda,
                                  ast.GeneratorExp)):
                    continue
                t = self.fresh('arg')
                c.args[0] = N(t)
                b.insert(i, ast.Assign([N(t, ast.Store())], a))
                self.k += 1


class ExtractCond(Base):
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
                    t = self.fresh('cond')
                    b.insert(i, ast.Assign([N(t, ast.Store())], s.test))
                    s.test = N(t)
                    self.k += 1


class IterTemp(Base):
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                    t = self.fresh('items')
                    b.insert(i, ast.Assign([N(t, ast.Store())], s.iter))
                    s.iter = N(t)
                    self.k += 1


class SwapCompare(Base):
    OPS = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq,
           ast.NotEq: ast.NotEq}

    def apply(self, fn, info):
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in self.OPS \
                    and not (has(n.left, ast.Call) and has(n.comparators[0], ast.Call)):
                n.left, n.comparators = n.comparators[0], [n.left]
                n.ops = [self.OPS[type(n.ops[0])]()]
                self.k += 1


class NotIn(Base):
    M = {ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq}

    def apply(self, fn, info):
        class R(ast.NodeTransformer):
            def visit_Compare(s, n):
                s.generic_visit(n)
                if len(n.ops) == 1 and type(n.ops[0]) in self.M:
                    n.ops = [self.M[type(n.ops[0])]()]
                    self.k += 1
                    return ast.UnaryOp(ast.Not(), n)
                return n
        R().visit(fn)


class DeMorgan(Base):
    def apply(self, fn, info):
        def neg(x):
            return x.operand if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) \
                else ast.UnaryOp(ast.Not(), x)

        def conv(t):
            if isinstance(t, ast.BoolOp):
                self.k += 1
                return ast.UnaryOp(ast.Not(), ast.BoolOp(
                    ast.Or() if isinstance(t.op, ast.And) else ast.And(),
                    [neg(v) for v in t.values]))
            return t
        for n in ast.walk(fn):
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                n.test = conv(n.test)


class NestAnd(Base):
    """if a and b: X -> if a: if b: X"""
    def apply(self, fn, info):
        for n in ast.walk(fn):
            if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and \
                    isinstance(n.test.op, ast.And):
                v = n.test.values
                rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
                n.body = [ast.If(rest, n.body, [])]
                n.test = v[0]
                self.k += 1


class IfExpToIf(Base):
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                    e = s.value
                    x, y = copy.deepcopy(s), copy.deepcopy(s)
                    x.value, y.value = e.body, e.orelse
                    b[i] = ast.If(e.test, [x], [y])
                    self.k += 1


class IfToIfExp(Base):
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and \
                        isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign):
                    x, y = s.body[0], s.orelse[0]
                    if len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute)) \
                            and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                        x.value = ast.IfExp(s.test, x.value, y.value)
                        b[i] = x
                        self.k += 1


class SplitTuple(Base):
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                        len(s.targets[0].elts) == len(s.value.elts) and \
                        not has(s, ast.Starred):
                    ts = [self.fresh('part') for _ in s.value.elts]
                    b[i:i + 1] = [ast.Assign([N(t, ast.Store())], v)
                                  for t, v in zip(ts, s.value.elts)] + \
                                 [ast.Assign([x], N(t)) for t, x in zip(ts, s.targets[0].elts)]
                    self.k += 1


class UnpackTemp(Base):
    """a, b = f()  ->  t = f(); a = t[0]; b = t[1]    (f known to give a tuple: skipped if not call
    of own package or literal)"""
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and \
                        isinstance(s.value.func, ast.Attribute) and \
                        isinstance(s.value.func.value, ast.Name) and \
                        s.value.func.value.id == 'self' and not has(s.targets[0], ast.Starred):
                    t = self.fresh('pair')
                    b[i:i + 1] = [ast.Assign([N(t, ast.Store())], s.value)] + [
                        ast.Assign([x], ast.Subscript(N(t), ast.Constant(j), ast.Load()))
                        for j, x in enumerate(s.targets[0].elts)]
                    self.k += 1


class FormatToF(Base):
    def apply(self, fn, info):
        class R(ast.NodeTransformer):
            def visit_Call(s, n):
                s.generic_visit(n)
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and \
                        isinstance(n.func.value, ast.Constant) and \
                        isinstance(n.func.value.value, str):
                    import string
                    try:
                        ps = list(string.Formatter().parse(n.func.value.value))
                    except ValueError:
                        return n
                    kw = {k.arg: k.value for k in n.keywords}
                    if None in kw or any(isinstance(a, ast.Starred) for a in n.args):
                        return n
                    out, auto, used = [], 0, []
                    for lit, field, spec, conv in ps:
                        if lit:
                            out.append(ast.Constant(lit))
                        if field is None:
                            continue
                        if spec and '{' in spec:
                            return n
                        m = re.match(r'^(\w*)((?:\.\w+|\[\w+\])*)$', field)
                        if not m:
                            return n
                        base = m.group(1)
                        if base == '':
                            if auto >= len(n.args):
                                return n
                            v = n.args[auto]
                            used.append(auto)
                            auto += 1
                        elif base.isdigit():
                            v = n.args[int(base)]
                            used.append(int(base))
                        elif base in kw:
                            v = kw[base]
                            used.append(base)
                        else:
                            return n
                        v = copy.deepcopy(v)
                        for acc in re.findall(r'\.\w+|\[\w+\]', m.group(2)):
                            if acc[0] == '.':
                                v = ast.Attribute(v, acc[1:], ast.Load())
                            else:
                                k = acc[1:-1]
                                v = ast.Subscript(v, ast.Constant(
                                    int(k) if k.isdigit() else k), ast.Load())
                        out.append(ast.FormattedValue(
                            v, ord(conv) if conv else -1,
                            ast.JoinedStr([ast.Constant(spec)]) if spec else None))
                    for v in list(n.args) + list(kw.values()):
                        if any(isinstance(c, ast.Constant) and isinstance(c.value, str) and
                               ("'" in c.value or '"' in c.value or '\\' in c.value or
                                '\n' in c.value) for c in ast.walk(v)) or has(v, ast.JoinedStr):
                            return n
                    if len(set(used)) != len(used) or len(used) != len(n.args) + len(kw):
                        return n
                    self.k += 1
                    return ast.JoinedStr(out)
                return n
        R().visit(fn)


class PercentToFormat(Base):
    """'%s' % x -> '{}'.format(x) for plain %s"""
    def apply(self, fn, info):
        class R(ast.NodeTransformer):
            def visit_BinOp(s, n):
                s.generic_visit(n)
                if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and \
                        isinstance(n.left.value, str):
                    f = n.left.value
                    if re.search(r'%[^s]', f) or '{' in f or not isinstance(n.right, ast.Tuple):
                        return n
                    self.k += 1
                    return ast.Call(ast.Attribute(ast.Constant(f.replace('%s', '{}')), 'format',
                                                  ast.Load()), n.right.elts, [])
                return n
        R().visit(fn)


class ConcatToFormat(Base):
    """a + 'text' -> '{}text'.format(a)  where the whole chain holds a string literal"""
    def apply(self, fn, info):
        def flat(n):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
                return flat(n.left) + flat(n.right)
            return [n]

        class R(ast.NodeTransformer):
            def visit_BinOp(s, n):
                ps = flat(n)
                if len(ps) > 1 and any(isinstance(p, ast.Constant) and isinstance(p.value, str)
                                       for p in ps[:2]):
                    if any(isinstance(p, ast.BinOp) for p in ps):
                        return n
                    fmt, args = '', []
                    for p in ps:
                        if isinstance(p, ast.Constant) and isinstance(p.value, str):
                            fmt += p.value.replace('{', '{{').replace('}', '}}')
                        else:
                            fmt += '{}'
                            args.append(s.visit(p))
                    self.k += 1
                    return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()),
                                    args, [])
                s.generic_visit(n)
                return n
        R().visit(fn)


class AugToPlain(Base):
    """x += e -> x = x + e for local names that hold numbers or strings (literal initialised)"""
    def apply(self, fn, info):
        ok = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                ok |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for b in self.blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and \
                        s.target.id in ok:
                    b[i] = ast.Assign([s.target], ast.BinOp(N(s.target.id), s.op, s.value))
                    self.k += 1


class Helper(Base):
    """moves the tail of a method or function into a new helper"""
    size = None

    def cut(self, fn):
        return len(fn.body) // 2

    def apply(self, fn, info):
        cls, top = info
        if not top or has(fn, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global) or \
                fn.decorator_list or len(fn.body) < 3:
            return
        k = self.cut(fn)
        head, tail = fn.body[:k], fn.body[k:]
        if isinstance(head[0], ast.Expr) and isinstance(head[0].value, ast.Constant) and k == 1:
            return
        if any(isinstance(n, ast.Name) and n.id in ('super', 'locals', '__class__')
               for s in tail for n in ast.walk(s)):
            return
        a = fn.args
        order = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        order += [x.arg for x in (a.vararg, a.kwarg) if x]
        loc = set(order)
        for s in head:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    loc.add(n.id)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    return
                if isinstance(n, (ast.FunctionDef,)) and n is not fn:
                    loc.add(n.name)
        used = set()
        for s in tail:
            used |= names(s)
        # names only possibly bound in the head: passing them would raise; take definite ones only
        definite = set(order)
        for s in head:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    definite |= names(t, ast.Store)
            elif isinstance(s, ast.FunctionDef):
                definite.add(s.name)
            elif isinstance(s, ast.With):
                for q in s.body:
                    if isinstance(q, ast.Assign):
                        for t in q.targets:
                            definite |= names(t, ast.Store)
            elif isinstance(s, ast.If) and s.orelse:
                def asg(b):
                    r = set()
                    for q in b:
                        if isinstance(q, ast.Assign):
                            for t in q.targets:
                                r |= names(t, ast.Store)
                        elif isinstance(q, ast.If) and q.orelse:
                            r |= asg(q.body) & asg(q.orelse)
                    if ends(b):
                        return set(loc)
                    return r
                definite |= asg(s.body) & asg(s.orelse)
        need = [x for x in order if x in used] + sorted((used & loc) - set(order))
        if set(need) - definite:
            return
        name = '_rest_of_' + fn.name.strip('_')
        is_m = cls is not None and order and order[0] == 'self'
        if is_m and 'self' in need:
            need.remove('self')
        args = ast.arguments([], [ast.arg(x) for x in (['self'] if is_m else []) + need], None, [],
                             [], None, [])
        if is_m and fn.name.startswith('__') and not fn.name.endswith('__'):
            return
        new = ast.FunctionDef(name, args, tail, [], None)
        if is_m:
            # methods of the same name in subclasses must not override the helper
            new.name = name + '_' + cls.name.lower()
            call = ast.Call(ast.Attribute(N('self'), new.name, ast.Load()), [N(x) for x in need], [])
        elif cls is not None:
            return
        else:
            call = ast.Call(N(name), [N(x) for x in need], [])
        fn.body = head + [ast.Return(call)]
        self.k += 1
        return new


class HelperLate(Helper):
    def cut(self, fn):
        return max(1, len(fn.body) - 2)


class HelperEarly(Helper):
    def cut(self, fn):
        return 2 if isinstance(fn.body[0], ast.Expr) else 1


class LoopBody(Base):
    """moves the body of a top level for loop that only uses self, parameters and its own locals
    into a helper (no break/continue/return in it, nothing assigned that is used afterwards)"""
    def apply(self, fn, info):
        cls, top = info
        if not top or fn.decorator_list or not fn.args.args:
            return
        is_m = cls is not None and fn.args.args[0].arg == 'self'
        if cls is not None and not is_m:
            return
        out = []
        moved = set()
        for b in self.blocks(fn):
            for i, s in enumerate(b):
                if id(s) in moved:
                    continue
                if not isinstance(s, ast.For) or has(
                        ast.Module(s.body, []), ast.Return, ast.Break, ast.Continue, ast.Yield,
                        ast.YieldFrom, ast.Nonlocal, ast.Import, ast.AugAssign,
                        ast.Global, ast.FunctionDef):
                    continue
                if {'super', 'locals'} & names(ast.Module(s.body, [])):
                    continue
                stores = set()
                for q in s.body:
                    stores |= names(q, ast.Store)
                comp = set()
                for n in ast.walk(ast.Module(s.body, [])):
                    if isinstance(n, ast.comprehension):
                        comp |= names(n.target)
                others = set()
                inside = {id(n) for q in s.body for n in ast.walk(q)}
                for n in ast.walk(fn):
                    if isinstance(n, ast.Name) and id(n) not in inside:
                        others.add(n.id)
                if (stores - comp) & others:
                    continue
                # names that are local to fn and read
                loc = {x.arg for x in fn.args.args + fn.args.kwonlyargs}
                loc |= {x.arg for x in (fn.args.vararg, fn.args.kwarg) if x}
                loc |= names(fn, ast.Store)
                need = sorted(x for x in names(ast.Module(s.body, []), ast.Load)
                              if x in loc and x not in stores and x != 'self')
                moved |= {id(n) for q in s.body for n in ast.walk(q)}
                nm = '_each_%s_%d' % (fn.name.strip('_'), len(out))
                if is_m:
                    nm += '_' + cls.name.lower()
                out.append(ast.FunctionDef(nm, ast.arguments(
                    [], [ast.arg(x) for x in (['self'] if is_m else []) + need], None, [], [],
                    None, []), s.body, [], None))
                f = ast.Attribute(N('self'), nm, ast.Load()) if is_m else N(nm)
                s.body = [ast.Expr(ast.Call(f, [N(x) for x in need], []))]
                self.k += 1
        return out


class Keywords(Base):
    """f(a, b) -> f(a, y=b) for the last positional argument of calls of own methods"""
    def apply(self, fn, info):
        cls, _ = info
        if cls is None:
            return
        ms = {f.name: f for f in cls.body if isinstance(f, ast.FunctionDef) and
              not f.decorator_list}
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and \
                    n.func.attr in ms and n.args and \
                    not any(isinstance(a, ast.Starred) for a in n.args):
                f = ms[n.func.attr]
                ps = [a.arg for a in f.args.args][1:]
                if len(n.args) > len(ps):
                    continue
                a = n.args.pop()
                n.keywords.insert(0, ast.keyword(ps[len(n.args)], a))
                self.k += 1


class DictCall(Base):
    def apply(self, fn, info):
        class R(ast.NodeTransformer):
            def visit_Dict(s, n):
                s.generic_visit(n)
                if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and
                                  k.value.isidentifier() for k in n.keys):
                    self.k += 1
                    return ast.Call(N('dict'), [], [ast.keyword(k.value, v)
                                                    for k, v in zip(n.keys, n.values)])
                return n
        R().visit(fn)


class DictSteps(Base):
    """x = {'a': 1, 'b': 2} -> x = {}; x['a'] = 1; x['b'] = 2"""
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Dict) and \
                        s.value.keys and None not in s.value.keys:
                    t = self.fresh('table')
                    d = s.value
                    new = [ast.Assign([N(t, ast.Store())], ast.Dict([], []))]
                    for k, v in zip(d.keys, d.values):
                        new.append(ast.Assign([ast.Subscript(N(t), k, ast.Store())], v))
                    s.value = N(t)
                    b[i:i] = new
                    self.k += 1


class AliasSelf(Base):
    """reads of self.x.y -> through a local alias of self"""
    def apply(self, fn, info):
        cls, top = info
        if cls is None or not top or not fn.args.args or fn.args.args[0].arg != 'self' or \
                has(fn, ast.Lambda):
            return
        if 'super' in names(fn):
            return
        c = 0
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id == 'self':
                n.id = 'me'
                c += 1
        if c:
            k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) \
                else 0
            fn.body.insert(k, ast.Assign([N('me', ast.Store())], N('self')))
            self.k += 1


class NestedHelper(Base):
    """return expr -> def _compute(): return expr; return _compute()"""
    def apply(self, fn, info):
        if has(fn, ast.Yield, ast.YieldFrom) or fn.name == '__init__':
            return
        b = fn.body
        s = b[-1]
        if isinstance(s, ast.Return) and s.value is not None and \
                not isinstance(s.value, (ast.Name, ast.Constant)) and 'super' not in names(s):
            b[-1:] = [ast.FunctionDef('_compute', ast.arguments([], [], None, [], [], None, []),
                                      [ast.Return(s.value)], [], None),
                      ast.Return(ast.Call(N('_compute'), [], []))]
            self.k += 1


class TryElse(Base):
    """try: A; B except E  unchanged; adds pass / no-op statements instead"""
    def apply(self, fn, info):
        for b in self.blocks(fn):
            k = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
            b.insert(k, ast.Assign([N('_unused', ast.Store())], ast.Constant(None)))
            b.append(ast.Pass()) if not ends(b) else None
            self.k += 1


class EnumerateLoop(Base):
    def apply(self, fn, info):
        for n in ast.walk(fn):
            if isinstance(n, ast.For) and not (isinstance(n.iter, ast.Call) and isinstance(
                    n.iter.func, ast.Name) and n.iter.func.id == 'enumerate'):
                n.target = ast.Tuple([N(self.fresh('pos'), ast.Store()), n.target], ast.Store())
                n.iter = ast.Call(N('enumerate'), [n.iter], [])
                self.k += 1


class WhileLoop(Base):
    """for x in y: -> iterator with next()"""
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, ast.For) and not s.orelse:
                    it, = [self.fresh('seq')]
                    s.body.insert(0, ast.Assign([s.target], ast.Subscript(
                        N(it), N(it + '_i'), ast.Load())))
                    s.body.insert(1, ast.AugAssign(N(it + '_i', ast.Store()), ast.Add(),
                                                   ast.Constant(1)))
                    b[i:i + 1] = [
                        ast.Assign([N(it, ast.Store())], ast.Call(N('list'), [s.iter], [])),
                        ast.Assign([N(it + '_i', ast.Store())], ast.Constant(0)),
                        ast.While(ast.Compare(N(it + '_i'), [ast.Lt()], [ast.Call(
                            N('len'), [N(it)], [])]), s.body, [])]
                    self.k += 1


class SwapAssign(Base):
    """swaps adjacent assignments of different local names to call-free expressions"""
    def apply(self, fn, info):
        for b in self.blocks(fn):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and
                       isinstance(x.targets[0], ast.Name) for x in (s, t)) and \
                        not has(s.value, ast.Call) and not has(t.value, ast.Call) and \
                        s.targets[0].id not in names(t) and t.targets[0].id not in names(s):
                    b[i], b[i + 1] = t, s
                    self.k += 1
                    i += 1
                i += 1


class GetDefault(Base):
    """k in d -> d.get(k) style is not safe; any/all with generator -> list"""
    def apply(self, fn, info):
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in ('any', 'all', 'sum', 'max', 'min', 'sorted', 'set', 'tuple',
                                  'list', 'dict') and len(n.args) == 1 and \
                    isinstance(n.args[0], ast.GeneratorExp):
                n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
                self.k += 1


class SumLoop(Base):
    """x = sum/any/all/max([comp]) -> loop (sum and any only)"""
    def apply(self, fn, info):
        for b in self.blocks(fn):
            for i, s in reversed(list(enumerate(b))):
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and \
                        isinstance(s.value.func, ast.Name) and s.value.func.id == 'sum' and \
                        len(s.value.args) == 1 and isinstance(
                            s.value.args[0], (ast.ListComp, ast.GeneratorExp)):
                    c = s.value.args[0]
                    if len(c.generators) != 1 or has(c, ast.Lambda):
                        continue
                    g = c.generators[0]
                    t = self.fresh('total')
                    ren = {x: self.fresh('it_' + x) for x in names(g.target, ast.Store)}
                    if names(g.iter) & set(ren):
                        continue
                    for n in ast.walk(c):
                        if isinstance(n, ast.Name) and n.id in ren:
                            n.id = ren[n.id]
                    body = [ast.AugAssign(N(t, ast.Store()), ast.Add(), c.elt)]
                    for f in reversed(g.ifs):
                        body = [ast.If(f, body, [])]
                    s.value = N(t)
                    b[i:i] = [ast.Assign([N(t, ast.Store())], ast.Constant(0)),
                              ast.For(g.target, g.iter, body, [])]
                    self.k += 1


class SelfLocal(Base):
    """reads of self._x (never written in the function) through a local"""
    def apply(self, fn, info):
        cls, top = info
        if cls is None or not top or not fn.args.args or fn.args.args[0].arg != 'self':
            return
        if fn.name == '__init__' or has(fn, ast.Yield, ast.YieldFrom):
            return
        written = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and
                   isinstance(n.ctx, (ast.Store, ast.Del))}
        calls = {id(n.func) for n in ast.walk(fn) if isinstance(n, ast.Call)}
        for b in [fn.body]:
            for i, s in reversed(list(enumerate(b))):
                if not isinstance(s, (ast.Assign, ast.Return, ast.Expr)) or s.value is None:
                    continue
                v = s.value
                if isinstance(v, ast.Constant):
                    continue
                att = [n for n in ast.walk(v) if isinstance(n, ast.Attribute) and
                       isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and
                       n.value.id == 'self' and id(n) not in calls and n.attr not in written]
                if not att or has(v, ast.Lambda, ast.IfExp, ast.BoolOp) or \
                        sum(isinstance(n, ast.Call) for n in ast.walk(v)) > 1:
                    continue
                n = att[0]
                t = self.fresh('own' + n.attr)
                class R(ast.NodeTransformer):
                    def visit_Attribute(q, m):
                        if m is n:
                            return N(t)
                        q.generic_visit(m)
                        return m
                s.value = R().visit(v)
                b.insert(i, ast.Assign([N(t, ast.Store())],
                                       ast.Attribute(N('self'), n.attr, ast.Load())))
                self.k += 1


KINDS = {k: v for k, v in list(globals().items())
         if isinstance(v, type) and issubclass(v, Base) and v is not Base}


def rewrite(src, tool, rx, modname):
    tree = ast.parse(src)

    def rec(body, prefix, cls, top):
        i = 0
        while i < len(body):
            s = body[i]
            i += 1
            if isinstance(s, ast.ClassDef):
                rec(s.body, prefix + s.name + '.', s, True)
            elif isinstance(s, ast.FunctionDef):
                rec([x for x in ast.walk(s) if isinstance(x, ast.FunctionDef) and x is not s],
                    prefix + s.name + '.', cls, False) if top else None
                if rx.search(prefix + s.name):
                    new = tool.apply(s, (cls, top))
                    if new and top:
                        new = new if isinstance(new, list) else [new]
                        body[i:i] = new
                        i += len(new)
    rec(tree.body, modname + '.', None, True)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + '\n'


def main():
    kind, out = sys.argv[1:3]
    repo = sys.argv[3] if len(sys.argv) > 3 else '/repo'
    rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else '')
    shutil.copytree(repo + '/kerncraft', out + '/kerncraft', dirs_exist_ok=True,
                    ignore=shutil.ignore_patterns('__pycache__', '*.so'))
    tool = KINDS[kind]()
    for d, _, fs in os.walk(out + '/kerncraft'):
        for f in fs:
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            src = open(p).read()
            k = tool.k
            mod = os.path.relpath(p, out + '/kerncraft')[:-3].replace('/', '.')
            new = rewrite(src, tool, rx, mod)
            if tool.k != k:
                compile(new, p, 'exec')
                open(p, 'w').write(new)
    print(kind, tool.k, 'places')


if __name__ == '__main__':
    main()
