"""Program index: modules, classes, functions, imports of the analysed package (AST only)."""
import ast
import builtins
import os
import hashlib

from ksa.normal import normalize


BUILTINS = set(dir(builtins))


class AnalysisBroken(Exception):
    """An anchor the checker relies on is gone: the run has no verdict."""


class FuncInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self._small = None
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, 'name', '<lambda>')
        q = [module.name]
        if cls is not None:
            q.append(cls.name)
        if parent is not None:
            q = [parent.qual, '<locals>']
        q.append(self.name)
        self.qual = '.'.join(q)
        self.decorators = []
        for d in getattr(node, 'decorator_list', []):
            t = d.func if isinstance(d, ast.Call) else d
            self.decorators.append(ast.unparse(t))
        self.is_generator = False
        if not isinstance(node, ast.Lambda):
            self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                                    for n in walk_no_nested(node))

    def small(self):
        """a few plain statements: no loops, handlers or generators"""
        if self._small is None:
            ns = list(ast.walk(self.node))
            self._small = sum(isinstance(n, ast.stmt) for n in ns) <= 6 and not any(
                isinstance(n, (ast.For, ast.While, ast.Try, ast.With, ast.FunctionDef, ast.ClassDef,
                               ast.Yield, ast.YieldFrom, ast.comprehension)) and n is not self.node
                or isinstance(n, ast.Call) and (
                    isinstance(n.func, ast.Name) and n.func.id not in BUILTINS or
                    isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and
                    n.func.value.id in ('self', 'cls', 'super')) for n in ns) \
                and set(self.decorators) <= {'staticmethod', 'classmethod'}
        return self._small

    def deco(self, *names):
        return any(d.split('.')[-1] in names for d in self.decorators)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def all_params(self):
        a = self.node.args
        r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            r.append(a.vararg.arg)
        if a.kwarg:
            r.append(a.kwarg.arg)
        return r

    def __repr__(self):
        return '<F %s>' % self.qual


def walk_no_nested(node):
    """Walk a function body without entering nested functions/classes/lambdas."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = module.name + '.' + node.name
        self.methods = {}
        self.attrs = {}      # class-level name -> expr node
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(st, module, cls=self)
                self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and \
                    isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value

    def __repr__(self):
        return '<C %s>' % self.qual


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = normalize(ast.parse(src, path))
        self.functions = {}
        self.classes = {}
        self.imports = {}     # local name -> dotted target
        self.assigns = {}     # module level name -> list of value nodes
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self._scan(self.tree.body)

    def _resolve_from(self, level, mod):
        if level == 0:
            return mod
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        if mod:
            parts.append(mod)
        return '.'.join(parts)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FuncInfo(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st, self)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self.add_import(st, self.imports)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(st.value)
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and \
                            len(t.elts) == len(st.value.elts):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                self.assigns.setdefault(a.id, []).append(b)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.orelse)
                self._scan(st.finalbody)

    def add_import(self, st, table):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    table[a.asname] = a.name
                else:
                    table[a.name.split('.')[0]] = a.name.split('.')[0]
        else:
            base = self._resolve_from(st.level, st.module)
            for a in st.names:
                table[a.asname or a.name] = base + '.' + a.name


class Program:
    def __init__(self, root, package='kerncraft'):
        self.root = root
        self.package = package
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken('package directory %s not found' % base)
        for dp, dn, fn in sorted(os.walk(base)):
            dn[:] = sorted(d for d in dn if d not in ('__pycache__',))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-len('.__init__')]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    self.modules[name] = Module(name, rel, src)
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (rel, e))
        self.parents = {}
        self.mentions = {}       # name -> number of places it is read at
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                x = n.attr if isinstance(n, ast.Attribute) else \
                    n.id if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) else None
                if x is not None:
                    self.mentions[x] = self.mentions.get(x, 0) + 1

    def fragment(self, fi):
        """a few plain statements used in one place only: a part of its caller"""
        return fi.small() and self.mentions.get(fi.name, 0) <= 1

    # ---- lookup ----
    def lookup(self, dotted, _seen=None):
        """Resolve dotted name to Module / ClassInfo / FuncInfo / ('const', node, module) or None."""
        _seen = _seen or set()
        if dotted in _seen:
            return None
        _seen.add(dotted)
        if dotted in self.modules:
            return self.modules[dotted]
        if '.' not in dotted:
            return None
        head, tail = dotted.rsplit('.', 1)
        h = self.lookup(head, _seen)
        if isinstance(h, Module):
            return self.module_member(h, tail, _seen)
        if isinstance(h, ClassInfo):
            if tail in h.methods:
                return h.methods[tail]
        return None

    def module_member(self, m, name, _seen=None):
        if name in m.functions:
            return m.functions[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.imports:
            r = self.lookup(m.imports[name], _seen)
            if r is not None:
                return r
            return ('ext', m.imports[name])
        if name in m.assigns:
            return ('const', m.assigns[name], m)
        sub = m.name + '.' + name
        if sub in self.modules:
            return self.modules[sub]
        return None

    def cls(self, name):
        """Find a class by bare name anywhere in the package."""
        r = [m.classes[name] for m in self.modules.values() if name in m.classes]
        if not r:
            raise AnalysisBroken('class %s not found in package' % name)
        return r[0]

    def func(self, name, module=None):
        r = [m.functions[name] for m in self.modules.values()
             if name in m.functions and (module is None or m.name.endswith(module))]
        if not r:
            raise AnalysisBroken('function %s not found in package' % name)
        return r[0]

    def method(self, cname, mname):
        c = self.cls(cname)
        f = self.find_method(c, mname)
        if f is None:
            raise AnalysisBroken('method %s.%s not found' % (cname, mname))
        return f

    def bases(self, c):
        r = []
        for b in c.node.bases:
            d = ast.unparse(b)
            x = self.resolve_in_module(c.module, d)
            r.append(x if isinstance(x, ClassInfo) else d)
        return r

    def resolve_in_module(self, m, dotted):
        parts = dotted.split('.')
        cur = self.module_member(m, parts[0])
        for p in parts[1:]:
            if isinstance(cur, Module):
                cur = self.module_member(cur, p)
            elif isinstance(cur, ClassInfo):
                cur = self.find_method(cur, p)
            elif isinstance(cur, tuple) and cur[0] == 'ext':
                cur = ('ext', cur[1] + '.' + p)
            else:
                return None
        return cur

    def mro(self, c):
        out = []

        def go(k):
            if isinstance(k, ClassInfo):
                if k in out:
                    out.remove(k)
                out.append(k)
                for b in self.bases(k):
                    go(b)
        go(c)
        return out

    def ext_bases(self, c):
        out = []
        for k in self.mro(c):
            for b in self.bases(k):
                if not isinstance(b, ClassInfo):
                    out.append(b)
        return out

    def find_method(self, c, name, after=None):
        ms = self.mro(c)
        if after is not None:
            ms = ms[ms.index(after) + 1:] if after in ms else []
        for k in ms:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k.attrs[name], k
        return None

    def subclasses(self, c):
        return [k for m in self.modules.values() for k in m.classes.values()
                if c in self.mro(k)]

    def all_functions(self):
        for m in self.modules.values():
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()
