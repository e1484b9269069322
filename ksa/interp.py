"""Abstract interpreter over the Python AST.

Joins at merge points (partitioned by the client's typestate, as in property simulation), inlines
calls to functions of the analysed package, widens loops, models the builtin containers, and keeps
for every value the alternatives it may stand for and the inputs it depends on (data and control).
Nothing is executed and no solver is involved.
"""
import ast
import string as _string
from . import terms
from .terms import T, V, C, mk, const, TOP, NONE, TRUE, FALSE, E, joinall, walk_terms
from .program import (Program, Module, ClassInfo, FuncInfo, AnalysisBroken, walk_no_nested)

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update',
            'setdefault', 'add', 'discard', 'popitem', 'difference_update',
            'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__',
            'appendleft', 'extendleft', 'popleft', 'rotate', 'move_to_end', '__ior__', '__iadd__'}
SHALLOW = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'dict',
           'collections.OrderedDict', 'copy.copy', 'iter'}
IMPURE = {'tempfile.mkdtemp', 'tempfile.mkstemp', 'tempfile.NamedTemporaryFile',
          'tempfile.TemporaryDirectory', 'time.time', 'datetime.datetime.now', 'input',
          'random.uniform', 'random.random', 'tempfile.mktemp'}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
EXC_PARENTS = {
    'FileNotFoundError': 'OSError', 'PermissionError': 'OSError', 'FileExistsError': 'OSError',
    'BlockingIOError': 'OSError', 'IOError': 'OSError', 'OSError': 'Exception',
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'ArithmeticError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'RecursionError': 'RuntimeError', 'RuntimeError': 'Exception', 'ValueError': 'Exception',
    'UnicodeDecodeError': 'ValueError', 'TypeError': 'Exception', 'AttributeError': 'Exception',
    'AssertionError': 'Exception', 'EOFError': 'Exception', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'StopIteration': 'Exception', 'NameError': 'Exception',
    'subprocess.CalledProcessError': 'subprocess.SubprocessError',
    'subprocess.TimeoutExpired': 'subprocess.SubprocessError',
    'subprocess.SubprocessError': 'Exception', 'pickle.UnpicklingError': 'Exception',
    'SystemExit': 'BaseException', 'KeyboardInterrupt': 'BaseException',
    'GeneratorExit': 'BaseException', 'Exception': 'BaseException',
    'argparse.ArgumentError': 'Exception', 'argparse.ArgumentTypeError': 'Exception',
    'Warning': 'Exception', 'UserWarning': 'Warning',
}


class HObj:
    __slots__ = ('kind', 'cls', 'slots', 'segs', 'other', 'depth', 'root', 'site', 'unordered')

    def __init__(self, kind, cls=None, slots=None, segs=(), other=None, depth=0, root=None,
                 site=None, unordered=False):
        self.kind = kind
        self.cls = cls
        self.slots = slots if slots is not None else {}
        self.segs = segs
        self.other = other
        self.depth = depth
        self.root = root
        self.site = site
        self.unordered = unordered

    def copy(self):
        return HObj(self.kind, self.cls, dict(self.slots), self.segs, self.other, self.depth,
                    self.root, self.site, self.unordered)

    def key(self):
        return (self.kind, tuple(sorted(((str(k), str(type(k))), v) for k, v in ())),)

    def __eq__(self, o):
        return (self.kind == o.kind and self.cls is o.cls and self.slots == o.slots and
                self.segs == o.segs and self.other == o.other and
                self.unordered == o.unordered)

    __hash__ = None


class Seg:
    """Segment of a sequence: one element, an optional one, or any number of them."""
    __slots__ = ('kind', 'v', 'src', 'site')

    def __init__(self, kind, v, src=None, site=None):
        self.kind = kind
        self.v = v
        self.src = src
        self.site = site

    def __eq__(self, o):
        return (isinstance(o, Seg) and self.kind == o.kind and self.v == o.v and
                self.src == o.src and self.site == o.site)

    def __hash__(self):
        return hash((self.kind, self.v, self.site))

    def __repr__(self):
        return '%s:%r%s' % (self.kind, self.v, '' if self.src is None else
                            '<-' + terms.show(self.src))


class State:
    __slots__ = ('env', 'stack', 'heap', 'sym', 'ts', 'facts', 'pc', 'loops', 'pending')

    def __init__(self):
        self.env = {}
        self.stack = ()
        self.heap = {}
        self.sym = {}
        self.ts = {}
        self.facts = {}
        self.pc = E
        self.loops = ()
        self.pending = ()

    def with_(self, **kw):
        s = State.__new__(State)
        for a in State.__slots__:
            setattr(s, a, kw[a] if a in kw else getattr(self, a))
        return s

    def setvar(self, n, v):
        e = dict(self.env)
        e[n] = v
        return self.with_(env=e)

    def setts(self, k, v):
        t = dict(self.ts)
        if v is None:
            t.pop(k, None)
        else:
            t[k] = v
        return self.with_(ts=t)

    def sethobj(self, oid, h):
        e = dict(self.heap)
        e[oid] = h
        return self.with_(heap=e)

    def fact(self, t, val):
        if t in self.facts and self.facts[t] == val:
            return self
        f = dict(self.facts)
        f[t] = val
        return self.with_(facts=f)


class Event:
    __slots__ = ('kind', 'node', 'func', 'data', 'st', 'chain')

    def __init__(self, kind, node, func, data, st, chain):
        self.kind = kind
        self.node = node
        self.func = func
        self.data = data
        self.st = st
        self.chain = chain

    @property
    def where(self):
        m = self.func.module.path if self.func is not None else '?'
        return '%s:%s' % (m, getattr(self.node, 'lineno', '?'))

    @property
    def fq(self):
        return self.func.qual if self.func is not None else '?'

    def __repr__(self):
        return '<%s %s %s %s>' % (self.kind, self.where, self.fq, self.data)


class Raised:
    __slots__ = ('st', 'exc', 'node', 'implicit', 'func', 'cause')

    def __init__(self, st, exc, node, implicit, func):
        self.st = st
        self.exc = exc        # exception class names (set) or None = anything
        self.node = node
        self.implicit = implicit
        self.func = func


class Out:
    __slots__ = ('next', 'ret', 'brk', 'cont')

    def __init__(self):
        self.next = []
        self.ret = []
        self.brk = []
        self.cont = []

    def add(self, o):
        self.ret += o.ret
        self.brk += o.brk
        self.cont += o.cont


_mentions = {}


def mentions(t, x):
    r = _mentions.get((t, x))
    if r is None:
        r = _mentions[t, x] = any(y is x for y in walk_terms(t))
    return r


def drop_facts(st, v):
    """Forget what was known about the element of the previous iteration."""
    el = set()
    for t in v.alts:
        for y in ([z for a in t.args[0] for z in a] if t.op == 'tup' else [t]):
            if y.op in ('elem', 'idx'):
                el.add(y)
    if not el:
        return st
    gone = [t for t in st.facts if isinstance(t, T) and any(mentions(t, x) for x in el)]
    if not gone:
        return st
    return st.with_(facts={t: val for t, val in st.facts.items() if t not in gone})


class Client:
    """Override points of an analysis."""
    inline_small = False      # also fragments (Program.fragment), whatever inline() says
    max_depth = 16
    flag_partition = False     # keep states apart that differ in boolean locals / results
    keep_ratios = False        # ratios of literals stay symbolic
    keep_tables = False        # subscripts of literal tables stay symbolic
    strict_none = False        # indexing or iterating over None surely raises
    unroll = 0                 # while loops whose condition is decided are unrolled so often
    recursion = 1              # a function may be entered so often before calls become opaque

    def partition(self, st):
        return frozenset(st.ts.items())

    def inline(self, fi, st, args):
        return True

    def call(self, it, st, node, name, fn, args, kwargs):
        """Return None (default handling) or a list of (state, V)."""
        return None

    def attr(self, it, st, base, name):
        return None

    def no_implicit(self, name):
        """Calls whose exceptional outcome the client raises itself."""
        return False

    def falsy(self, it, st, node, v):
        """The state in which the value v was found to be false."""
        return st

    def decide(self, it, st, cond):
        return None

    def raises(self, it, st, node, exc, implicit):
        pass

    def on_event(self, ev):
        return True


class Interp:
    def __init__(self, program, client=None):
        self.p = program
        self.c = client or Client()
        self.events = []
        self.sinks = [[]]
        self.fn_table = {}
        self.fstack = []          # FuncInfo inlining stack
        self.cstack = []          # call nodes
        self.loopvars = {}
        self.implicit = 0
        self.unwinding = 0
        self.yield_hooks = {}
        self.static_cache = {}
        self.visited = set()      # functions analysed
        self.unresolved = {}
        self.ncalls = 0
        self.nstmts = set()
        self.budget = 3000000

    # ------------------------------------------------------------------ utilities
    @property
    def fn(self):
        return self.fstack[-1] if self.fstack else None

    def event(self, kind, node, st, **data):
        ev = Event(kind, node, self.fn, data, st, tuple(self.cstack))
        if self.c.on_event(ev) is not False:
            self.events.append(ev)
        return ev

    def site(self, node, extra=None):
        chain = tuple((f.qual, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))
                      for f, n in zip(self.fstack, self.cstack[1:] + [None]) if n is not None)
        return (self.fn.qual if self.fn else '', getattr(node, 'lineno', 0),
                getattr(node, 'col_offset', 0), type(node).__name__, extra, hash(chain))

    def alloc(self, st, node, h, extra=None):
        oid = self.site(node, (h.kind, extra))
        h.depth = len(st.loops)
        h.site = oid
        st = st.sethobj(oid, h)
        return st, V(mk('obj', oid))

    def hobj(self, st, oid):
        return st.heap.get(oid)

    def new_list(self, st, node, segs, kind='list', extra=None, unordered=False):
        return self.alloc(st, node, HObj(kind, segs=tuple(segs), unordered=unordered), extra)

    # ---- join of states
    def join_heap(self, a, b):
        if a is b:
            return a
        r = dict(a)
        for k, h in b.items():
            if k not in r:
                r[k] = h
            elif r[k] is not h:
                r[k] = self.join_hobj(r[k], h, k)
        return r

    def lazy(self, oid, h, key):
        if h.kind == 'inst' and h.root is not None and isinstance(key, str):
            return V(mk('attr', mk('obj', oid), key), frozenset([(h.root, key)]))
        return None

    def join_hobj(self, x, y, oid):
        if x is y or x == y:
            return x
        n = x.copy()
        for k in set(x.slots) | set(y.slots):
            if k in x.slots and k in y.slots:
                (v1, m1), (v2, m2) = x.slots[k], y.slots[k]
                n.slots[k] = (v1.join(v2), m1 and m2)
            else:
                v, m = x.slots.get(k) or y.slots.get(k)
                lz = self.lazy(oid, x, k)
                n.slots[k] = (v.join(lz), True) if lz is not None else (v, False)
        n.segs = self.join_segs(x.segs, y.segs)
        if y.other is not None:
            n.other = y.other if x.other is None else (x.other[0].join(y.other[0]),
                                                       x.other[1].join(y.other[1]))
        n.unordered = x.unordered or y.unordered
        return n

    def join_segs(self, a, b):
        if a == b:
            return a
        sa = [(s.site, s.kind) for s in a]
        sb = [(s.site, s.kind) for s in b]
        out = []
        i = j = 0
        n = 0
        while i < len(a) or j < len(b):
            n += 1
            if i < len(a) and j < len(b) and a[i].site == b[j].site:
                k = a[i].kind if a[i].kind == b[j].kind else \
                    ('many' if 'many' in (a[i].kind, b[j].kind) else 'opt')
                src = a[i].src if a[i].src == b[j].src else (a[i].src or b[j].src)
                out.append(Seg(k, a[i].v.join(b[j].v), src, a[i].site))
                i += 1
                j += 1
            elif i < len(a) and (j >= len(b) or
                                 a[i].site not in [x.site for x in b[j:]]):
                s = a[i]
                out.append(Seg('many' if s.kind == 'many' else 'opt', s.v, s.src, s.site))
                i += 1
            elif j < len(b):
                s = b[j]
                out.append(Seg('many' if s.kind == 'many' else 'opt', s.v, s.src, s.site))
                j += 1
            else:
                break
        if len(out) > 60:
            v = joinall(s.v for s in out)
            return (Seg('many', v, None, 'collapsed'),)
        return tuple(out)

    def join2(self, a, b):
        if a is b:
            return a
        env = a.env
        if a.env is not b.env:
            env = dict(a.env)
            for k, v in b.env.items():
                if k in env:
                    if env[k] is not v:
                        env[k] = env[k].join(v)
                else:
                    env[k] = v
        stack = a.stack
        if a.stack is not b.stack and a.stack != b.stack:
            ns = []
            for (e1, p1), (e2, p2) in zip(a.stack, b.stack):
                if e1 is e2:
                    ns.append((e1, p1))
                else:
                    e = dict(e1)
                    for k, v in e2.items():
                        e[k] = e[k].join(v) if k in e else v
                    ns.append((e, p1))
            stack = tuple(ns)
        sym = a.sym
        if a.sym is not b.sym:
            sym = dict(a.sym)
            for k, v in b.sym.items():
                if k in sym:
                    sym[k] = sym[k].join(v)
                else:
                    sym[k] = v.join(self.sym_default(k))
            for k, v in a.sym.items():
                if k not in b.sym:
                    sym[k] = v.join(self.sym_default(k))
        facts = a.facts
        if a.facts is not b.facts:
            facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        return a.with_(env=env, stack=stack, heap=self.join_heap(a.heap, b.heap), sym=sym,
                       facts=facts, pc=a.pc & b.pc if a.pc != b.pc else a.pc,
                       pending=a.pending if a.pending == b.pending else a.pending)

    def sym_default(self, k):
        t, kind, key = k
        if kind == 'taint':
            return V(TOP)
        return V(mk(kind, t, key))

    def key(self, st):
        if self.c.flag_partition:
            fl = tuple(sorted((k, v.const()) for k, v in st.env.items()
                              if v.is_const() and isinstance(v.const(), bool)))
            return (self.c.partition(st), st.pending, fl)
        return (self.c.partition(st), st.pending)

    def merge(self, sts):
        if len(sts) <= 1:
            return list(sts)
        d = {}
        for s in sts:
            k = self.key(s)
            d[k] = self.join2(d[k], s) if k in d else s
        return list(d.values())

    def merge_v(self, svs):
        if len(svs) <= 1:
            return list(svs)
        d = {}
        for s, v in svs:
            k = self.key(s)
            if self.c.flag_partition and v.is_const() and isinstance(v.const(), bool):
                k = (k, v.const())
            if k in d:
                s0, v0 = d[k]
                d[k] = (self.join2(s0, s), v0.join(v))
            else:
                d[k] = (s, v)
        return list(d.values())

    # ---- deps
    def base_chain(self, t):
        """A symbolic term and the objects it is a part of."""
        out, todo = [], [t]
        while todo and len(out) < 40:
            x = todo.pop()
            if x in out or not isinstance(x, T):
                continue
            out.append(x)
            if x.op in ('attr', 'item'):
                todo.append(x.args[0])
            elif x.op in ('elem', 'mcall', 'rest', 'keys'):
                a = x.args[0]
                todo += sorted(a) if isinstance(a, frozenset) else [a]
        return out

    def taint(self, st, b, deps, unknown=False):
        """Something inside the symbolic object b was changed to a value with these deps."""
        if not deps:
            return st
        sym = None
        for t in b.alts:
            if t.op in ('obj', 'const', 'cls', 'func'):
                continue
            for r in self.base_chain(t):
                if r.op in ('obj', 'ext', 'mod', 'const'):
                    continue
                k = (r, 'taint', '*' if unknown and r is t else None)
                cur = (sym or st.sym).get(k)
                if cur is not None and deps <= cur.deps:
                    continue
                sym = dict(st.sym) if sym is None else sym
                sym[k] = V(TOP, deps if cur is None else cur.deps | deps)
        return st if sym is None else st.with_(sym=sym)

    def deep_deps(self, st, v, seen=None):
        seen = seen if seen is not None else set()
        d = set(v.deps)
        todo = [v]
        while todo:
            x = todo.pop()
            d |= x.deps
            for t in x.alts:
                if t.op == 'obj':
                    oid = t.args[0]
                    if oid in seen:
                        continue
                    seen.add(oid)
                    h = st.heap.get(oid)
                    if h is None:
                        continue
                    if h.root is not None:
                        d.add((h.root, '*'))
                        if h.kind == 'inst':
                            continue
                    for vv, _ in h.slots.values():
                        todo.append(vv)
                    for s in h.segs:
                        todo.append(s.v)
                    if h.other:
                        todo += list(h.other)
                elif t.op in ('tup',):
                    for a in t.args[0]:
                        todo.append(V(a))
                elif st.sym and t.op in ('call', 'mcall', 'attr', 'item', 'elem', 'param',
                                         'loopvar', 'phi', 'default'):
                    x = st.sym.get((t, 'taint', None))
                    if x is not None:
                        d |= x.deps
                    for r in self.base_chain(t):
                        x = st.sym.get((r, 'taint', '*'))
                        if x is not None:
                            d |= x.deps
        return frozenset(d)

    # ---- exceptions
    def raise_(self, st, exc, node, implicit=False):
        self.c.raises(self, st, node, exc, implicit)
        self.sinks[-1].append(Raised(st, exc, node, implicit, self.fn))

    def may_raise(self, st, node):
        if self.implicit:
            self.sinks[-1].append(Raised(st, None, node, True, self.fn))

    def exc_names(self, node):
        """Names of the exception classes an expression (handler type / raise arg) denotes."""
        if node is None:
            return None
        if isinstance(node, ast.Tuple):
            r = set()
            for e in node.elts:
                x = self.exc_names(e)
                if x:
                    r |= x
            return r
        if isinstance(node, ast.Call):
            return self.exc_names(node.func)
        d = ast.unparse(node)
        r = self.resolve_dotted(d)
        if isinstance(r, ClassInfo):
            return {r.qual}
        if isinstance(r, tuple) and r[0] == 'ext':
            return {r[1]}
        return {d}

    def resolve_dotted(self, d):
        m = self.fn.module if self.fn else None
        if m is None:
            return None
        return self.p.resolve_in_module(m, d)

    def exc_matches(self, raised, handler):
        """'yes', 'no' or 'maybe'."""
        if handler is None or 'BaseException' in handler:
            return 'yes'
        if raised is None:
            return 'maybe'
        res = set()
        for r in raised:
            x = r
            ok = False
            seen = 0
            while x is not None and seen < 20:
                if x in handler or x.split('.')[-1] in handler or \
                        (x in ('OSError', 'IOError') and ('OSError' in handler or
                                                          'IOError' in handler)):
                    ok = True
                    break
                ci = self.p.lookup(x) if '.' in x else None
                if isinstance(ci, ClassInfo):
                    bs = self.p.bases(ci)
                    b = bs[0] if bs else None
                    x = b.qual if isinstance(b, ClassInfo) else b
                else:
                    x = EXC_PARENTS.get(x)
                seen += 1
            res.add(ok)
        if res == {True}:
            return 'yes'
        if res == {False}:
            if any(r not in EXC_PARENTS and r.split('.')[-1] not in EXC_PARENTS and
                   'Exception' in handler for r in raised):
                return 'yes'
            return 'no'
        return 'maybe'

    # ------------------------------------------------------------------ statements
    def block(self, stmts, sts):
        out = Out()
        cur = sts
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                o = self.stmt(s, st)
                out.add(o)
                nxt += o.next
            cur = self.merge(nxt)
        out.next = cur
        return out

    def stmt(self, s, st):
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisBroken('analysis budget exhausted in %s' % self.fn)
        self.nstmts.add((self.fn.qual if self.fn else '', s.lineno))
        m = getattr(self, 's_' + type(s).__name__, None)
        o = Out()
        if m is None:
            o.next = [st]
            return o
        return m(s, st)

    def s_Expr(self, s, st):
        o = Out()
        o.next = self.merge([x for x, _ in self.ev(s.value, st)])
        return o

    def s_Pass(self, s, st):
        o = Out()
        o.next = [st]
        return o

    def s_Assign(self, s, st):
        o = Out()
        res = self.merge_v(self.ev(s.value, st))
        for st1, v in res:
            sts = [st1]
            for t in s.targets:
                sts = [x for y in sts for x in self.assign(t, v, y, s)]
            o.next += sts
        return o

    def s_AnnAssign(self, s, st):
        o = Out()
        if s.value is None:
            o.next = [st]
            return o
        for st1, v in self.ev(s.value, st):
            o.next += self.assign(s.target, v, st1, s)
        return o

    def s_AugAssign(self, s, st):
        o = Out()
        load = ast.copy_location(_as_load(s.target), s.target)
        for st1, (a, b) in self.evs([load, s.value], st):
            # in-place on lists / sets mutates
            objs = [t for t in a.alts if t.op == 'obj']
            done = False
            if objs and isinstance(s.op, (ast.Add, ast.BitOr)):
                h = st1.heap.get(objs[0].args[0])
                if h is not None and h.kind in ('list', 'set', 'dict') and len(a.alts) == 1:
                    st1 = self.event('mutate', s, st1, target=a, how='+=', value=b).st
                    segs = self.iter_segs(st1, b, s)
                    for sg in segs:
                        st1 = self.add_seg(st1, objs[0].args[0], sg, s)
                    v = a
                    done = True
            if not done:
                v = self.binop(st1, s.op, a, b, s)
                if self.mutable_sym(a) and isinstance(s.op, (ast.Add, ast.BitOr)):
                    st1 = self.event('augassign', s, st1, target=a, how='+=', value=b).st
            o.next += self.assign(s.target, v, st1, s)
        return o

    def mutable_sym(self, v):
        return any(t.op in ('attr', 'item', 'call', 'mcall', 'elem', 'param') for t in v.alts)

    def s_Return(self, s, st):
        o = Out()
        if s.value is None:
            o.ret = [(st, V(NONE, st.pc))]
        else:
            o.ret = [(x, v.dep(x.pc)) for x, v in self.ev(s.value, st)]
        return o

    def s_Break(self, s, st):
        o = Out()
        o.brk = [st]
        return o

    def s_Continue(self, s, st):
        o = Out()
        o.cont = [st]
        return o

    def s_Raise(self, s, st):
        o = Out()
        if s.exc is None:
            names = None
            v = st.env.get('%exc')
            if v is not None and v.is_const():
                names = set(v.const())
            self.raise_(st, names, s, False)
            return o
        for x, v in self.ev(s.exc, st):
            names = self.raise_names(s.exc, v)
            self.raise_(x, names, s, False)
        return o

    def raise_names(self, node, v):
        r = set()
        for t in v.alts:
            if t.op == 'ext':
                r.add(t.args[0])
            elif t.op == 'cls':
                r.add(t.args[0].qual)
            elif t.op == 'call':
                r.add(t.args[0])
            elif t.op == 'obj':
                h = None
                r.add('Exception')
            elif t.op == 'excv':
                if t.args[0] is None:
                    return None
                r |= set(t.args[0])
            else:
                return None
        return r or None

    def s_Assert(self, s, st):
        o = Out()
        tr, fa = self.branch(s.test, st)
        for f in fa:
            if s.msg is not None:
                pass
            self.raise_(f, {'AssertionError'}, s, False)
        o.next = self.merge(tr)
        return o

    def s_Delete(self, s, st):
        o = Out()
        sts = [st]
        for t in s.targets:
            nx = []
            for x in sts:
                if isinstance(t, ast.Name):
                    e = dict(x.env)
                    e.pop(t.id, None)
                    nx.append(x.with_(env=e))
                elif isinstance(t, ast.Subscript):
                    for y, (b, k) in self.evs([t.value, t.slice], x):
                        y = self.event('mutate', s, y, target=b, how='del', key=k).st
                        kc = k.const(None)
                        for oid in b.objs():
                            h = y.heap.get(oid)
                            if h is not None and kc is not None and kc in h.slots:
                                n = h.copy()
                                n.slots.pop(kc)
                                y = y.sethobj(oid, n)
                        nx.append(y)
                elif isinstance(t, ast.Attribute):
                    for y, b in self.ev(t.value, x):
                        y = self.event('mutate', s, y, target=b, how='delattr', key=C(t.attr)).st
                        nx.append(y)
                else:
                    nx.append(x)
            sts = nx
        o.next = sts
        return o

    def s_If(self, s, st):
        o = Out()
        pc0 = st.pc
        tr, fa = self.branch(s.test, st)
        ob = self.block(s.body, self.merge(tr)) if tr else Out()
        oe = self.block(s.orelse, self.merge(fa)) if fa else Out()
        o.add(ob)
        o.add(oe)
        tn, fnx = ob.next, oe.next
        if tn and fnx:
            o.next = self.merge([x.with_(pc=pc0) for x in tn] + [x.with_(pc=pc0) for x in fnx])
        else:
            live = tn or fnx
            dead = oe if tn else ob
            had = fa if tn else tr
            if had and not (dead.ret or dead.brk or dead.cont):
                # other side only raises
                live = [x.with_(pc=pc0) for x in live]
            elif not had:
                live = [x.with_(pc=pc0) for x in live]
            o.next = self.merge(live)
        return o

    def s_Match(self, s, st):
        # desugar to an if chain over value/or/wildcard patterns
        name = '%%m%d' % s.lineno
        tests = []
        for c in s.cases:
            t = self.pattern_test(name, c.pattern)
            if c.guard is not None:
                t = ast.BoolOp(ast.And(), [t, c.guard]) if t is not None else c.guard
            tests.append((t, c.body))
        node = []
        for t, body in reversed(tests):
            if t is None:
                node = body
            else:
                n = ast.If(test=t, body=body, orelse=node)
                ast.copy_location(n, s)
                ast.fix_missing_locations(n)
                node = [n]
        o = Out()
        for x, v in self.ev(s.subject, st):
            r = self.block(node, [x.setvar(name, v)])
            o.add(r)
            o.next += r.next
        return o

    def pattern_test(self, name, p):
        sub = ast.Name(name, ast.Load())
        if isinstance(p, ast.MatchValue):
            return ast.Compare(sub, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(sub, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(ast.Or(), [self.pattern_test(name, q) for q in p.patterns])
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return ast.Call(ast.Name('isinstance', ast.Load()), [sub, p.cls], [])
        return None

    def s_FunctionDef(self, s, st):
        fi = self.nested_fn(s)
        o = Out()
        o.next = [st.setvar(s.name, self.closure(fi, st))]
        return o

    s_AsyncFunctionDef = s_FunctionDef

    def nested_fn(self, node):
        k = id(node)
        if k not in self.fn_table:
            self.fn_table[k] = FuncInfo(node, self.fn.module, cls=None, parent=self.fn)
        return self.fn_table[k]

    def closure(self, fi, st):
        key = ('clo', fi.qual, fi.node.lineno, fi.node.col_offset,
               self.site(fi.node)[-1])
        self.fn_table[key] = (fi, st.env)
        return V(mk('closure', key))

    def s_Import(self, s, st):
        table = {}
        self.fn.module.add_import(s, table) if self.fn else None
        for n, target in table.items():
            st = st.setvar(n, self.dotted_value(target))
        o = Out()
        o.next = [st]
        return o

    s_ImportFrom = s_Import

    def dotted_value(self, target):
        r = self.p.lookup(target)
        if isinstance(r, Module):
            return V(mk('mod', r.name))
        if isinstance(r, ClassInfo):
            return V(mk('cls', r))
        if isinstance(r, FuncInfo):
            return V(mk('func', r))
        return V(mk('ext', target))

    def s_Global(self, s, st):
        o = Out()
        o.next = [st]
        return o

    s_Nonlocal = s_Global

    # ---- loops
    def s_For(self, s, st):
        o = Out()
        for x, itv in self.merge_v(self.ev(s.iter, st)):
            if self.c.strict_none and itv.one is NONE:
                self.raise_(x, {'TypeError'}, s.iter, False)
                continue
            r = self.for_loop(s, x, itv, s.target, s.body, s.orelse)
            o.add(r)
            o.next += r.next
        o.next = self.merge(o.next)
        return o

    def static_items(self, st, v):
        """Exact list of elements if statically known, else None."""
        t = v.one
        if t is None:
            return None
        if t.op == 'tup':
            return [V(a, v.deps) for a in t.args[0]]
        if t.op == 'const':
            c = t.args[1]
            if isinstance(c, tuple) and len(c) <= 32:
                return [C(x, v.deps) for x in c]
            if isinstance(c, str) and len(c) <= 8:
                return [C(x, v.deps) for x in c]
            return None
        if t.op == 'obj':
            h = st.heap.get(t.args[0])
            if h is None or h.root is not None:
                return None
            if h.kind in ('list', 'set') and h.other is None and len(h.segs) <= 32 and \
                    all(g.kind == 'one' for g in h.segs):
                return [g.v.dep(v.deps) for g in h.segs]
            if h.kind == 'dict' and h.other is None and len(h.slots) <= 32 and \
                    all(m for _, m in h.slots.values()) and \
                    all(not isinstance(k, T) for k in h.slots):
                return [C(k, v.deps) for k in h.slots]
        if t.op == 'call' and t.args[0] == 'range':
            a = [next(iter(x)) if len(x) == 1 else None for x in t.args[1]]
            if all(x is not None and x.op == 'const' and isinstance(x.args[1], int) for x in a):
                try:
                    rr = range(*[x.args[1] for x in a])
                except (TypeError, ValueError):
                    return None
                if len(rr) <= 16:
                    return [C(i, v.deps) for i in rr]
        return None

    def iter_segs(self, st, v, node):
        """Segments obtained by iterating v."""
        out = []
        multi = len(v.alts) > 1
        for t in sorted(v.alts):
            segs = []
            if t.op == 'tup':
                segs = [Seg('one', V(a, v.deps), None, ('t', i)) for i, a in enumerate(t.args[0])]
            elif t.op == 'obj':
                h = st.heap.get(t.args[0])
                if h is None:
                    segs = [Seg('many', V(mk('elem', frozenset([t])), v.deps),
                                frozenset([t]), ('e', t.uid))]
                elif h.kind == 'dict':
                    segs = [Seg('one' if m else 'opt',
                                (C(k) if not isinstance(k, T) else V(k)).dep(v.deps), None,
                                ('k', str(k))) for k, (_, m) in h.slots.items()]
                    if h.other is not None:
                        segs.append(Seg('many', h.other[0].dep(v.deps),
                                        frozenset([mk('keys', t)]), ('k', None)))
                    if h.root is not None:
                        segs.append(Seg('many', V(mk('elem', frozenset([t])),
                                                  v.deps | {(h.root, '*')}),
                                        frozenset([t]), ('e', t.uid)))
                elif h.kind == 'inst':
                    segs = [Seg('many', V(mk('elem', frozenset([t])), v.deps),
                                frozenset([t]), ('e', t.uid))]
                else:
                    segs = [Seg(g.kind, g.v.dep(v.deps), g.src if g.kind == 'many' else None,
                                g.site) for g in h.segs]
            elif t.op == 'const' and isinstance(t.args[1], (str, tuple, bytes)):
                c = t.args[1]
                if isinstance(c, tuple) or len(c) <= 8:
                    segs = [Seg('one', C(x, v.deps), None, ('c', i)) for i, x in enumerate(c)]
                else:
                    segs = [Seg('many', V(mk('elem', frozenset([t])), v.deps),
                                frozenset([t]), ('e', t.uid))]
            elif t.op == 'const':
                segs = []
            elif t.op == 'call' and t.args[0] == 'dict.keys':
                segs = [Seg('many', V(mk('elem', frozenset([t])), v.deps), frozenset([t]),
                            ('e', t.uid))]
            else:
                src = strip_iter(t)
                segs = [Seg('many', V(mk('elem', frozenset([src])), v.deps), frozenset([src]),
                            ('e', src.uid))]
            if multi:
                segs = [Seg('opt' if g.kind == 'one' else g.kind, g.v, g.src, g.site)
                        for g in segs]
            out += segs
        return out

    def elem_of(self, st, v, node):
        segs = self.iter_segs(st, v, node)
        if not segs:
            return None, frozenset()
        e = joinall(g.v for g in segs)
        src = frozenset().union(*[g.src for g in segs if g.src]) if any(g.src for g in segs) \
            else v.alts
        return e, src

    def for_loop(self, s, st, itv, target, body, orelse, comp=None):
        """comp: callback(st)->[states] used for comprehensions instead of a body."""
        o = Out()
        self.event('iterate', s, st, iterable=itv)
        items = self.static_items(st, itv)
        pc0 = st.pc
        runbody = comp if comp is not None else None

        def run(sts):
            if comp is not None:
                r = Out()
                for q in sts:
                    r.next += comp(q)
                r.next = self.merge(r.next)
                return r
            return self.block(body, sts)

        if items is not None:
            cur = [st]
            brk = []
            for i, v in enumerate(items):
                nx = []
                for y in cur:
                    e = self.event('iter', s, y, loop=self.site(s, 'loop'), value=v)
                    bs = self.assign(target, e.data['value'], e.st, s)
                    r = run(bs)
                    o.ret += r.ret
                    brk += r.brk
                    nx += r.next + r.cont
                cur = self.merge(nx)
                if not cur:
                    break
            if orelse and cur:
                r = self.block(orelse, cur)
                o.add(r)
                cur = r.next
            o.next = self.merge([q.with_(pc=pc0) for q in cur + brk])
            return o
        ev, src = self.elem_of(st, itv, s)
        if ev is None:
            if orelse:
                r = self.block(orelse, [st])
                return r
            o.next = [st]
            return o
        loopid = self.site(s, 'loop')
        deps = itv.deps

        def enter(h):
            h2 = h.with_(pc=h.pc | deps, loops=h.loops + ((loopid, src),))
            e = self.event('iter', s, h2, loop=loopid, value=ev)
            return self.assign(target, e.data['value'].dep(deps),
                               drop_facts(e.st, e.data['value']), s)

        return self.abstract_loop(s, st, enter, run, lambda h: [h], orelse, loopid)

    def s_While(self, s, st):
        loopid = self.site(s, 'loop')
        src = frozenset([mk('while', s.lineno)])
        exits = {}

        def enter(h):
            h2 = h.with_(loops=h.loops + ((loopid, src),))
            h2 = self.event('iter', s, h2, loop=loopid, value=None).st
            tr, fa = self.branch(s.test, h2)
            return tr

        def leave(h):
            tr, fa = self.branch(s.test, h)
            return fa
        if self.c.unroll:
            r = self.unrolled(s, st)
            if r is not None:
                return r
        return self.abstract_loop(s, st, enter, lambda sts: self.block(s.body, sts), leave,
                                  s.orelse, loopid)

    def unrolled(self, s, st):
        """A while loop whose condition the client decides each time; None if it does not."""
        o = Out()
        evmark, sinkmark = len(self.events), len(self.sinks[-1])
        for _ in range(self.c.unroll):
            tr, fa = self.branch(s.test, st)
            if tr and fa:
                break
            if not tr:
                if s.orelse and fa:
                    r = self.block(s.orelse, self.merge(fa))
                    o.add(r)
                    fa = r.next
                o.next = self.merge(fa + o.brk)
                o.brk = []
                return o
            r = self.block(s.body, self.merge(tr))
            o.ret += r.ret
            o.brk += r.brk
            nx = self.merge(r.next + r.cont)
            if not nx:
                o.next = self.merge(o.brk)
                o.brk = []
                return o
            if len(nx) > 1:
                break
            st = nx[0]
        del self.events[evmark:]
        del self.sinks[-1][sinkmark:]
        return None

    def abstract_loop(self, s, st, enter, run, leave, orelse, loopid):
        o = Out()
        pc0, loops0 = st.pc, st.loops
        heads = {self.key(st): st}
        evmark = len(self.events)
        sinkmark = len(self.sinks[-1])
        grow = {}
        last = None
        for p in range(7):
            del self.events[evmark:]
            del self.sinks[-1][sinkmark:]
            ret, brk, back = [], [], []
            for k in list(heads):
                h = heads[k]
                ent = enter(h)
                if not ent:
                    continue
                r = run(self.merge(ent))
                ret += r.ret
                brk += r.brk
                back += r.next + r.cont
            last = (ret, brk)
            changed = False
            for b in self.merge(back):
                b = b.with_(pc=pc0, loops=loops0)
                k = self.key(b)
                if k not in heads:
                    heads[k] = b
                    changed = True
                else:
                    n = self.widen(heads[k], b, loopid, p)
                    if n is not None:
                        heads[k] = n
                        changed = True
            if len(heads) > 24:
                raise AnalysisBroken('too many typestate partitions in loop at %s:%s' %
                                     (self.fn, s.lineno))
            if not changed:
                break
        ret, brk = last
        o.ret = ret
        ex = []
        m2 = len(self.events)
        for k in heads:
            ex += leave(heads[k])
        if orelse and ex:
            r = self.block(orelse, self.merge(ex))
            o.add(r)
            ex = r.next
        o.next = self.merge([q.with_(pc=pc0, loops=loops0) for q in ex + brk])
        return o

    def widen(self, h, b, loopid, p):
        """Join back edge b into head h; None if nothing new."""
        changed = False
        env = dict(h.env)
        for k, v in b.env.items():
            if k not in env:
                env[k] = v
                changed = True
                continue
            n = self.widen_v(env[k], v, (loopid, k), p)
            if n is not env[k]:
                env[k] = n
                changed = True
        heap = dict(h.heap)
        for oid, x in b.heap.items():
            y = heap.get(oid)
            if y is None:
                heap[oid] = x
                changed = True
                continue
            if y is x or y == x:
                continue
            j = self.join_hobj(y, x, oid)
            for sk in list(j.slots):
                if sk in y.slots:
                    n = self.widen_v(y.slots[sk][0], j.slots[sk][0], (loopid, oid, sk), p)
                    j.slots[sk] = (n, j.slots[sk][1])
            if p >= 3:
                j.segs = tuple(Seg(g.kind, self.widen_v(V(E), g.v, (loopid, oid, g.site), p)
                                   if _find(y.segs, g) is None else
                                   self.widen_v(_find(y.segs, g).v, g.v,
                                                (loopid, oid, g.site), p), g.src, g.site)
                               for g in j.segs)
            if not (j == y):
                heap[oid] = j
                changed = True
        sym = dict(h.sym)
        for k, v in b.sym.items():
            old = sym.get(k)
            if old is None:
                n = v.join(self.sym_default(k))
            else:
                n = self.widen_v(old, v, (loopid, k), p)
            if n is not old and n != old:
                sym[k] = n
                changed = True
        facts = {k: v for k, v in h.facts.items() if b.facts.get(k) == v}
        if len(facts) != len(h.facts):
            changed = True
        if not changed:
            return None
        return h.with_(env=env, heap=heap, sym=sym, facts=facts)

    def widen_v(self, old, new, key, p):
        if old == new or (new.alts <= old.alts and new.deps <= old.deps):
            return old
        deps = old.deps | new.deps
        if p == 0:
            j = old.join(new)
            return j
        lv = mk('loopvar', key)
        if lv in old.alts:
            # accumulate incoming values, state stays the loop variable
            extra = new.alts - {lv}
            self.loopvars[lv] = self.loopvars.get(lv, E) | extra
            if deps <= old.deps:
                return old
            return V(old.alts, deps)
        if all(t.op in ('obj', 'const', 'cls', 'func', 'ext') for t in new.alts | old.alts) and \
                p < 4:
            return old.join(new)
        self.loopvars[lv] = self.loopvars.get(lv, E) | old.alts | new.alts
        keep = frozenset(t for t in (old.alts | new.alts) if t.op == 'obj')
        return V(frozenset([lv]) | keep, deps)

    # ---- with / try
    def s_With(self, s, st):
        return self.with_items(s, list(s.items), st)

    def with_items(self, s, items, st):
        if not items:
            return self.block(s.body, [st])
        it = items[0]
        o = Out()
        node = it.context_expr
        if isinstance(node, ast.Call):
            # is it a repo context manager function?
            for x, fv in self.ev(node.func, st):
                fis = [self.callee_fi(t) for t in fv.alts]
                if fis and all(f is not None and f.deco('contextmanager') for f in fis):
                    for y, (av, kv) in self.ev_args(node, x):
                        t = next(iter(fv.alts))
                        r = self.run_cm(s, it, items[1:], y, t, av, kv, node)
                        o.add(r)
                        o.next += r.next
                    continue
                for y, v in self.call_value(node, x, fv):
                    r = self.with_value(s, it, items[1:], y, v)
                    o.add(r)
                    o.next += r.next
            o.next = self.merge(o.next)
            return o
        for y, v in self.ev(node, st):
            r = self.with_value(s, it, items[1:], y, v)
            o.add(r)
            o.next += r.next
        o.next = self.merge(o.next)
        return o

    def with_value(self, s, it, rest, st, v):
        o = Out()
        t = v.one
        sts = [st]
        bound = v
        h = st.heap.get(t.args[0]) if t is not None and t.op == 'obj' else None
        exitf = None
        if h is not None and isinstance(h.cls, ClassInfo):
            en = self.p.find_method(h.cls, '__enter__')
            exitf = self.p.find_method(h.cls, '__exit__')
            if en is not None:
                res = self.inline(en, st, [v], {}, s)
                sts = [a for a, _ in res]
                bound = joinall(b for _, b in res) if res else v
        elif t is not None and t.op in ('call', 'mcall') and t.args[0] in (
                'tempfile.TemporaryDirectory',):
            bound = V(mk('mcall', v.alts, '__enter__', ()), v.deps)
        self.event('enter', s, st, value=v)
        if it.optional_vars is not None:
            sts = [y for x in sts for y in self.assign(it.optional_vars, bound, x, s)]
        else:
            sts = sts
        self.sinks.append([])
        self.implicit += 1
        if exitf is None:
            self.implicit -= 1
        rs = []
        inner = Out()
        for x in sts:
            r = self.with_items(s, rest, x)
            inner.add(r)
            inner.next += r.next
        if exitf is not None:
            self.implicit -= 1
        raised = self.sinks.pop()

        def leave(q):
            self.event('exit', s, q, value=v)
            res = self.c.call(self, q, s, '%exit', None, [v], {})
            if res is not None:
                return [a for a, _ in res]
            if exitf is not None:
                return [a for a, _ in self.inline(
                    exitf, q, [v, V(NONE), V(NONE), V(NONE)], {}, s)]
            return [q]
        for q in inner.next:
            o.next += leave(q)
        for q, rv in inner.ret:
            o.ret += [(z, rv) for z in leave(q)]
        for q in inner.brk:
            o.brk += leave(q)
        for q in inner.cont:
            o.cont += leave(q)
        self.unwinding += 1
        for r in raised:
            for z in leave(r.st):
                self.sinks[-1].append(Raised(z, r.exc, r.node, r.implicit, r.func))
        self.unwinding -= 1
        return o

    def run_cm(self, s, it, rest, st, ft, av, kv, node):
        """Inline a @contextmanager function; the with body runs at its yield."""
        fi = self.callee_fi(ft)
        o = Out()
        depth = len(st.stack)
        hookkey = (id(s), id(it))
        outer_fs, outer_cs = list(self.fstack), list(self.cstack)

        def hook(q, val):
            # back to the with statement's frame
            saved_env, saved_pc = q.stack[-1]
            inner_env, inner_pc = q.env, q.pc
            q2 = q.with_(env=saved_env, pc=saved_pc, stack=q.stack[:-1])
            ifs, ics = list(self.fstack), list(self.cstack)
            self.fstack[:], self.cstack[:] = outer_fs, outer_cs
            sts = [q2]
            if it.optional_vars is not None:
                sts = self.assign(it.optional_vars, val, q2, s)
            self.sinks.append([])
            self.implicit += 1
            r = Out()
            for z in sts:
                rr = self.with_items(s, rest, z)
                r.add(rr)
                r.next += rr.next
            self.implicit -= 1
            raised = self.sinks.pop()
            self.fstack[:], self.cstack[:] = ifs, ics

            def back(z, pend=None):
                d = z.with_(stack=z.stack + ((z.env, z.pc),), env=inner_env, pc=inner_pc)
                if pend is not None:
                    d = d.with_(pending=d.pending + (pend,))
                return d
            res = [back(z) for z in r.next]
            for z, rv in r.ret:
                res.append(back(z, ('ret', hookkey, rv)))
            for z in r.brk:
                res.append(back(z, ('brk', hookkey, None)))
            for z in r.cont:
                res.append(back(z, ('cont', hookkey, None)))
            for x in raised:
                zst = x.st
                while len(zst.stack) > depth:
                    e, pc = zst.stack[-1]
                    zst = zst.with_(env=e, pc=pc, stack=zst.stack[:-1])
                self.sinks[-1].append(Raised(back(zst), x.exc, x.node, x.implicit, x.func))
            return self.merge(res)

        self.yield_stack = getattr(self, 'yield_stack', [])
        self.yield_stack.append((fi, hook))
        try:
            selfv = []
            if ft.op == 'bound':
                selfv = [V(ft.args[1])]
            res = self.inline(fi, st, selfv + av, kv, node, cm=True)
        finally:
            self.yield_stack.pop()
        for z, _ in res:
            if z.pending and z.pending[-1][1] == hookkey:
                kind, _, rv = z.pending[-1]
                z = z.with_(pending=z.pending[:-1])
                if kind == 'ret':
                    o.ret.append((z, rv))
                elif kind == 'brk':
                    o.brk.append(z)
                else:
                    o.cont.append(z)
            else:
                o.next.append(z)
        return o

    def s_Try(self, s, st):
        o = Out()
        depth = len(st.stack)
        self.sinks.append([])
        self.implicit += 1
        nf = len(self.fstack)
        body = self.block(s.body, [st])
        self.implicit -= 1
        raised = self.sinks.pop()
        for r in raised:
            z = r.st
            while len(z.stack) > depth:
                e, pc = z.stack[-1]
                z = z.with_(env=e, pc=pc, stack=z.stack[:-1])
            r.st = z.with_(loops=st.loops)
        after = Out()
        if s.orelse and body.next:
            r = self.block(s.orelse, body.next)
            after.add(body)
            after.add(r)
            after.next = r.next
        else:
            after = body
        escaping = []
        if s.handlers:
            self.sinks.append([])
            per = {}
            for r in raised:
                live = True
                for i, h in enumerate(s.handlers):
                    hn = self.exc_names(h.type)
                    m = self.exc_matches(r.exc, hn)
                    if m == 'no':
                        continue
                    per.setdefault(i, []).append(r)
                    if m == 'yes':
                        live = False
                        break
                if live:
                    escaping.append(r)
            if not raised:
                pass
            for i, rs in sorted(per.items()):
                h = s.handlers[i]
                hn = self.exc_names(h.type)
                hs = []
                for r in rs:
                    z = r.st
                    nm = r.exc if r.exc is not None else hn
                    ev = mk('excv', tuple(sorted(nm)) if nm else None)
                    z = z.setvar('%exc', C(tuple(sorted(nm))) if nm else V(TOP))
                    if h.name:
                        z = z.setvar(h.name, V(ev))
                    hs.append(z)
                hs = self.merge(hs)
                hs = [self.event('handler', h, q, names=hn, raised=rs).st for q in hs]
                r2 = self.block(h.body, hs)
                after.ret += r2.ret
                after.brk += r2.brk
                after.cont += r2.cont
                after.next += [q.with_(pc=st.pc) for q in r2.next]
            escaping += self.sinks.pop()
        else:
            escaping = raised
        if s.finalbody:
            fin = Out()

            def runfin(q):
                r = self.block(s.finalbody, [q])
                fin.add(r)
                return r.next
            for q in self.merge(after.next):
                o.next += runfin(q)
            for q, v in after.ret:
                o.ret += [(z, v) for z in runfin(q)]
            for q in after.brk:
                o.brk += runfin(q)
            for q in after.cont:
                o.cont += runfin(q)
            self.unwinding += 1
            for r in escaping:
                for z in runfin(r.st):
                    self.sinks[-1].append(Raised(z, r.exc, r.node, r.implicit, r.func))
            self.unwinding -= 1
            o.add(fin)
        else:
            o.add(after)
            o.next = self.merge(after.next)
            self.sinks[-1] += escaping
        o.next = self.merge(o.next)
        return o

    s_TryStar = s_Try

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st, node):
        v = v.dep(st.pc)
        if isinstance(t, ast.Name):
            return [st.setvar(t.id, v)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = self.destructure(st, v, len(t.elts),
                                     [isinstance(e, ast.Starred) for e in t.elts], node)
            sts = [st]
            for e, pv in zip(t.elts, parts):
                sts = [y for x in sts for y in self.assign(e, pv, x, node)]
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.ev(t.value, st):
                out += self.set_attr(x, b, t.attr, v, node)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, (b, k) in self.evs([t.value, t.slice], st):
                out.append(self.set_item(x, b, k, v, node))
            return out
        return [st]

    def destructure(self, st, v, n, stars, node):
        res = [None] * n
        for t in v.alts:
            items = None
            if t.op == 'tup':
                items = [V(a, v.deps) for a in t.args[0]]
            elif t.op == 'const' and isinstance(t.args[1], (tuple, str)):
                items = [C(x, v.deps) for x in t.args[1]]
            elif t.op == 'obj':
                h = st.heap.get(t.args[0])
                if h is not None and h.kind == 'list' and all(g.kind == 'one' for g in h.segs):
                    items = [g.v.dep(v.deps) for g in h.segs]
            if items is None or (len(items) != n and not any(stars)):
                e = frozenset([t])
                if t.op == 'obj':
                    h = st.heap.get(t.args[0])
                    if h is not None and h.kind in ('list', 'set') and h.segs:
                        el = joinall(g.v for g in h.segs).dep(v.deps)
                        items = [el] * n
                if items is None or len(items) != n:
                    items = [V(mk('item', t, const(i)), v.deps) for i in range(n)]
            elif any(stars):
                items = [V(mk('item', t, const(i)), v.deps) for i in range(n)]
            for i in range(n):
                res[i] = items[i] if res[i] is None else res[i].join(items[i])
        return [r if r is not None else V(TOP, v.deps) for r in res]

    def set_attr(self, st, b, name, v, node):
        """Attribute store; returns list of states."""
        st = self.event('setattr', node, st, base=b, name=name, value=v).st
        st = self.taint(st, b, self.deep_deps(st, v) | st.pc)
        out = []
        one = len(b.alts) == 1
        for t in b.alts:
            if t.op == 'obj':
                oid = t.args[0]
                h = st.heap.get(oid)
                if h is None:
                    continue
                if isinstance(h.cls, ClassInfo):
                    pr = self.p.find_method(h.cls, name)
                    if pr is not None:
                        setter = self.find_setter(h.cls, name)
                        if setter is not None:
                            out += [s for s, _ in self.inline(setter, st, [V(t), v], {}, node)]
                            continue
                n = h.copy()
                if one:
                    n.slots[name] = (v, True)
                else:
                    old = h.slots.get(name)
                    n.slots[name] = (v.join(old[0]), old[1]) if old else (v, False)
                st = st.sethobj(oid, n)
            elif t.op in ('cls',):
                k = ('clsattr', t.args[0].qual, name)
                st = st.with_(sym={**st.sym, (mk('static', k), 'static', TOP): v})
            else:
                sym = dict(st.sym)
                k = (t, 'attr', name)
                sym[k] = v if one or k not in sym else sym[k].join(v)
                st = st.with_(sym=sym)
        return out or [st]

    def find_setter(self, ci, name):
        for k in self.p.mro(ci):
            for x in k.node.body:
                if isinstance(x, ast.FunctionDef) and x.name == name and any(
                        ast.unparse(d) == name + '.setter' for d in x.decorator_list):
                    return FuncInfo(x, k.module, cls=k)
        return None

    def set_item(self, st, b, k, v, node):
        st = self.event('setitem', node, st, base=b, key=k, value=v).st
        st = self.taint(st, b, self.deep_deps(st, v) | k.deps | st.pc)
        one = len(b.alts) == 1
        for t in b.alts:
            if t.op == 'obj':
                oid = t.args[0]
                h = st.heap.get(oid)
                if h is None:
                    continue
                n = h.copy()
                if h.kind in ('list', 'set'):
                    # weak update of all elements
                    kc = k.const(None)
                    if isinstance(kc, int) and all(g.kind == 'one' for g in h.segs) and \
                            -len(h.segs) <= kc < len(h.segs):
                        sg = list(h.segs)
                        o = sg[kc]
                        sg[kc] = Seg('one', v, o.src, o.site)
                        n.segs = tuple(sg)
                    else:
                        n.segs = tuple(Seg(g.kind, g.v.join(v), g.src, g.site) for g in h.segs) \
                            or (Seg('many', v, None, self.site(node)),)
                else:
                    key = self.slot_key(k)
                    if key is not None:
                        if one:
                            n.slots[key] = (v.dep(k.deps), True)
                        else:
                            old = h.slots.get(key)
                            n.slots[key] = (v.join(old[0]), old[1]) if old else (v, False)
                    else:
                        ks = k.consts()
                        if ks is not None:
                            for c in ks:
                                old = n.slots.get(c)
                                n.slots[c] = (v.join(old[0]), old[1]) if old else (v, False)
                        else:
                            n.other = (k, v) if n.other is None else (n.other[0].join(k),
                                                                      n.other[1].join(v))
                st = st.sethobj(oid, n)
            else:
                kt = k.one
                if kt is not None:
                    sym = dict(st.sym)
                    kk = (t, 'item', kt)
                    sym[kk] = v if one or kk not in sym else sym[kk].join(v)
                    st = st.with_(sym=sym)
        return st

    def slot_key(self, k):
        t = k.one
        if t is None:
            return None
        if t.op == 'const':
            return t.args[1]
        if t.op in ('attr', 'item', 'elem', 'param', 'idx', 'fmt', 'tup', 'call', 'mcall', 'bin'):
            return t
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return [(st, V(TOP))]
        return m(n, st)

    def evs(self, nodes, st):
        """Evaluate expressions in order; list of (state, [V])."""
        res = [(st, [])]
        for n in nodes:
            nx = []
            for s, vs in res:
                if n is None:
                    nx.append((s, vs + [V(NONE)]))
                    continue
                for s2, v in self.ev(n, s):
                    nx.append((s2, vs + [v]))
            res = nx
        return res

    def e_Constant(self, n, st):
        return [(st, C(n.value))]

    def e_Name(self, n, st):
        return [(st, self.name_value(n.id, st, n))]

    def name_value(self, name, st, node):
        if name in st.env:
            return st.env[name]
        clo = st.env.get('%closure')
        if clo is not None:
            v = self.closure_lookup(clo, name)
            if v is not None:
                return v
        m = self.fn.module if self.fn else None
        if m is not None:
            r = self.p.module_member(m, name)
            if r is not None:
                return self.member_value(r, m, name, st)
        if name in BUILTINS:
            return V(mk('ext', name))
        if name == '__file__':
            return V(mk('ext', '__file__'))
        if name == '__name__':
            return C(m.name if m else '')
        return V(mk('undef', name))

    def closure_lookup(self, clo, name):
        key = clo.one.args[0]
        fi, env = self.fn_table[key]
        if name in env:
            return env[name]
        if '%closure' in env:
            return self.closure_lookup(env['%closure'], name)
        return None

    def member_value(self, r, m, name, st):
        if isinstance(r, Module):
            return V(mk('mod', r.name))
        if isinstance(r, ClassInfo):
            return V(mk('cls', r))
        if isinstance(r, FuncInfo):
            return V(mk('func', r))
        if r[0] == 'ext':
            return V(mk('ext', r[1]))
        if r[0] == 'const':
            return self.static_value(('mod', r[2].name, name), r[1], r[2], st)
        return V(TOP)

    def static_value(self, key, nodes, module, st):
        """Module-level / class-level constant."""
        k = (mk('static', key), 'static', TOP)
        if k in st.sym:
            return st.sym[k]
        t = self.static_eval(key, nodes, module)
        return t

    def static_eval(self, key, nodes, module):
        if key in self.static_cache:
            return self.static_cache[key]
        self.static_cache[key] = V(mk('static', key))
        if len(nodes) == 1:
            v = self.const_expr(nodes[0], module)
            if v is not None:
                self.static_cache[key] = v
        return self.static_cache[key]

    def const_expr(self, n, module, depth=0):
        """Evaluate a literal expression to a constant / tuple V, or None."""
        if depth > 12:
            return None
        if isinstance(n, ast.Constant):
            return C(n.value)
        if isinstance(n, ast.Tuple):
            vs = [self.const_expr(e, module, depth + 1) for e in n.elts]
            if all(v is not None for v in vs):
                if all(v.is_const() for v in vs):
                    return C(tuple(v.const() for v in vs))
                return V(mk('tup', tuple(v.alts for v in vs)))
            return None
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = self.const_expr(n.operand, module, depth + 1)
            if v is not None and v.is_const() and isinstance(v.const(), (int, float)):
                return C(-v.const())
            return None
        if isinstance(n, ast.BinOp):
            a = self.const_expr(n.left, module, depth + 1)
            b = self.const_expr(n.right, module, depth + 1)
            if a is not None and b is not None and a.is_const() and b.is_const():
                return self.fold(n.op, a.const(), b.const())
            return None
        if isinstance(n, ast.Name):
            r = self.p.module_member(module, n.id)
            if isinstance(r, tuple) and r[0] == 'const':
                return self.static_eval(('mod', r[2].name, n.id), r[1], r[2])
            if isinstance(r, (FuncInfo,)):
                return V(mk('func', r))
            if isinstance(r, ClassInfo):
                return V(mk('cls', r))
            if isinstance(r, tuple) and r[0] == 'ext':
                return V(mk('ext', r[1]))
            return None
        if isinstance(n, ast.Attribute):
            d = ast.unparse(n)
            r = self.p.resolve_in_module(module, d)
            if isinstance(r, tuple) and r[0] == 'ext':
                return V(mk('ext', r[1]))
            if isinstance(r, FuncInfo):
                return V(mk('func', r))
            if isinstance(r, ClassInfo):
                return V(mk('cls', r))
            return None
        return None

    def e_Attribute(self, n, st):
        out = []
        for x, b in self.ev(n.value, st):
            out += self.get_attr(x, b, n.attr, n)
        return self.merge_v(out)

    def get_attr(self, st, b, name, node):
        """Attribute read -> list of (state, V)."""
        r = self.c.attr(self, st, b, name)
        if r is not None:
            return r if isinstance(r, list) else [(st, r.dep(b.deps))]
        vals = []
        out = []
        for t in sorted(b.alts):
            v = None
            if t.op == 'obj':
                oid = t.args[0]
                h = st.heap.get(oid)
                if h is None:
                    v = V(mk('attr', t, name))
                elif h.kind == 'inst':
                    if name in h.slots and h.slots[name][1]:
                        v = h.slots[name][0]
                    elif isinstance(h.cls, ClassInfo):
                        f = self.p.find_method(h.cls, name)
                        if f is not None:
                            if f.deco('property', 'cached_property'):
                                if self.can_inline(f, st, [V(t)]):
                                    for s2, pv in self.inline(f, st, [V(t)], {}, node):
                                        out.append((s2, pv.dep(b.deps)))
                                    continue
                                v = V(mk('call', f.qual, (frozenset([t]),), ()), b.deps)
                            elif f.deco('staticmethod'):
                                v = V(mk('func', f))
                            elif f.deco('classmethod'):
                                v = V(mk('bound', f, mk('cls', h.cls)))
                            else:
                                v = V(mk('bound', f, t))
                        elif name in h.slots:
                            v = h.slots[name][0]
                        else:
                            ca = self.p.find_class_attr(h.cls, name)
                            if ca is not None:
                                v = self.class_attr(ca, h.cls, name, st)
                            elif name == '__class__':
                                v = V(mk('cls', h.cls))
                            elif name == '__dict__':
                                v = V(mk('attr', t, '__dict__'),
                                      frozenset([(h.root, '*')]) if h.root else E)
                            elif h.root is not None:
                                v = self.lazy(oid, h, name)
                            elif self.p.ext_bases(h.cls) and name not in h.slots:
                                v = V(mk('attr', t, name))
                            else:
                                self.event('noattr', node, st, base=b, name=name)
                                v = V(mk('attr', t, name))
                    elif name in h.slots:
                        v = h.slots[name][0]
                    elif isinstance(h.cls, str) and h.cls.startswith('closed:'):
                        # object with a fixed attribute table: missing attribute raises
                        self.raise_(st, {'AttributeError'}, node, False)
                        continue
                    else:
                        v = self.lazy(oid, h, name) or V(mk('attr', t, name))
                else:
                    v = V(mk('bmeth', name, t))
            elif t.op == 'mod':
                m = self.p.modules[t.args[0]]
                r = self.p.module_member(m, name)
                v = self.member_value(r, m, name, st) if r is not None else V(mk('undef', name))
            elif t.op == 'cls':
                ci = t.args[0]
                f = self.p.find_method(ci, name)
                if f is not None:
                    v = V(mk('bound', f, t)) if f.deco('classmethod') else V(mk('func', f))
                else:
                    ca = self.p.find_class_attr(ci, name)
                    if ca is not None:
                        v = self.class_attr(ca, ci, name, st)
                    elif name == '__name__':
                        v = C(ci.name)
                    else:
                        v = V(mk('attr', t, name))
            elif t.op == 'super':
                ci, after, selft = t.args
                f = self.p.find_method(ci, name, after=after)
                v = V(mk('bound', f, selft)) if f is not None else V(mk('extmeth', name))
            elif t.op == 'ext':
                full = t.args[0] + '.' + name
                r = self.p.lookup(full)
                d = E
                if full in ('os.environ', 'sys.argv'):
                    d = frozenset([('ext', full)])
                v = V(mk('ext', full), d)
            else:
                k = (t, 'attr', name)
                v = st.sym.get(k) or V(mk('attr', t, name))
                if t.op == 'param':
                    v = v.dep(frozenset([(t.args[0], name)]))
                    vals.append(v)
                    continue
            vals.append(v.dep(b.deps))
        if vals:
            out.append((st, joinall(vals)))
        return self.merge_v(out)

    def class_attr(self, ca, ci, name, st):
        expr, owner = ca
        return self.static_value(('cls', owner.qual, name), [expr], owner.module, st)

    def e_Subscript(self, n, st):
        out = []
        if isinstance(n.slice, ast.Slice):
            for x, vs in self.evs([n.value, n.slice.lower, n.slice.upper, n.slice.step], st):
                if self.c.strict_none and vs[0].one is NONE:
                    self.raise_(x, {'TypeError'}, n, False)
                    continue
                out.append(self.slice(x, vs, n))
            return self.merge_v(out)
        for x, (b, k) in self.evs([n.value, n.slice], st):
            self.may_raise(x, n)
            if self.c.strict_none and b.one is NONE:
                self.raise_(x, {'TypeError'}, n, False)
                continue
            out += self.get_item(x, b, k, n)
        return self.merge_v(out)

    def slice(self, st, vs, n):
        b, lo, hi, stp = vs
        deps = b.deps | lo.deps | hi.deps | stp.deps
        c = [q.const('?') if q.is_const() else '?' for q in (lo, hi, stp)]
        res = []
        for t in b.alts:
            if t.op == 'const' and isinstance(t.args[1], (str, tuple)) and '?' not in c:
                res.append(C(t.args[1][slice(*c)]))
                continue
            if t.op == 'tup' and '?' not in c:
                res.append(V(mk('tup', t.args[0][slice(*c)])))
                continue
            if t.op == 'obj':
                h = st.heap.get(t.args[0])
                if h is not None and h.kind == 'list':
                    if '?' not in c and all(g.kind == 'one' for g in h.segs):
                        segs = h.segs[slice(*c)]
                    elif c == [None, None, None]:
                        segs = h.segs
                    else:
                        segs = tuple(Seg('opt' if g.kind == 'one' else g.kind, g.v, g.src, g.site)
                                     for g in h.segs)
                    st, v = self.new_list(st, n, segs, extra='slice')
                    res.append(v)
                    continue
            if c == [None, None, None]:
                res.append(V(mk('call', 'list', (frozenset([t]),), ())))
            else:
                res.append(V(mk('slice', t, lo.alts, hi.alts, stp.alts)))
        self.event('slice', n, st, base=b, lo=lo, hi=hi, step=stp)
        return st, joinall(res).dep(deps)

    def get_item(self, st, b, k, node):
        self.event('getitem', node, st, base=b, key=k)
        vals = []
        out = []
        for t in sorted(b.alts):
            v = None
            kc = k.const('?') if k.is_const() else '?'
            if t.op == 'obj':
                h = st.heap.get(t.args[0])
                if h is None:
                    v = V(mk('item', t, k.one or TOP))
                elif h.kind in ('list', 'set'):
                    if isinstance(kc, int) and all(g.kind == 'one' for g in h.segs):
                        if -len(h.segs) <= kc < len(h.segs):
                            v = h.segs[kc].v
                        else:
                            self.raise_(st, {'IndexError'}, node, True)
                            continue
                    elif h.segs and kc == 0 and h.segs[0].kind == 'one':
                        v = h.segs[0].v
                    elif h.segs and kc == -1 and h.segs[-1].kind == 'one':
                        v = h.segs[-1].v
                    else:
                        v = joinall([g.v for g in h.segs], V(mk('item', t, k.one or TOP)))
                elif h.kind == 'dict':
                    v = self.dict_get(st, t, h, k, node)
                    if v is None:
                        self.raise_(st, {'KeyError'}, node, False)
                        continue
                elif isinstance(h.cls, ClassInfo):
                    f = self.p.find_method(h.cls, '__getitem__')
                    if f is not None and self.can_inline(f, st, [V(t), k]):
                        out += [(a, w.dep(b.deps)) for a, w in
                                self.inline(f, st, [V(t), k], {}, node)]
                        continue
                    v = self.sym_item(st, t, k)
                    if h.root is not None:
                        v = v.dep(frozenset([(h.root, '[%s]' % (kc if kc != '?' else '*'))]))
                else:
                    v = self.sym_item(st, t, k)
                    if h.root is not None:
                        v = v.dep(frozenset([(h.root, '[%s]' % (kc if kc != '?' else '*'))]))
            elif t.op == 'tup':
                if isinstance(kc, int):
                    if -len(t.args[0]) <= kc < len(t.args[0]):
                        v = V(t.args[0][kc])
                    else:
                        self.raise_(st, {'IndexError'}, node, False)
                        continue
                else:
                    v = joinall([V(a) for a in t.args[0]], V(TOP))
            elif t.op == 'const' and isinstance(t.args[1], (str, tuple)) and isinstance(kc, int):
                try:
                    v = C(t.args[1][kc])
                except IndexError:
                    self.raise_(st, {'IndexError'}, node, False)
                    continue
            elif t.op == 'static' and t.args[0][0] in ('mod', 'cls'):
                v = self.static_item(t, k, st)
            else:
                v = self.sym_item(st, t, k)
            if t.op == 'ext' and t.args[0] == 'os.environ':
                v = v.dep(frozenset([('env', kc)]))
            vals.append(v.dep(b.deps | k.deps))
        if vals:
            out.append((st, joinall(vals)))
        return out

    def static_item(self, t, k, st):
        """Item of a module/class level literal dict or list."""
        node, module = self.static_node(t)
        kc = k.const('?') if k.is_const() else '?'
        if kc == '?' and self.c.keep_tables:
            return V(mk('item', t, k.one or k.alts))
        if isinstance(node, ast.Dict):
            vs = []
            for kn, vn in zip(node.keys, node.values):
                kv = self.const_expr(kn, module) if kn is not None else None
                vv = self.const_expr(vn, module)
                if vv is None:
                    vv = V(mk('staticexpr', module.name, ast.unparse(vn)))
                if kc == '?' or kv is None:
                    vs.append(vv)
                elif kv.is_const() and kv.const() == kc:
                    return vv
            if vs and kc == '?':
                return joinall(vs)
        return V(mk('item', t, k.one or TOP))

    def static_node(self, t):
        kind, owner, name = t.args[0]
        if kind == 'mod':
            m = self.p.modules[owner]
            ns = m.assigns.get(name, [])
            return (ns[0] if len(ns) == 1 else None), m
        ci = self.p.lookup(owner)
        return ci.attrs.get(name), ci.module

    def sym_item(self, st, t, k):
        kt = k.one
        if kt is not None:
            r = st.sym.get((t, 'item', kt))
            if r is not None:
                return r
            return V(mk('item', t, kt))
        return joinall([V(mk('item', t, a)) for a in k.alts])

    def dict_get(self, st, t, h, k, node, default=None):
        """Value for key in modelled dict; None if certainly missing."""
        ks = [self.slot_key(V(a)) for a in k.alts]
        vals = []
        for a, key in zip(k.alts, ks):
            hit = False
            if key is not None and key in h.slots:
                v, must = h.slots[key]
                vals.append(v)
                hit = must
            if not hit:
                # symbolic keys may alias
                for sk, (v, m) in h.slots.items():
                    if isinstance(sk, T) or isinstance(key, T) or key is None:
                        if sk != key:
                            vals.append(v)
                if h.other is not None:
                    vals.append(h.other[1])
                if h.root is not None:
                    vals.append(self.sym_item(st, t, V(a)).dep(frozenset([(h.root, '*')])))
                if default is not None:
                    vals.append(default)
                elif not vals and h.root is None:
                    self.event('nokey', node, st, base=V(t), key=V(a))
        if not vals:
            return None
        return joinall(vals)

    def e_BinOp(self, n, st):
        out = []
        for x, (a, b) in self.evs([n.left, n.right], st):
            out += self.binop_st(x, n.op, a, b, n)
        return self.merge_v(out)

    def binop_st(self, st, op, a, b, node):
        # list concatenation makes a new list
        if isinstance(op, ast.Add):
            ao, bo = a.one, b.one
            if ao is not None and ao.op == 'obj' and st.heap.get(ao.args[0]) is not None and \
                    st.heap[ao.args[0]].kind == 'list':
                segs = self.iter_segs(st, a, node) + self.iter_segs(st, b, node)
                st, v = self.new_list(st, node, segs)
                return [(st, v.dep(a.deps | b.deps))]
            if bo is not None and bo.op == 'obj' and st.heap.get(bo.args[0]) is not None and \
                    st.heap[bo.args[0]].kind == 'list':
                segs = self.iter_segs(st, a, node) + self.iter_segs(st, b, node)
                st, v = self.new_list(st, node, segs)
                return [(st, v.dep(a.deps | b.deps))]
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)):
            ao = a.one
            if ao is not None and ao.op == 'obj' and st.heap.get(ao.args[0]) is not None and \
                    st.heap[ao.args[0]].kind == 'set':
                segs = self.iter_segs(st, a, node)
                if isinstance(op, ast.BitOr):
                    segs += self.iter_segs(st, b, node)
                else:
                    segs = [Seg('opt' if g.kind == 'one' else g.kind, g.v, g.src, g.site)
                            for g in segs]
                st, v = self.new_list(st, node, segs, kind='set', unordered=True)
                return [(st, v.dep(a.deps | b.deps))]
        # operator overloading on repo instances
        meth = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__',
                'Mod': '__mod__', 'FloorDiv': '__floordiv__'}.get(type(op).__name__)
        ao = a.one
        if meth and ao is not None and ao.op == 'obj':
            h = st.heap.get(ao.args[0])
            if h is not None and isinstance(h.cls, ClassInfo):
                f = self.p.find_method(h.cls, meth)
                if f is not None and self.can_inline(f, st, [a, b]):
                    return self.inline(f, st, [a, b], {}, node)
        return [(st, self.binop(st, op, a, b, node))]

    def binop(self, st, op, a, b, node):
        deps = a.deps | b.deps
        if len(a.alts) * len(b.alts) <= 6:
            vals = []
            for x in a.alts:
                for y in b.alts:
                    vals.append(self.binop1(op, x, y))
            return joinall(vals).dep(deps)
        return V(mk('bin', _opname(op), a.alts, b.alts), deps)

    def binop1(self, op, x, y):
        if x.op == 'const' and y.op == 'const':
            r = self.fold(op, x.args[1], y.args[1])
            if r is not None and not (self.c.keep_ratios and isinstance(r.const(), float) and
                                      isinstance(op, (ast.Div, ast.FloorDiv))):
                return r
        if isinstance(op, ast.Add):
            px, py = fmt_parts(x), fmt_parts(y)
            if px is not None and py is not None and (strish(x) or strish(y)):
                return V(mk_fmt(px + py))
            if x.op == 'tup' and y.op == 'tup':
                return V(mk('tup', x.args[0] + y.args[0]))
        if isinstance(op, ast.Mod) and x.op == 'const' and isinstance(x.args[1], str):
            return V(mk_fmt(percent_parts(x.args[1], y)))
        return V(mk('bin', _opname(op), frozenset([x]), frozenset([y])))

    def fold(self, op, a, b):
        try:
            if isinstance(op, ast.Add):
                r = a + b
            elif isinstance(op, ast.Sub):
                r = a - b
            elif isinstance(op, ast.Mult):
                if isinstance(a, (str, tuple)) and isinstance(b, int) and b > 100:
                    return None
                r = a * b
            elif isinstance(op, ast.Div):
                r = a / b
            elif isinstance(op, ast.FloorDiv):
                r = a // b
            elif isinstance(op, ast.Mod):
                r = a % b
            elif isinstance(op, ast.Pow):
                if abs(b) > 64:
                    return None
                r = a ** b
            elif isinstance(op, ast.BitOr):
                r = a | b
            elif isinstance(op, ast.BitAnd):
                r = a & b
            elif isinstance(op, ast.LShift):
                r = a << b
            else:
                return None
            hash(r)
            return C(r)
        except Exception:
            return None

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return self.bool_value(n, st)
        out = []
        for x, v in self.ev(n.operand, st):
            c = v.const('?') if v.is_const() else '?'
            if isinstance(n.op, ast.USub) and isinstance(c, (int, float)):
                out.append((x, C(-c, v.deps)))
            elif isinstance(n.op, ast.UAdd):
                out.append((x, v))
            else:
                out.append((x, V(mk('un', type(n.op).__name__, v.alts), v.deps)))
        return out

    def bool_value(self, n, st):
        tr, fa = self.branch(n, st, quiet=True)
        out = []
        d = None
        for x in tr:
            out.append((x.with_(pc=st.pc), V(TRUE, x.pc - st.pc)))
        for x in fa:
            out.append((x.with_(pc=st.pc), V(FALSE, x.pc - st.pc)))
        return out

    @staticmethod
    def vague(a, b):
        """Does the condition speak of a value with several joined known alternatives?
        Two such values may look the same without being the same, so what was
        found of one says nothing of the other (the variable itself is narrowed instead)."""
        return any(len(v.alts) > 1 and all(t.op in ('const', 'ext') for t in v.alts)
                   for v in (a, b))

    def e_Compare(self, n, st):
        """Value of a comparison: constant if decided, else a symbolic condition."""
        out = []
        for x, vs in self.evs([n.left] + n.comparators, st):
            deps = frozenset().union(*[v.deps for v in vs])
            vals = []
            dec = []
            for op, a, b in zip(n.ops, vs, vs[1:]):
                d, term, neg = self.compare(x, op, a, b)
                if d is None and term in x.facts and not self.vague(a, b):
                    d = x.facts[term] != neg
                if d is None:
                    d = self.c.decide(self, x, (term, neg))
                dec.append(d)
                vals.append(mk('not', frozenset([term])) if neg else term)
            if False in dec:
                out.append((x, V(FALSE, deps)))
            elif all(d is True for d in dec):
                out.append((x, V(TRUE, deps)))
            else:
                rest = [t for t, d in zip(vals, dec) if d is None]
                out.append((x, V(rest[0] if len(rest) == 1 else mk('and', tuple(rest)), deps)))
        return self.merge_v(out)

    def e_BoolOp(self, n, st):
        """Short-circuit value semantics."""
        if all(isinstance(e, (ast.Compare, ast.Name, ast.BoolOp, ast.UnaryOp)) for e in n.values):
            r = self.bool_term(n, st)
            if r is not None:
                return r
        out = []
        cur = [(st, None)]
        isand = isinstance(n.op, ast.And)
        for i, e in enumerate(n.values):
            nx = []
            for x, _ in cur:
                for y, v in self.ev(e, x):
                    if i == len(n.values) - 1:
                        nx.append((y, v))
                        continue
                    tv = self.truth(y, v)
                    stop = (tv is False) if isand else (tv is True)
                    go = (tv is True) if isand else (tv is False)
                    if stop or tv is None:
                        # the falsy / truthy alternatives of v survive
                        keep = [t for t in v.alts if (self.truth(y, V(t)) is not True if isand
                                                      else self.truth(y, V(t)) is not False)]
                        if keep:
                            out.append((y, V(keep, v.deps)))
                    if go or tv is None:
                        nx.append((y.with_(pc=y.pc | v.deps), v))
            cur = nx
        for y, v in cur:
            out.append((y, v.dep(y.pc - st.pc)))
        return self.merge_v([(y.with_(pc=st.pc), v) for y, v in out])

    BOOLOPS = {'lt', 'eq', 'is', 'in', 'not', 'and', 'or', 'isinstance', 'all', 'any'}

    def bool_term(self, n, st):
        """and / or of undecided boolean terms is itself a boolean term."""
        ts, deps = [], E
        for e in n.values:
            if isinstance(e, ast.Name) and not (
                    e.id in st.env and all(t.op in self.BOOLOPS for t in st.env[e.id].alts)):
                return None
            if isinstance(e, ast.UnaryOp) and not isinstance(e.op, ast.Not):
                return None
            r = self.ev(e, st)
            if len(r) != 1:
                return None
            st, v = r[0]
            t = v.one
            if t is None or t.op not in self.BOOLOPS or self.truth(st, v) is not None:
                return None
            ts.append(t)
            deps |= v.deps
        return [(st, V(mk('and' if isinstance(n.op, ast.And) else 'or', tuple(ts)), deps))]

    def e_IfExp(self, n, st):
        tr, fa = self.branch(n.test, st)
        out = []
        for x in self.merge(tr):
            out += [(y.with_(pc=st.pc), v.dep(y.pc)) for y, v in self.ev(n.body, x)]
        for x in self.merge(fa):
            out += [(y.with_(pc=st.pc), v.dep(y.pc)) for y, v in self.ev(n.orelse, x)]
        return self.merge_v(out)

    def e_NamedExpr(self, n, st):
        out = []
        for x, v in self.ev(n.value, st):
            for y in self.assign(n.target, v, x, n):
                out.append((y, v))
        return out

    def e_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.e_List(n, st)
        out = []
        for x, vs in self.evs(n.elts, st):
            deps = frozenset().union(*[v.deps for v in vs]) if vs else E
            if all(v.is_const() for v in vs):
                out.append((x, C(tuple(v.const() for v in vs), deps)))
            else:
                # keep per-element dependencies when they differ
                out.append((x, V(mk('tup', tuple(v.alts for v in vs)), deps)))
        return out

    def e_List(self, n, st, kind='list'):
        out = []
        nodes = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]
        for x, vs in self.evs(nodes, st):
            segs = []
            for e, v in zip(n.elts, vs):
                if isinstance(e, ast.Starred):
                    segs += self.iter_segs(x, v, n)
                else:
                    segs.append(Seg('one', v, None, self.site(e)))
            x, v = self.new_list(x, n, segs, kind=kind)
            out.append((x, v))
        return out

    def e_Set(self, n, st):
        return self.e_List(n, st, kind='set')

    def e_Dict(self, n, st):
        out = []
        keys = [k for k in n.keys]
        nodes = []
        for k, v in zip(n.keys, n.values):
            nodes += [k if k is not None else ast.Constant(None), v]
        for x, vs in self.evs(nodes, st):
            x, d = self.alloc(x, n, HObj('dict'))
            for i, k in enumerate(n.keys):
                kv, vv = vs[2 * i], vs[2 * i + 1]
                if k is None:
                    x = self.dict_update(x, d, vv, n)
                else:
                    ev0 = len(self.events)
                    x = self.set_item(x, d, kv, vv.dep(x.pc), n)
                    del self.events[ev0:]
                    self.event('dictlit', n, x, base=d, key=kv, value=vv)
            out.append((x, d))
        return out

    def dict_update(self, st, d, v, node):
        for t in v.alts:
            if t.op == 'obj':
                h = st.heap.get(t.args[0])
                if h is not None and h.kind == 'dict':
                    for k, (vv, m) in h.slots.items():
                        kv = C(k) if not isinstance(k, T) else V(k)
                        if m:
                            st = self.set_item(st, d, kv, vv, node)
                        else:
                            st = self.weak_item(st, d, kv, vv)
                    if h.other:
                        st = self.set_item(st, d, h.other[0], h.other[1], node)
                    if h.root is None:
                        continue
                if h is not None and h.kind == 'list':
                    for g in h.segs:
                        kv, vv = self.destructure(st, g.v, 2, [False, False], node)
                        if g.kind == 'one':
                            st = self.set_item(st, d, kv, vv, node)
                        else:
                            st = self.weak_item(st, d, kv, vv)
                    continue
            if t.op == 'tup':
                for a in t.args[0]:
                    kv, vv = self.destructure(st, V(a, v.deps), 2, [False, False], node)
                    st = self.set_item(st, d, kv, vv, node)
                continue
            # unknown mapping
            for oid in d.objs():
                h = st.heap.get(oid)
                if h is not None:
                    n = h.copy()
                    kv = V(mk('elem', frozenset([t])), v.deps)
                    vv = V(mk('item', t, mk('elem', frozenset([t]))), v.deps)
                    n.other = (kv, vv) if n.other is None else (n.other[0].join(kv),
                                                                n.other[1].join(vv))
                    st = st.sethobj(oid, n)
        return st

    def weak_item(self, st, d, k, v):
        for oid in d.objs():
            h = st.heap.get(oid)
            if h is None:
                continue
            n = h.copy()
            key = self.slot_key(k)
            if key is not None:
                old = n.slots.get(key)
                n.slots[key] = (v.join(old[0]), old[1]) if old else (v, False)
            else:
                n.other = (k, v) if n.other is None else (n.other[0].join(k), n.other[1].join(v))
            st = st.sethobj(oid, n)
        return st

    def e_JoinedStr(self, n, st):
        out = []
        nodes = [e.value if isinstance(e, ast.FormattedValue) else e for e in n.values]
        for x, vs in self.evs(nodes, st):
            parts = []
            deps = E
            for e, v in zip(n.values, vs):
                deps |= v.deps
                if v.is_const() and isinstance(v.const(), str) and \
                        not (isinstance(e, ast.FormattedValue) and e.format_spec):
                    parts.append(v.const())
                else:
                    parts.append(v.alts)
            out.append((x, V(mk_fmt(tuple(parts)), deps)))
        return out

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Lambda(self, n, st):
        return [(st, self.closure(self.nested_fn(n), st))]

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Slice(self, n, st):
        out = []
        for x, vs in self.evs([n.lower, n.upper, n.step], st):
            out.append((x, V(mk('sl', tuple(v.alts for v in vs)))))
        return out

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        out = []
        res = [(st, V(NONE))] if n.value is None else self.ev(n.value, st)
        ys = getattr(self, 'yield_stack', [])
        if ys and self.fn is not None and ys[-1][0] is self.fn:
            for x, v in res:
                fi, hook = ys.pop()
                try:
                    for q in hook(x, v):
                        out.append((q, V(NONE)))
                finally:
                    ys.append((fi, hook))
            return out
        for x, v in res:
            y = x.env.get('%yield')
            if y is not None:
                x = self.add_seg(x, y.objs()[0], Seg('one', v.dep(x.pc), None, self.site(n)), n)
            out.append((x, V(NONE)))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        for x, v in self.ev(n.value, st):
            y = x.env.get('%yield')
            if y is not None:
                for g in self.iter_segs(x, v, n):
                    x = self.add_seg(x, y.objs()[0], g, n)
            out.append((x, V(NONE)))
        return out

    # ---- comprehensions
    def comp(self, n, st, kind):
        """Evaluate comprehension via the loop machinery."""
        saved = st.env
        if kind == 'dict':
            st, acc = self.alloc(st, n, HObj('dict'))
        else:
            st, acc = self.new_list(st, n, (), kind='set' if kind == 'set' else 'list',
                                    unordered=(kind == 'set'))
        oid = acc.objs()[0]

        def gen(i, x):
            if i == len(n.generators):
                if kind == 'dict':
                    res = []
                    for y, (k, v) in self.evs([n.key, n.value], x):
                        if getattr(self.c, 'mark_filtered', False) and any(
                                not isinstance(c, ast.Name) or self.c.mark_filtered == 'all'
                                for g in n.generators for c in g.ifs):
                            v = V([mk('filtered', v.alts)], v.deps)
                        extra = y.loops[len(st.loops):]
                        if extra and self.slot_key(k) is not None and \
                                isinstance(self.slot_key(k), T) or self.slot_key(k) is None:
                            h = y.heap[oid].copy()
                            kd, vd = k.dep(y.pc), v.dep(y.pc)
                            h.other = (kd, vd) if h.other is None else (h.other[0].join(kd),
                                                                        h.other[1].join(vd))
                            y = y.sethobj(oid, h)
                        else:
                            y = self.set_item(y, acc, k, v.dep(y.pc), n)
                        res.append(y)
                    return res
                res = []
                for y, v in self.ev(n.elt, x):
                    if getattr(self.c, 'mark_filtered', False) and any(
                            not isinstance(c, ast.Name) or self.c.mark_filtered == 'all'
                            for g in n.generators for c in g.ifs):
                        v = V([mk('filtered', v.alts)], v.deps)
                    res.append(self.add_seg(y, oid, Seg('one', v.dep(y.pc), None,
                                                        self.site(n.elt)), n.elt))
                return res
            g = n.generators[i]
            outs = []
            for y, itv in self.merge_v(self.ev(g.iter, x)):
                def body(q, g=g, i=i):
                    sts = [q]
                    for c in g.ifs:
                        sts = [t for s in sts for t in self.branch(c, s)[0]]
                    r = []
                    for s in self.merge(sts):
                        r += gen(i + 1, s)
                    return r
                node = ast.copy_location(ast.For(target=g.target, iter=g.iter, body=[],
                                                 orelse=[]), n)
                node.col_offset = n.col_offset * 100 + i
                r = self.for_loop(node, y, itv, g.target, None, None, comp=body)
                outs += r.next
            return self.merge(outs)

        res = gen(0, st)
        out = []
        for x in self.merge(res):
            env = dict(saved)
            # walrus targets survive
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr) and w.target.id in x.env:
                    env[w.target.id] = x.env[w.target.id]
            out.append((x.with_(env=env, pc=st.pc), acc))
        return out

    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def add_seg(self, st, oid, seg, node):
        h = st.heap.get(oid)
        if h is None:
            return st
        n = h.copy()
        extra = st.loops[h.depth:]
        site = seg.site if seg.site is not None else self.site(node)
        if extra:
            src = tuple(x[1] for x in extra)
            if seg.kind == 'many' and seg.src is not None:
                src = src + (seg.src if isinstance(seg.src, tuple) else (seg.src,))
            site = ('L', site)
            for i, g in enumerate(n.segs):
                if g.site == site:
                    sg = list(n.segs)
                    v = g.v
                    nv = v.join(seg.v)
                    sg[i] = Seg('many', nv, src, site)
                    n.segs = tuple(sg)
                    return st.sethobj(oid, n)
            n.segs = n.segs + (Seg('many', seg.v, src, site),)
        else:
            if h.kind == 'set' and any(g.v == seg.v and g.kind == 'one' for g in n.segs):
                return st
            n.segs = n.segs + (Seg(seg.kind, seg.v, seg.src, site),)
        if len(n.segs) > 80:
            n.segs = (Seg('many', joinall(g.v for g in n.segs), None, 'collapsed'),)
        return st.sethobj(oid, n)

    # ------------------------------------------------------------------ conditions
    def compare(self, st, op, a, b):
        """-> (decision or None, canonical term, negated)."""
        neg = False
        if isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn, ast.LtE, ast.GtE)):
            neg = True
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            name = 'eq' if isinstance(op, (ast.Eq, ast.NotEq)) else 'is'
            d = self.eq_decide(st, a, b, name)
            la, lb = (a.alts, b.alts)
            if sorted(t.uid for t in la) > sorted(t.uid for t in lb):
                la, lb = lb, la
            term = mk(name, la, lb)
        elif isinstance(op, (ast.In, ast.NotIn)):
            d = self.in_decide(st, a, b)
            bb = b.alts
            items = self.static_items(st, b)
            if items is not None and not (b.is_const() and isinstance(b.const(), str)):
                bb = frozenset([mk('tup', tuple(i.alts for i in items))])
            term = mk('in', a.alts, bb)
        else:
            # lt canonical
            if isinstance(op, ast.Lt):
                x, y = a, b
            elif isinstance(op, ast.Gt):
                x, y = b, a
            elif isinstance(op, ast.LtE):   # a <= b  == not b < a
                x, y = b, a
            else:                            # a >= b  == not a < b
                x, y = a, b
            term = mk('lt', x.alts, y.alts)
            d = None
            if x.is_const() and y.is_const():
                try:
                    d = x.const() < y.const()
                except TypeError:
                    d = None
        if d is not None and neg:
            d = not d
        return d, term, neg

    def eq_decide(self, st, a, b, name):
        res = set()
        for x in a.alts:
            for y in b.alts:
                res.add(self.eq1(st, x, y, name))
        if res == {True}:
            return True
        if res == {False}:
            return False
        return None

    def eq1(self, st, x, y, name):
        if x.op == 'const' and y.op == 'const':
            if name == 'is' and (x.args[1] is None or y.args[1] is None):
                return x.args[1] is y.args[1]
            try:
                return x.args[1] == y.args[1]
            except Exception:
                return None
        known = ('obj', 'cls', 'func', 'bound', 'closure', 'mod', 'tup', 'fmt')
        for p, q in ((x, y), (y, x)):
            if p is NONE and (q.op in known or q.op == 'ext' and True):
                return False
            if p is NONE and q.op == 'call' and q.args[0] in ('str', 'list', 'int', 'float',
                                                              'range', 'open', 'dict', 'set'):
                return False
        if x.op == 'ext' and y.op == 'ext' or x.op == 'cls' and y.op == 'cls':
            if x is y:
                return True
            # distinct attributes of external modules: assume distinct only for types/consts
            return False
        if {x.op, y.op} == {'ext', 'cls'}:
            return False
        if x.op == 'obj' and y.op == 'obj' and name == 'is':
            return True if x is y else False
        return None

    def in_decide(self, st, a, b):
        text = b.is_const() and isinstance(b.const(), str)
        items = None if text else self.static_items(st, b)
        if items is not None:
            res = [self.eq_decide(st, a, i, 'eq') for i in items]
            if any(r is True for r in res):
                return True
            if all(r is False for r in res):
                return False
            return None
        if a.is_const() and b.is_const() and isinstance(b.const(), str) and \
                isinstance(a.const(), str):
            return a.const() in b.const()
        t = b.one
        if t is not None and t.op == 'obj':
            h = st.heap.get(t.args[0])
            if h is not None and h.kind == 'dict' and h.root is None:
                k = self.slot_key(a)
                if k is not None and k in h.slots and h.slots[k][1]:
                    return True
                if a.is_const() and h.other is None and k not in h.slots and \
                        not any(isinstance(z, T) for z in h.slots):
                    return False
        if t is not None and t.op == 'static':
            node, module = self.static_node(t)
            ks = None
            if isinstance(node, ast.Dict):
                ks = [self.const_expr(k, module) for k in node.keys]
            elif isinstance(node, (ast.List, ast.Set)):
                ks = [self.const_expr(k, module) for k in node.elts]
            if ks is not None and a.is_const() and all(k is not None and k.is_const()
                                                       for k in ks):
                return a.const() in [k.const() for k in ks]
        return None

    def truth(self, st, v):
        res = set()
        for t in v.alts:
            r = None
            if t.op == 'const':
                r = bool(t.args[1])
            elif t.op == 'obj':
                h = st.heap.get(t.args[0])
                if h is not None and h.root is None and h.kind in ('list', 'set'):
                    if not h.segs:
                        r = False
                    elif any(g.kind == 'one' for g in h.segs):
                        r = True
                elif h is not None and h.root is None and h.kind == 'dict':
                    if not h.slots and h.other is None:
                        r = False
                    elif any(m for _, m in h.slots.values()):
                        r = True
                elif h is not None and h.kind == 'inst' and isinstance(h.cls, ClassInfo) and \
                        self.p.find_method(h.cls, '__len__') is None and \
                        self.p.find_method(h.cls, '__bool__') is None and \
                        not self.p.ext_bases(h.cls):
                    r = True
            elif t.op in ('cls', 'func', 'bound', 'closure', 'mod'):
                r = True
            elif t.op == 'tup':
                r = bool(t.args[0])
            elif t.op == 'fmt' and any(isinstance(p, str) and p for p in t.args[0]):
                r = True
            elif t.op == 'not':
                x = next(iter(t.args[0])) if len(t.args[0]) == 1 else None
                if x is not None and x in st.facts:
                    r = not st.facts[x]
            if r is None and t in st.facts:
                r = st.facts[t]
            if r is None:
                r = self.c.decide(self, st, (t, False))
            res.add(r)
        if res == {True}:
            return True
        if res == {False}:
            return False
        return None

    def branch(self, n, st, quiet=False):
        """-> (states where n is true, states where n is false), facts and refinements applied."""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.branch(n.operand, st, quiet)
            return f, t
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur = [st]
            done = []
            for e in n.values:
                nx = []
                for x in cur:
                    t, f = self.branch(e, x, quiet)
                    if isand:
                        nx += t
                        done += f
                    else:
                        nx += f
                        done += t
                cur = self.merge_pc(nx)
            return (cur, done) if isand else (done, cur)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            tr, fa = [], []
            for x, (a, b) in self.evs([n.left, n.comparators[0]], st):
                op = n.ops[0]
                d, term, neg = self.compare(x, op, a, b)
                deps = a.deps | b.deps
                vague = self.vague(a, b)
                if d is None and term in x.facts and not vague:
                    d = x.facts[term] != neg
                if d is None:
                    d = self.c.decide(self, x, (term, neg))
                self.event('cond', n, x, term=term, neg=neg, decided=d, a=a, b=b, op=op,
                           deps=deps)
                x = x.with_(pc=x.pc | deps)
                if d is not False:
                    for y in self.refine(x, n.left, op, a, b, True):
                        tr.append(y if vague else y.fact(term, not neg))
                if d is not True:
                    for y in self.refine(x, n.left, op, a, b, False):
                        fa.append(y if vague else y.fact(term, neg))
            return tr, fa
        if isinstance(n, ast.Compare):
            # chain -> and of pairs
            parts = []
            l = n.left
            for op, r in zip(n.ops, n.comparators):
                parts.append(ast.copy_location(ast.Compare(l, [op], [r]), n))
                l = r
            return self.branch(ast.copy_location(ast.BoolOp(ast.And(), parts), n), st, quiet)
        tr, fa = [], []
        for x, v in self.ev(n, st):
            d = self.truth(x, v)
            t = v.one
            self.event('cond', n, x, term=t, neg=False, decided=d, a=v, b=None, op=None,
                       deps=v.deps)
            x = x.with_(pc=x.pc | v.deps)
            if d is not False:
                y = x
                if t is not None and t.op != 'const':
                    y = self.assume(y, t, True)
                y = self.refine_truth(y, n, v, True)
                if y is not None:
                    tr.append(y)
            if d is not True:
                y = x
                if t is not None and t.op != 'const':
                    y = self.assume(y, t, False)
                y = self.refine_truth(y, n, v, False)
                if y is not None:
                    fa.append(self.c.falsy(self, y, n, v))
        return tr, fa

    def assume(self, st, t, val):
        """Record a condition term as holding (not holding), looking through not / and."""
        st = st.fact(t, val)
        if t.op == 'not' and len(t.args[0]) == 1:
            return self.assume(st, next(iter(t.args[0])), not val)
        if t.op == 'and' and val:
            for x in t.args[0]:
                st = self.assume(st, x, True)
        if t.op in ('all', 'any') and val == (t.op == 'all'):
            for kind, alts, _ in t.args[0]:
                if kind == 'one' and len(alts) == 1 and next(iter(alts)).op != 'const':
                    st = self.assume(st, next(iter(alts)), val)
        if t.op == 'or' and not val:
            for x in t.args[0]:
                st = self.assume(st, x, False)
        return st

    def merge_pc(self, sts):
        """Merge keeping the union of control dependencies (short-circuit operands)."""
        if len(sts) <= 1:
            return sts
        pc = frozenset().union(*[s.pc for s in sts])
        return self.merge([s.with_(pc=pc) for s in sts])

    def refine_truth(self, st, n, v, val):
        keep = [t for t in v.alts if self.truth(st, V(t)) is not (not val)]
        if not keep:
            return None
        if isinstance(n, (ast.Name, ast.Attribute)) and len(keep) < len(v.alts):
            return self.store_refined(st, n, V(keep, v.deps))
        return st

    def store_refined(self, st, n, v):
        if isinstance(n, ast.Name) and n.id in st.env:
            return st.setvar(n.id, v)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                n.value.id in st.env:
            b = st.env[n.value.id].one
            if b is not None and b.op == 'obj':
                h = st.heap.get(b.args[0])
                if h is not None and n.attr in h.slots:
                    c = h.copy()
                    c.slots[n.attr] = (v, h.slots[n.attr][1])
                    return st.sethobj(b.args[0], c)
        return st

    def refine(self, st, n, op, a, b, val):
        """Filter the alternatives of the left operand by the comparison."""
        if isinstance(n, ast.NamedExpr):
            n = n.target
        if not isinstance(n, (ast.Name, ast.Attribute)):
            return [st]
        positive = val if isinstance(op, (ast.Eq, ast.Is, ast.In)) else \
            (not val if isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn)) else None)
        if positive is None:
            return [st]
        keep = []
        if isinstance(op, (ast.In, ast.NotIn)):
            items = None if b.is_const() and isinstance(b.const(), str) else \
                self.static_items(st, b)
            if items is None:
                return [st]
            for t in a.alts:
                d = [self.eq_decide(st, V(t), i, 'eq') for i in items]
                m = True if True in d else (False if all(x is False for x in d) else None)
                if positive and m is not False or not positive and m is not True:
                    if positive and m is None and t.op not in ('const',) and \
                            all(i.is_const() for i in items) and t.op != 'loopvar':
                        keep += [i.one for i in items]
                    else:
                        keep.append(t)
        else:
            name = 'eq' if isinstance(op, (ast.Eq, ast.NotEq)) else 'is'
            for t in a.alts:
                m = self.eq_decide(st, V(t), b, name)
                if positive and m is not False:
                    if m is None and b.is_const() and t.op not in ('obj',):
                        keep.append(b.one)
                    else:
                        keep.append(t)
                elif not positive and m is not True:
                    keep.append(t)
        if not keep:
            return []
        if frozenset(keep) == a.alts:
            return [st]
        return [self.store_refined(st, n, V(keep, a.deps))]

    # ------------------------------------------------------------------ calls
    def ev_args(self, n, st):
        """-> list of (state, ([V], {name: V}))"""
        nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args]
        nodes += [k.value for k in n.keywords]
        out = []
        for x, vs in self.evs(nodes, st):
            av = []
            for a, v in zip(n.args, vs):
                if isinstance(a, ast.Starred):
                    items = self.static_items(x, v)
                    if items is not None:
                        av += items
                    else:
                        e, _ = self.elem_of(x, v, n)
                        av.append(StarV(e if e is not None else V(TOP), v))
                else:
                    av.append(v)
            kv = {}
            for k, v in zip(n.keywords, vs[len(n.args):]):
                if k.arg is None:
                    t = v.one
                    h = x.heap.get(t.args[0]) if t is not None and t.op == 'obj' else None
                    if h is not None and h.kind == 'dict':
                        for kk, (vv, m) in h.slots.items():
                            if isinstance(kk, str):
                                kv[kk] = vv
                        if h.other:
                            kv['**'] = h.other[1]
                    else:
                        kv['**'] = v
                else:
                    kv[k.arg] = v
            out.append((x, (av, kv)))
        return out

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in st.env:
            return self.e_super(n, st)
        out = []
        for x, fv in self.ev(n.func, st):
            out += self.call_value(n, x, fv)
        return self.merge_v(out)

    def call_value(self, n, st, fv):
        out = []
        for x, (av, kv) in self.ev_args(n, st):
            for t in sorted(fv.alts):
                out += self.call1(n, x, t, av, kv, fv.deps)
        return self.merge_v(out)

    def e_super(self, n, st):
        f = self.fn
        while f.parent is not None and f.cls is None:
            f = f.parent
        selfv = st.env.get(f.params[0]) if f.params else None
        after = f.cls
        if n.args:
            for x, v in self.ev(n.args[0], st):
                t = v.one
                if t is not None and t.op == 'cls':
                    after = t.args[0]
        if selfv is None:
            return [(st, V(TOP))]
        res = []
        for t in selfv.alts:
            if t.op == 'obj':
                h = st.heap.get(t.args[0])
                if h is not None and isinstance(h.cls, ClassInfo):
                    res.append(V(mk('super', h.cls, after, t)))
            elif t.op == 'cls':
                res.append(V(mk('super', t.args[0], after, t)))
        return [(st, joinall(res, V(TOP)))]

    def callee_fi(self, t):
        if t.op == 'func':
            return t.args[0]
        if t.op == 'bound':
            return t.args[0]
        if t.op == 'closure':
            return self.fn_table[t.args[0]][0]
        return None

    def can_inline(self, fi, st, args):
        if len(self.fstack) >= self.c.max_depth:
            return False
        if sum(1 for f in self.fstack if f is fi) >= self.c.recursion:
            return False
        return self.c.inline(fi, st, args) or self.c.inline_small and self.p.fragment(fi)

    def call1(self, n, st, t, av, kv, fdeps):
        self.ncalls += 1
        name = None
        fi = None
        args = av
        if t.op in ('func', 'bound', 'closure'):
            fi = self.callee_fi(t)
            if t.op == 'bound':
                args = [V(t.args[1])] + av
            name = fi.qual
        elif t.op == 'cls':
            name = t.args[0].qual
        elif t.op == 'ext':
            name = t.args[0]
        elif t.op == 'attr':
            name = '.' + t.args[1]
        elif t.op == 'bmeth':
            name = '.' + t.args[0]
        elif t.op == 'extmeth':
            name = 'super().' + t.args[0]
        else:
            name = '?'
        if not self.c.no_implicit(name):
            self.may_raise(st, n)
        fnv = V(t, fdeps)
        r = self.c.call(self, st, n, name, t, args, kv)
        if r is not None:
            self.event('call', n, st, name=name, fn=t, args=args, kwargs=kv, inlined=False,
                       fdeps=fdeps, result=r[0][1] if r else None)
            return r
        if fi is not None:
            if self.can_inline(fi, st, args):
                self.event('call', n, st, name=name, fn=t, args=args, kwargs=kv, inlined=True,
                           fdeps=fdeps, result=None)
                return self.inline(fi, st, args, kv, n, closure=t if t.op == 'closure' else None,
                                   deps=fdeps)
            v = self.opaque_call(st, name, args, kv)
            self.event('call', n, st, name=name, fn=t, args=args, kwargs=kv, inlined=False,
                       fdeps=fdeps, result=v)
            return [(st, v.dep(fdeps))]
        if t.op == 'cls':
            ci = t.args[0]
            self.event('call', n, st, name=name, fn=t, args=args, kwargs=kv, inlined=True,
                       fdeps=fdeps, result=None)
            return self.construct(n, st, ci, av, kv)
        if t.op == 'bmeth':
            return self.container_method(n, st, t.args[0], t.args[1], av, kv, fdeps)
        if t.op == 'attr':
            return self.sym_method(n, st, t, av, kv, fdeps)
        if t.op == 'ext':
            return self.ext_call(n, st, name, av, kv, fdeps)
        if t.op == 'const' and t.args[1] is None:
            self.raise_(st, {'TypeError'}, n, True)
            return []
        v = self.opaque_call(st, name, args, kv, extra=t)
        self.event('call', n, st, name=name, fn=t, args=args, kwargs=kv, inlined=False,
                   fdeps=fdeps, result=v)
        return [(st, v.dep(fdeps))]

    def opaque_call(self, st, name, args, kv, extra=None):
        deps = E
        for a in list(args) + list(kv.values()):
            deps |= self.deep_deps(st, a)
        at = tuple(a.alts for a in args)
        kt = tuple(sorted((k, v.alts) for k, v in kv.items()))
        if extra is not None:
            name = name + '#' + str(extra.uid)
        return V(mk('call', name, at, tuple(kt)), deps)

    def construct(self, n, st, ci, av, kv):
        st, v = self.alloc(st, n, HObj('inst', cls=ci), extra=ci.qual)
        init = self.p.find_method(ci, '__init__')
        if init is None:
            # e.g. subclass of an external class
            return [(st, v)]
        if not self.can_inline(init, st, [v] + av):
            oid = v.objs()[0]
            h = st.heap[oid].copy()
            deps = E
            for a in av + list(kv.values()):
                deps |= a.deps
            h.root = 'new:' + ci.name
            st = st.sethobj(oid, h)
            return [(st, v.dep(deps))]
        return [(x, v) for x, _ in self.inline(init, st, [v] + av, kv, n)]

    def bind(self, fi, st, args, kv, node):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        used = 0
        rest = []
        star = None
        for i, v in enumerate(args):
            if isinstance(v, StarV):
                star = v
                break
            if i < len(pos):
                env[pos[i]] = v
            else:
                rest.append(v)
        if star is not None:
            for p in pos:
                if p not in env and p not in kv:
                    env[p] = star
        extra = {}
        for k, v in kv.items():
            if k == '**':
                continue
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                extra[k] = v
        # defaults
        dflt = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
            [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in dflt:
            if p not in env:
                v = self.const_expr(d, fi.module)
                if v is None:
                    if isinstance(d, (ast.List, ast.Dict, ast.Set)) and not ast.unparse(d).strip(
                            '[]{}() ') and not getattr(self.c, 'defaults_kept', False):
                        oid = ('default', fi.qual, p)
                        if oid not in st.heap:
                            kind = {'List': 'list', 'Dict': 'dict', 'Set': 'set'}[
                                type(d).__name__]
                            st = st.sethobj(oid, HObj(kind, site=oid))
                        v = V(mk('obj', oid))
                    else:
                        v = V(mk('default', fi.qual, p, ast.unparse(d)))
                if '**' in kv:
                    v = v.join(V(mk('elem', kv['**'].alts), kv['**'].deps))
                env[p] = v
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                if '**' in kv:
                    env[p] = V(mk('item', next(iter(sorted(kv['**'].alts))), const(p)),
                               kv['**'].deps)
                else:
                    env[p] = V(mk('missing', fi.qual, p))
        if a.vararg:
            st, v = self.new_list(st, fi.node, [Seg('one', r, None, ('va', i))
                                                for i, r in enumerate(rest)] +
                                  ([Seg('many', star, None, ('va', '*'))] if star is not None
                                   else []), extra='vararg')
            env[a.vararg.arg] = v
        if a.kwarg:
            h = HObj('dict', slots={k: (v, True) for k, v in extra.items()})
            st, v = self.alloc(st, fi.node, h, extra='kwarg')
            if '**' in kv:
                st = self.dict_update(st, v, kv['**'], fi.node)
            env[a.kwarg.arg] = v
        return st, env

    def inline(self, fi, st, args, kv, node, closure=None, deps=E, cm=False):
        self.visited.add(fi.qual)
        pc0, loops0 = st.pc, st.loops
        self.fstack.append(fi)
        self.cstack.append(node)
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisBroken('analysis budget exhausted in %s' % fi)
        try:
            if any(isinstance(a, StarV) for a in args):
                pass
            st, env = self.bind(fi, st, list(args), kv, node)
            if closure is not None:
                env['%closure'] = V(closure)
            st = st.with_(env=env, stack=st.stack + ((st.env, st.pc),))
            if deps:
                st = st.with_(pc=st.pc | deps)
            if isinstance(fi.node, ast.Lambda):
                res = self.ev(fi.node.body, st)
            else:
                gen = fi.is_generator and not cm
                if gen:
                    st, yv = self.new_list(st, fi.node, (), extra='yield')
                    st = st.setvar('%yield', yv)
                o = self.block(fi.node.body, [st])
                res = list(o.ret)
                res += [(x, V(NONE, x.pc - pc0 if False else E)) for x in o.next]
                if gen:
                    res = [(x, yv) for x, _ in res]
        finally:
            self.fstack.pop()
            self.cstack.pop()
        out = []
        for x, v in res:
            e, pc = x.stack[-1]
            out.append((x.with_(env=e, pc=pc0, stack=x.stack[:-1], loops=loops0), v))
        return self.merge_v(out)

    # ---- containers
    def container_method(self, n, st, m, objt, av, kv, fdeps):
        oid = objt.args[0]
        h = st.heap.get(oid)
        base = V(objt)
        deps = fdeps
        for a in av:
            deps |= a.deps
        mut = m in MUTATORS
        if mut:
            st = self.event('mutate', n, st, target=base, how=m, args=av,
                            value=av[0] if av else None).st
        if h.kind in ('list', 'set'):
            if m in ('append', 'add'):
                v = av[0].dep(st.pc) if av else V(TOP)
                return [(self.add_seg(st, oid, Seg('one', v, None, self.site(n)), n), V(NONE))]
            if m in ('extend', 'update'):
                for a in av:
                    for g in self.iter_segs(st, a, n):
                        st = self.add_seg(st, oid, Seg(g.kind, g.v.dep(st.pc), g.src,
                                                       (self.site(n), g.site)), n)
                return [(st, V(NONE))]
            if m == 'insert' and len(av) == 2:
                c = h.copy()
                loop = bool(st.loops[h.depth:])
                sg = Seg('many' if loop else 'one', av[1].dep(st.pc), None, self.site(n))
                same = [i for i, g in enumerate(c.segs) if g.site == sg.site]
                if loop and same:
                    i = same[0]
                    c.segs = c.segs[:i] + (Seg('many', c.segs[i].v.join(sg.v), None, sg.site),) \
                        + c.segs[i + 1:]
                elif av[0].const(None) == 0:
                    c.segs = (sg,) + c.segs
                else:
                    c.segs = c.segs + (sg,)
                if len(c.segs) > 80:
                    c.segs = (Seg('many', joinall(g.v for g in c.segs), None, 'collapsed'),)
                return [(st.sethobj(oid, c), V(NONE))]
            if m in ('pop', 'remove', 'discard', 'clear', 'popitem'):
                el = joinall([g.v for g in h.segs], V(TOP))
                c = h.copy()
                if m == 'clear':
                    c.segs = ()
                elif m == 'pop' and h.kind == 'list' and all(g.kind == 'one' for g in h.segs) \
                        and h.segs and (not av or isinstance(av[0].const(None), int)):
                    i = av[0].const() if av else -1
                    if -len(h.segs) <= i < len(h.segs):
                        el = h.segs[i].v
                        sg = list(h.segs)
                        sg.pop(i)
                        c.segs = tuple(sg)
                else:
                    c.segs = tuple(Seg('opt' if g.kind == 'one' else g.kind, g.v, g.src, g.site)
                                   for g in h.segs)
                return [(st.sethobj(oid, c), el.dep(deps))]
            if m == 'sort':
                c = h.copy()
                c.unordered = False
                return [(st.sethobj(oid, c), V(NONE))]
            if m == 'reverse':
                c = h.copy()
                c.segs = tuple(reversed(h.segs))
                return [(st.sethobj(oid, c), V(NONE))]
            if m in ('copy', 'union', 'difference', 'intersection', 'symmetric_difference'):
                segs = list(h.segs)
                if m == 'union':
                    for a in av:
                        segs += self.iter_segs(st, a, n)
                elif m != 'copy':
                    segs = [Seg('opt' if g.kind == 'one' else g.kind, g.v, g.src, g.site)
                            for g in segs]
                st, v = self.new_list(st, n, segs, kind=h.kind, unordered=h.unordered)
                return [(st, v.dep(deps))]
            if m in ('index', 'count'):
                v = V(mk('mcall', base.alts, m, tuple(a.alts for a in av)),
                      deps | self.deep_deps(st, base))
                return [(st, v)]
        if h.kind == 'dict':
            if m == 'get':
                d = av[1] if len(av) > 1 else V(NONE)
                v = self.dict_get(st, objt, h, av[0], n, default=d)
                return [(st, (v if v is not None else d).dep(deps))]
            if m == 'setdefault':
                d = av[1] if len(av) > 1 else V(NONE)
                key = self.slot_key(av[0])
                if key is not None and key in h.slots and h.slots[key][1]:
                    return [(st, h.slots[key][0].dep(deps))]
                if key is not None and key in h.slots:
                    j = h.slots[key][0].join(d)
                elif key is None or isinstance(key, T):
                    old = h.other[1] if h.other else None
                    j = d if old is None else old.join(d)
                else:
                    j = d
                c = h.copy()
                if key is not None:
                    c.slots[key] = (j, True)
                else:
                    c.other = (av[0], j) if c.other is None else (c.other[0].join(av[0]), j)
                return [(st.sethobj(oid, c), j.dep(deps))]
            if m == 'keys' or m == 'copy' and False:
                st, v = self.new_list(st, n, self.iter_segs(st, base, n), extra='keys')
                return [(st, v.dep(deps))]
            if m in ('values', 'items'):
                segs = []
                for k, (vv, must) in h.slots.items():
                    kv_ = C(k) if not isinstance(k, T) else V(k)
                    e = vv if m == 'values' else self.tup2(kv_, vv)
                    segs.append(Seg('one' if must else 'opt', e, None, ('k', str(k))))
                if h.other:
                    e = h.other[1] if m == 'values' else self.tup2(*h.other)
                    segs.append(Seg('many', e, frozenset([mk(m, objt)]), ('k', None)))
                if h.root is not None:
                    kk = mk('elem', frozenset([objt]))
                    e = V(mk('item', objt, kk)) if m == 'values' else \
                        self.tup2(V(kk), V(mk('item', objt, kk)))
                    segs.append(Seg('many', e.dep(frozenset([(h.root, '*')])),
                                    frozenset([objt]), ('k', '*')))
                st, v = self.new_list(st, n, segs, extra=m)
                return [(st, v.dep(deps))]
            if m == 'update':
                for a in av:
                    st = self.dict_update(st, base, a, n)
                for k, v in kv.items():
                    st = self.set_item(st, base, C(k), v, n)
                return [(st, V(NONE))]
            if m == 'copy':
                c = h.copy()
                st, v = self.alloc(st, n, c)
                return [(st, v.dep(deps))]
            if m == 'pop':
                v = self.dict_get(st, objt, h, av[0], n, default=av[1] if len(av) > 1 else None)
                c = h.copy()
                k = self.slot_key(av[0])
                if k in c.slots:
                    c.slots.pop(k)
                return [(st.sethobj(oid, c), (v or V(TOP)).dep(deps))]
        v = self.opaque_call(st, '.' + m, [base] + av, kv)
        self.event('call', n, st, name='.' + m, fn=mk('bmeth', m, objt), args=av, kwargs=kv,
                   inlined=False, fdeps=fdeps, result=v, recv=base)
        return [(st, v.dep(deps))]

    def tup2(self, a, b):
        if a.is_const() and b.is_const():
            return C((a.const(), b.const()), a.deps | b.deps)
        return V(mk('tup', (a.alts, b.alts)), a.deps | b.deps)

    def sym_method(self, n, st, t, av, kv, fdeps):
        base, m = t.args
        deps = fdeps
        for a in av + list(kv.values()):
            deps |= self.deep_deps(st, a)
        bv = V(base, fdeps)
        if m == 'format' and strish(base):
            parts = format_parts(base, av, kv)
            if parts is not None:
                v = V(mk_fmt(parts), deps)
                return [(st, v)]
        if base.op == 'const' and isinstance(base.args[1], str):
            cs = [a.const('?') if a.is_const() else '?' for a in av]
            if '?' not in cs and not kv and m in ('strip', 'lower', 'upper', 'split', 'replace',
                                                  'startswith', 'endswith', 'lstrip', 'rstrip',
                                                  'find', 'index', 'count', 'isdigit', 'title',
                                                  'rsplit', 'join', 'partition', 'rpartition',
                                                  'splitlines'):
                try:
                    r = getattr(base.args[1], m)(*cs)
                    if isinstance(r, list):
                        st, v = self.new_list(st, n, [Seg('one', C(x), None, ('s', i))
                                                      for i, x in enumerate(r)])
                        return [(st, v.dep(deps))]
                    return [(st, C(r, deps))]
                except Exception:
                    pass
        if m == 'join' and av and strish(base):
            segs = self.iter_segs(st, av[0], n)
            if base.op == 'const' and segs and all(g.kind == 'one' for g in segs):
                parts = ()
                for i, g in enumerate(segs):
                    if i:
                        parts += (base.args[1],)
                    parts += (g.v.alts,) if not (g.v.is_const() and
                                                 isinstance(g.v.const(), str)) \
                        else (g.v.const(),)
                v = V(mk_fmt(parts), deps)
            else:
                v = V(mk('join', base, tuple((g.kind, g.v.alts, g.src) for g in segs)), deps)
            return [(st, v)]
        if m in MUTATORS:
            st = self.event('mutate', n, st, target=bv, how=m, args=av,
                            value=av[0] if av else None).st
            td = st.pc
            for a in av:
                td |= self.deep_deps(st, a)
            st = self.taint(st, bv, td)
        # mapping views keep a handle on the mapping
        if m == 'keys' and not av:
            v = V(base, deps)
            return [(st, V(mk('call', 'dict.keys', (frozenset([base]),), ()), deps))]
        if m in ('items', 'values') and not av:
            k = mk('elem', frozenset([base]))
            val = st.sym.get((base, 'item', k)) or V(mk('item', base, k))
            e = val if m == 'values' else self.tup2(V(k), val)
            st, v = self.new_list(st, n, [Seg('many', e.dep(deps), frozenset([base]),
                                              ('it', base.uid))], extra=m)
            return [(st, v.dep(deps))]
        if m == 'get' and av:
            if len(av) > 1 or not kv:
                it = self.sym_item(st, base, av[0])
                if base.op == 'ext' and base.args[0] == 'os.environ':
                    it = it.dep(frozenset([('env', av[0].const('*'))]))
                d = av[1] if len(av) > 1 else V(NONE)
                v = it.join(d)
                self.event('call', n, st, name='.get', fn=t, args=av, kwargs=kv, inlined=False,
                           fdeps=fdeps, result=v, recv=bv)
                return [(st, v.dep(deps))]
        v = V(mk('mcall', frozenset([base]), m, tuple(a.alts for a in av),
                 tuple(sorted((k, x.alts) for k, x in kv.items()))), deps)
        self.event('call', n, st, name='.' + m, fn=t, args=av, kwargs=kv, inlined=False,
                   fdeps=fdeps, result=v, recv=bv)
        return [(st, v)]

    # ---- external / builtin calls
    def ext_call(self, n, st, name, av, kv, fdeps):
        deps = fdeps
        for a in av + list(kv.values()):
            deps |= a.deps
        f = getattr(self, 'x_' + name.replace('.', '_'), None)
        if f is not None and name in EXT_MODELS:
            r = f(n, st, av, kv, deps)
            if r is not None:
                self.event('call', n, st, name=name, fn=mk('ext', name), args=av, kwargs=kv,
                           inlined=False, fdeps=fdeps, result=r[0][1] if r else None)
                return r
        if name in ('sys.exit', 'exit', 'quit', 'os._exit'):
            self.event('call', n, st, name=name, fn=mk('ext', name), args=av, kwargs=kv,
                       inlined=False, fdeps=fdeps, result=None)
            self.raise_(st, {'SystemExit'}, n, False)
            return []
        v = self.opaque_call(st, name, av, kv)
        if name in IMPURE:
            v = V(mk('call', name, tuple(a.alts for a in av), (('#site', str(self.site(n))),)),
                  v.deps)
        self.event('call', n, st, name=name, fn=mk('ext', name), args=av, kwargs=kv,
                   inlined=False, fdeps=fdeps, result=v)
        return [(st, v.dep(deps))]

    def x_isinstance(self, n, st, av, kv, deps):
        if len(av) != 2:
            return None
        types = self.type_list(st, av[1])
        if types is None:
            return None
        res = set()
        for t in av[0].alts:
            res.add(self.isinst(st, t, types))
        if res == {True} or res == {False}:
            return [(st, C(res == {True}, deps))]
        tt = tuple(sorted(show_type(x) for x in types))
        cond = mk('isinstance', av[0].alts, tt)
        if cond in st.facts:
            return [(st, C(st.facts[cond], deps))]
        out = [(st, V(cond, deps))]
        return out

    def type_list(self, st, v):
        items = self.static_items(st, v)
        src = items if items is not None else [v]
        r = []
        for i in src:
            for t in i.alts:
                if t.op in ('ext', 'cls'):
                    r.append(t)
                else:
                    return None
        return r

    PYT = {'str': str, 'int': int, 'float': float, 'bool': bool, 'tuple': tuple, 'bytes': bytes}

    def isinst(self, st, t, types):
        for ty in types:
            if t.op == 'const':
                if ty.op == 'ext' and ty.args[0] in self.PYT:
                    if isinstance(t.args[1], self.PYT[ty.args[0]]):
                        return True
                    continue
                if ty.op == 'ext' and ty.args[0] in ('numbers.Number', 'numbers.Integral'):
                    if isinstance(t.args[1], (int, float)):
                        return True
                    continue
                continue
            if t.op in ('fmt', 'join'):
                if ty.op == 'ext' and ty.args[0] == 'str':
                    return True
                continue
            if t.op == 'tup':
                if ty.op == 'ext' and ty.args[0] == 'tuple':
                    return True
                continue
            if t.op == 'obj':
                h = st.heap.get(t.args[0])
                if h is None:
                    return None
                if h.kind in ('list', 'set', 'dict'):
                    if ty.op == 'ext' and ty.args[0] == h.kind:
                        return True
                    if ty.op == 'ext' and ty.args[0] not in self.PYT and \
                            ty.args[0] not in ('list', 'dict', 'set'):
                        return None
                    continue
                if isinstance(h.cls, ClassInfo):
                    if ty.op == 'cls' and ty.args[0] in self.p.mro(h.cls):
                        return True
                    if ty.op == 'ext' and ty.args[0].split('.')[-1] in \
                            [b.split('.')[-1] for b in self.p.ext_bases(h.cls)]:
                        return True
                    continue
                if isinstance(h.cls, str):
                    cn = h.cls.split(':')[-1]
                    if ty.op == 'ext' and (ty.args[0] == cn):
                        return True
                    if ty.op == 'ext' and ty.args[0].endswith('c_ast.Node') and \
                            '.c_ast.' in cn:
                        return True
                    continue
                return None
            return None
        return False

    def x_type(self, n, st, av, kv, deps):
        if len(av) != 1:
            return None
        vals = []
        for t in av[0].alts:
            if t.op == 'const':
                vals.append(V(mk('ext', t.args[0])))
            elif t.op in ('fmt', 'join'):
                vals.append(V(mk('ext', 'str')))
            elif t.op == 'tup':
                vals.append(V(mk('ext', 'tuple')))
            elif t.op == 'obj' and t.args[0] in st.heap:
                h = st.heap[t.args[0]]
                if h.kind == 'inst' and isinstance(h.cls, ClassInfo):
                    vals.append(V(mk('cls', h.cls)))
                elif h.kind == 'inst' and isinstance(h.cls, str):
                    vals.append(V(mk('ext', h.cls.split(':')[-1])))
                else:
                    vals.append(V(mk('ext', h.cls if h.cls == 'tuple' else h.kind)))
            else:
                vals.append(V(mk('call', 'type', (frozenset([t]),), ())))
        return [(st, joinall(vals).dep(deps))]

    def x_getattr(self, n, st, av, kv, deps):
        if len(av) < 2:
            return None
        ks = av[1].consts()
        if ks is None:
            # unknown member of a package: any of its __all__
            t = av[0].one
            if t is not None and t.op == 'mod':
                m = self.p.modules[t.args[0]]
                names = module_all(m)
                if names:
                    vs = []
                    for nm in names:
                        r = self.p.module_member(m, nm)
                        if r is not None:
                            vs.append(self.member_value(r, m, nm, st))
                    if vs:
                        return [(st, joinall(vs).dep(deps))]
            return [(st, V(mk('item', av[0].one or TOP, av[1].one or TOP), deps))]
        out = []
        for k in ks:
            out += self.get_attr(st, av[0], k, n)
        if len(av) > 2:
            out = [(s, v.join(av[2])) for s, v in out] or [(st, av[2])]
        return self.merge_v([(s, v.dep(deps)) for s, v in out])

    def x_hasattr(self, n, st, av, kv, deps):
        k = av[1].const(None) if len(av) > 1 else None
        t = av[0].one
        if isinstance(k, str) and t is not None and t.op == 'obj' and t.args[0] in st.heap:
            h = st.heap[t.args[0]]
            if k in h.slots and h.slots[k][1]:
                return [(st, C(True, deps))]
            if isinstance(h.cls, ClassInfo):
                if self.p.find_method(h.cls, k) or self.p.find_class_attr(h.cls, k):
                    return [(st, C(True, deps))]
                if h.root is None and k not in h.slots and not self.p.ext_bases(h.cls):
                    return [(st, C(False, deps))]
            elif isinstance(h.cls, str) and h.cls.startswith('closed:'):
                return [(st, C(k in h.slots, deps))]
        return None

    def x_setattr(self, n, st, av, kv, deps):
        k = av[1].const(None)
        if isinstance(k, str):
            return [(s, V(NONE)) for s in self.set_attr(st, av[0], k, av[2], n)]
        st = self.event('setattr', n, st, base=av[0], name=None, value=av[2]).st
        return [(self.taint(st, av[0], self.deep_deps(st, av[2]) | st.pc, True), V(NONE))]

    def seq_copy(self, n, st, av, deps, kind, unordered=None, rev=False, clear=False):
        segs = self.iter_segs(st, av[0], n) if av else []
        u = False
        for t in (av[0].alts if av else ()):
            if t.op == 'obj' and t.args[0] in st.heap and (
                    st.heap[t.args[0]].unordered or st.heap[t.args[0]].kind == 'set'):
                u = True
        if rev:
            segs = list(reversed(segs))
        if clear:
            u = False
        if kind == 'set':
            u = True
        st, v = self.new_list(st, n, segs, kind=kind, unordered=u)
        return [(st, v.dep(deps))]

    def x_list(self, n, st, av, kv, deps):
        t = av[0].one if av else None
        if t is not None and t.op not in ('obj', 'tup', 'const'):
            segs = self.iter_segs(st, av[0], n)
            st, v = self.new_list(st, n, segs)
            return [(st, v.dep(deps))]
        return self.seq_copy(n, st, av, deps, 'list')

    def x_tuple(self, n, st, av, kv, deps):
        if not av:
            return [(st, C(()))]
        items = self.static_items(st, av[0])
        if items is not None:
            if all(i.is_const() for i in items):
                return [(st, C(tuple(i.const() for i in items), deps))]
            d = deps
            for i in items:
                d |= i.deps
            return [(st, V(mk('tup', tuple(i.alts for i in items)), d))]
        r = self.seq_copy(n, st, av, deps, 'list')
        out = []
        for s, v in r:
            t = v.one
            if t is not None and t.op == 'obj' and s.heap[t.args[0]].cls is None:
                h = s.heap[t.args[0]].copy()
                h.cls = 'tuple'
                s = s.sethobj(t.args[0], h)
            out.append((s, v))
        return out

    def x_set(self, n, st, av, kv, deps):
        return self.seq_copy(n, st, av, deps, 'set')

    x_frozenset = x_set

    def x_sorted(self, n, st, av, kv, deps):
        segs = self.iter_segs(st, av[0], n)
        d = deps
        st, v = self.new_list(st, n, [Seg(g.kind, g.v, g.src, g.site) for g in segs])
        return [(st, v.dep(d))]

    def x_reversed(self, n, st, av, kv, deps):
        return self.seq_copy(n, st, av, deps, 'list', rev=True)

    def x_iter(self, n, st, av, kv, deps):
        return [(st, av[0].dep(deps))]

    def x_next(self, n, st, av, kv, deps):
        e, _ = self.elem_of(st, av[0], n)
        if len(av) > 1:
            e = av[1] if e is None else e.join(av[1])
        return [(st, (e or V(TOP)).dep(deps))]

    def x_enumerate(self, n, st, av, kv, deps):
        start = av[1] if len(av) > 1 else kv.get('start', C(0))
        segs = self.iter_segs(st, av[0], n)
        out = []
        exact = all(g.kind == 'one' for g in segs) and isinstance(start.const(None), int)
        for i, g in enumerate(segs):
            ix = C(start.const() + i) if exact else V(mk('idx', av[0].alts, start.alts))
            out.append(Seg(g.kind, self.tup2(ix, g.v), g.src, g.site))
        st, v = self.new_list(st, n, out)
        return [(st, v.dep(deps))]

    def x_zip(self, n, st, av, kv, deps):
        lists = [self.iter_segs(st, a, n) for a in av]
        if not lists:
            return None
        if all(all(g.kind == 'one' for g in l) for l in lists):
            m = min(len(l) for l in lists)
            segs = []
            for i in range(m):
                els = [l[i].v for l in lists]
                d = frozenset().union(*[e.deps for e in els])
                segs.append(Seg('one', V(mk('tup', tuple(e.alts for e in els)), d), None,
                                ('z', i)))
        else:
            els = [joinall([g.v for g in l], V(TOP)) for l in lists]
            d = frozenset().union(*[e.deps for e in els])
            src = frozenset().union(*[g.src for l in lists for g in l if
                                      isinstance(g.src, frozenset)])
            segs = [Seg('many', V(mk('tup', tuple(e.alts for e in els)), d), src or None,
                        ('z', '*'))]
        st, v = self.new_list(st, n, segs)
        return [(st, v.dep(deps))]

    def x_dict(self, n, st, av, kv, deps):
        st, v = self.alloc(st, n, HObj('dict'))
        ev0 = len(self.events)
        if av:
            st = self.dict_update(st, v, av[0], n)
        for k, x in kv.items():
            if k != '**':
                st = self.set_item(st, v, C(k), x, n)
        del self.events[ev0:]
        return [(st, v.dep(deps))]

    x_collections_OrderedDict = x_dict

    def x_collections_defaultdict(self, n, st, av, kv, deps):
        st, v = self.alloc(st, n, HObj('dict'))
        oid = v.objs()[0]
        h = st.heap[oid].copy()
        h.cls = 'collections.defaultdict'
        f = av[0].one if av else None
        if f is not None and f.op == 'ext' and f.args[0] in ('list', 'set', 'dict'):
            st, el = self.alloc(st, n, HObj(f.args[0], unordered=f.args[0] == 'set'), extra='dd')
            h.other = (V(mk('ddkey', str(oid))), el)
        else:
            h.other = (V(mk('ddkey', str(oid))), V(mk('dddefault', str(oid))))
        st = st.sethobj(oid, h)
        return [(st, v.dep(deps))]

    def x_copy_deepcopy(self, n, st, av, kv, deps):
        t = av[0].one
        if t is not None and t.op == 'obj':
            memo = {}
            st, v = self.deep_copy(st, av[0], n, memo)
            return [(st, v.dep(deps))]
        if t is not None and t.op == 'const':
            return [(st, av[0])]
        v = self.opaque_call(st, 'copy.deepcopy', av, kv)
        return [(st, V(mk('call', 'copy.deepcopy', (av[0].alts,),
                          (('#site', str(self.site(n))),)), v.deps).dep(deps))]

    def deep_copy(self, st, v, n, memo):
        alts = set()
        for t in v.alts:
            if t.op == 'obj' and t.args[0] in st.heap:
                oid = t.args[0]
                if oid in memo:
                    alts.add(mk('obj', memo[oid]))
                    continue
                noid = self.site(n, ('deepcopy', len(memo)))
                memo[oid] = noid
                h = st.heap[oid].copy()
                st = st.sethobj(noid, h)
                for k, (vv, m) in list(h.slots.items()):
                    st, c = self.deep_copy(st, vv, n, memo)
                    h.slots[k] = (c, m)
                segs = []
                for g in h.segs:
                    st, c = self.deep_copy(st, g.v, n, memo)
                    segs.append(Seg(g.kind, c, g.src, g.site))
                h.segs = tuple(segs)
                if h.other:
                    st, b = self.deep_copy(st, h.other[1], n, memo)
                    h.other = (h.other[0], b)
                st = st.sethobj(noid, h)
                alts.add(mk('obj', noid))
            elif t.op == 'tup':
                parts = []
                for a in t.args[0]:
                    st, c = self.deep_copy(st, V(a), n, memo)
                    parts.append(c.alts)
                alts.add(mk('tup', tuple(parts)))
            elif t.op in ('const', 'ext', 'func', 'cls', 'fmt'):
                alts.add(t)
            else:
                alts.add(mk('call', 'copy.deepcopy', (frozenset([t]),),
                            (('#site', str(self.site(n))),)))
        return st, V(alts, v.deps)

    def x_copy_copy(self, n, st, av, kv, deps):
        t = av[0].one
        if t is not None and t.op == 'obj' and t.args[0] in st.heap:
            st, v = self.alloc(st, n, st.heap[t.args[0]].copy())
            return [(st, v.dep(deps))]
        return None

    def x_map(self, n, st, av, kv, deps):
        if len(av) != 2:
            return None
        segs = self.iter_segs(st, av[1], n)
        out = []
        for i, g in enumerate(segs):
            vs = []
            for t in av[0].alts:
                for s2, v in self.call1(n, st, t, [g.v], {}, av[0].deps):
                    st = s2
                    vs.append(v)
            if vs:
                out.append(Seg(g.kind, joinall(vs), g.src, g.site))
        st, v = self.new_list(st, n, out)
        return [(st, v.dep(deps))]

    def x_filter(self, n, st, av, kv, deps):
        if len(av) != 2:
            return None
        out = []
        for g in self.iter_segs(st, av[1], n):
            k = g.kind
            f = av[0].one
            tv = None
            if f is not None and (f is NONE or f.op == 'ext' and f.args[0] == 'bool'):
                tv = self.truth(st, g.v)
            if tv is False:
                continue
            out.append(Seg(k if tv or k != 'one' else 'opt', g.v, g.src, g.site))
        st, v = self.new_list(st, n, out)
        return [(st, v.dep(deps))]

    def x_sum(self, n, st, av, kv, deps):
        segs = self.iter_segs(st, av[0], n)
        start = av[1] if len(av) > 1 else kv.get('start')
        so = start.one if start is not None else None
        if so is not None and so.op == 'obj' and so.args[0] in st.heap:
            out = []
            for g in segs:
                inner = self.iter_segs(st, g.v, n)
                for q in inner:
                    out.append(Seg('many' if g.kind == 'many' else q.kind, q.v, q.src or g.src,
                                   (g.site, q.site)))
            st, v = self.new_list(st, n, out)
            return [(st, v.dep(deps))]
        d = deps
        for g in segs:
            d |= g.v.deps
        return [(st, V(mk('sum', tuple((g.kind, g.v.alts, g.src) for g in segs)), d))]

    def minmax(self, n, st, av, kv, deps, name):
        if len(av) == 1:
            segs = self.iter_segs(st, av[0], n)
            vs = [g.v for g in segs]
        else:
            vs = list(av)
        if 'default' in kv:
            vs.append(kv['default'])
        if not vs:
            return None
        if 'key' in kv:
            return [(st, joinall(vs).dep(deps))]
        d = deps
        for v in vs:
            d |= v.deps
        if all(v.is_const() for v in vs) and len(av) > 1:
            try:
                return [(st, C({'min': min, 'max': max}[name](v.const() for v in vs), d))]
            except TypeError:
                pass
        return [(st, V(mk(name, tuple(v.alts for v in vs)), d))]

    def x_min(self, n, st, av, kv, deps):
        return self.minmax(n, st, av, kv, deps, 'min')

    def x_max(self, n, st, av, kv, deps):
        return self.minmax(n, st, av, kv, deps, 'max')

    def x_any(self, n, st, av, kv, deps):
        segs = self.iter_segs(st, av[0], n)
        d = deps
        tv = []
        for g in segs:
            d |= g.v.deps
            tv.append((self.truth(st, g.v), g.kind))
        if any(t is True and k == 'one' for t, k in tv):
            return [(st, C(True, d))]
        if all(t is False for t, k in tv):
            return [(st, C(False, d))]
        return [(st, V(mk('any', tuple((g.kind, g.v.alts, g.src) for g in segs)), d))]

    def x_all(self, n, st, av, kv, deps):
        segs = self.iter_segs(st, av[0], n)
        d = deps
        tv = []
        for g in segs:
            d |= g.v.deps
            tv.append((self.truth(st, g.v), g.kind))
        if any(t is False and k == 'one' for t, k in tv):
            return [(st, C(False, d))]
        if all(t is True for t, k in tv):
            return [(st, C(True, d))]
        return [(st, V(mk('all', tuple((g.kind, g.v.alts, g.src) for g in segs)), d))]

    def x_len(self, n, st, av, kv, deps):
        t = av[0].one
        if t is not None:
            if t.op == 'tup':
                return [(st, C(len(t.args[0]), deps))]
            if t.op == 'const' and isinstance(t.args[1], (str, tuple)):
                return [(st, C(len(t.args[1]), deps))]
            if t.op == 'obj' and t.args[0] in st.heap:
                h = st.heap[t.args[0]]
                if h.kind == 'list' and all(g.kind == 'one' for g in h.segs) and not h.root:
                    return [(st, C(len(h.segs), deps))]
        return [(st, V(mk('call', 'len', (av[0].alts,), ()), deps))]

    def x_str(self, n, st, av, kv, deps):
        if not av:
            return [(st, C(''))]
        t = av[0].one
        if t is not None and t.op == 'const' and isinstance(t.args[1], (str, int)):
            return [(st, C(str(t.args[1]), deps))]
        if t is not None and t.op == 'fmt':
            return [(st, av[0].dep(deps))]
        d = deps | self.deep_deps(st, av[0])
        return [(st, V(mk_fmt((av[0].alts,)), d))]

    def x_int(self, n, st, av, kv, deps):
        if not av:
            return [(st, C(0))]
        t = av[0].one
        if t is not None and t.op == 'const':
            try:
                return [(st, C(int(t.args[1]), deps))]
            except Exception:
                return None
        return [(st, V(mk('call', 'int', (av[0].alts,), ()), deps))]

    def x_bool(self, n, st, av, kv, deps):
        if not av:
            return [(st, C(False))]
        t = self.truth(st, av[0])
        if t is not None:
            return [(st, C(t, deps))]
        return [(st, av[0].dep(deps))]

    def x_functools_reduce(self, n, st, av, kv, deps):
        segs = self.iter_segs(st, av[1], n) if len(av) > 1 else []
        d = deps
        if len(av) > 2:
            d |= av[2].deps
        f = av[0].one
        for g in segs:
            d |= g.v.deps
        fn = f.args[0] if f is not None and f.op == 'ext' else None
        if fn in ('operator.mul', 'operator.add') or f is not None and f.op == 'closure':
            # one symbolic application on elements keeps callbacks analysed
            if f.op == 'closure' and segs:
                e = joinall(g.v for g in segs)
                acc = e if len(av) < 3 else av[2].join(e)
                out = []
                for s2, v in self.call1(n, st, f, [acc, e], {}, E):
                    out.append((s2, v.join(acc).dep(d)))
                return self.merge_v(out)
        at = tuple((g.kind, g.v.alts, g.src) for g in segs)
        return [(st, V(mk('reduce', fn or 'fn', at, av[2].alts if len(av) > 2 else None), d))]

    def x_itertools_chain(self, n, st, av, kv, deps):
        segs = []
        for a in av:
            if isinstance(a, StarV):
                e, src = self.elem_of(st, a, n)
                if e is not None:
                    segs.append(Seg('many', e, src, self.site(n)))
            else:
                segs += self.iter_segs(st, a, n)
        st, v = self.new_list(st, n, segs)
        return [(st, v.dep(deps))]

    def x_range(self, n, st, av, kv, deps):
        return [(st, V(mk('call', 'range', tuple(a.alts for a in av), ()), deps))]

    def x_print(self, n, st, av, kv, deps):
        return [(st, V(NONE))]

    def x_os_path_join(self, n, st, av, kv, deps):
        parts = ()
        for i, a in enumerate(av):
            if isinstance(a, StarV):
                return None
            if i:
                parts += ('/',)
            c = a.const(None)
            parts += (c,) if isinstance(c, str) else (a.alts,)
        return [(st, V(mk_fmt(parts), deps))]

    def x_numbers_Number(self, n, st, av, kv, deps):
        return None


EXT_MODELS = {m[2:].replace('_', '.', 0): None for m in ()}
EXT_MODELS = {'isinstance', 'type', 'getattr', 'hasattr', 'setattr', 'list', 'tuple', 'set',
              'frozenset', 'sorted', 'reversed', 'iter', 'next', 'enumerate', 'zip', 'dict',
              'collections.OrderedDict', 'collections.defaultdict', 'copy.deepcopy', 'copy.copy',
              'map', 'filter', 'sum', 'min', 'max', 'any', 'all', 'len', 'str', 'int', 'bool',
              'functools.reduce', 'itertools.chain', 'range', 'print', 'os.path.join'}


class StarV(V):
    """Value standing for every element of a *args expansion of unknown length."""
    __slots__ = ('seq',)

    def __init__(self, v, seq):
        V.__init__(self, v.alts, v.deps | seq.deps)
        self.seq = seq


def module_all(m):
    ns = m.assigns.get('__all__')
    if ns and isinstance(ns[0], (ast.List, ast.Tuple)):
        return [e.value for e in ns[0].elts if isinstance(e, ast.Constant)]
    return None


def show_type(t):
    return t.args[0] if t.op == 'ext' else t.args[0].qual


def _find(segs, g):
    for s in segs:
        if s.site == g.site:
            return s
    return None


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    return ast.Subscript(t.value, t.slice, ast.Load())


OPN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%',
       'Pow': '**', 'BitOr': '|', 'BitAnd': '&', 'BitXor': '^', 'LShift': '<<', 'RShift': '>>',
       'MatMult': '@'}


def _opname(op):
    return OPN[type(op).__name__]


def strip_iter(t):
    """list(x), iter(x), tuple(x) ... iterate the same elements as x."""
    while t.op == 'call' and t.args[0] in ('dict.keys',) and len(t.args[1]) == 1 and \
            len(t.args[1][0]) == 1:
        t = next(iter(t.args[1][0]))
    return t


# ---- strings
def strish(t):
    return t.op in ('fmt', 'join') or t.op == 'const' and isinstance(t.args[1], str)


def fmt_parts(t):
    if t.op == 'const':
        return (t.args[1],) if isinstance(t.args[1], str) else None
    if t.op == 'fmt':
        return t.args[0]
    if t.op in ('obj', 'tup', 'cls', 'func', 'bound', 'closure', 'ext'):
        return None
    return (frozenset([t]),)


def mk_fmt(parts):
    out = []
    for p in parts:
        if isinstance(p, frozenset) and len(p) == 1:
            x = next(iter(p))
            if x.op == 'fmt':
                for q in x.args[0]:
                    _push(out, q)
                continue
            if x.op == 'const' and isinstance(x.args[1], (str, int)) and \
                    not isinstance(x.args[1], bool):
                _push(out, str(x.args[1]))
                continue
        _push(out, p)
    if len(out) == 1 and isinstance(out[0], str):
        return const(out[0])
    if not out:
        return const('')
    return mk('fmt', tuple(out))


def _push(out, p):
    if isinstance(p, str):
        if p == '':
            return
        if out and isinstance(out[-1], str):
            out[-1] += p
            return
    out.append(p)


def format_parts(base, av, kv):
    if base.op != 'const' or not isinstance(base.args[1], str):
        return None
    out = []
    auto = 0
    try:
        for lit, field, spec, conv in _string.Formatter().parse(base.args[1]):
            if lit:
                out.append(lit)
            if field is None:
                continue
            f = field.split('.')[0].split('[')[0]
            if f == '':
                v = av[auto] if auto < len(av) else None
                auto += 1
            elif f.isdigit():
                v = av[int(f)] if int(f) < len(av) else None
            else:
                v = kv.get(f)
            if v is None:
                star = [a for a in av if isinstance(a, StarV)]
                v = star[0] if star else V(TOP)
            if field != f or spec:
                out.append(frozenset([mk('fmtspec', v.alts, field[len(f):], spec or '')]))
            else:
                out.append(v.alts)
    except ValueError:
        return None
    return tuple(out)


def percent_parts(s, y):
    import re
    vals = None
    if y.op == 'tup':
        vals = [a for a in y.args[0]]
    elif y.op == 'const' and isinstance(y.args[1], tuple):
        vals = [frozenset([const(x)]) for x in y.args[1]]
    else:
        vals = [frozenset([y])]
    out = []
    pos = 0
    i = 0
    for m in re.finditer(r'%(?:\((\w+)\))?[-+ #0-9.*]*([a-zA-Z%])', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(2) == '%':
            out.append('%')
            continue
        out.append(vals[i] if i < len(vals) else frozenset([TOP]))
        i += 1
    out.append(s[pos:])
    return tuple(out)
