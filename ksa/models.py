"""Entry states for the performance models and predictors: constructed instances."""
from .interp import Interp, Client
from .roots import root_inst, param, run_entry
from .terms import V, mk


def kernel_machine(prog, st=None):
    from checks.p01 import kernel_state
    return kernel_state(prog, st)


def model_classes(prog):
    base = prog.cls('PerformanceModel')
    return sorted((c for c in prog.subclasses(base) if c is not base), key=lambda c: c.name)


class InitClient(Client):
    """Inlines what lives with the class; everything else stays an unknown instance."""

    def __init__(self, prog, ci):
        self.mods = {k.module.name for k in prog.mro(ci)}

    def inline(self, fi, st, args):
        return fi.module.name in self.mods


def model_state(prog, ci, client=None, st=None):
    """[(state, instance)] after constructing ci from an arbitrary kernel, machine and args."""
    st, kv, mv = kernel_machine(prog, st)
    st, sv = root_inst(st, ci, 'model')
    h = st.heap[('root', 'model')].copy()
    h.root = None
    st = st.sethobj(('root', 'model'), h)
    init = prog.find_method(ci, '__init__')
    if init is None or init.cls is None:
        return [(st, sv)], None
    it = Interp(prog, client or InitClient(prog, ci))
    pos = init.params[1:]
    args = [sv]
    for p in pos:
        args.append({'kernel': kv, 'machine': mv}.get(p, param(p)))
    kw = {a.arg: param(a.arg) for a in init.node.args.kwonlyargs}
    res, _ = run_entry(it, st, init, args, kw)
    return [(s, sv) for s, _ in res], it


def set_slot(st, oid, name, v):
    h = st.heap[oid].copy()
    if v is None:
        h.slots.pop(name, None)
    else:
        h.slots[name] = (v, True)
    return st.sethobj(oid, h)
