"""Entry states: root objects standing for arbitrary instances of the package's classes."""
import warnings
from .program import Program
from .interp import Interp, State, HObj, Client
from .terms import V, C, mk, const, E

warnings.filterwarnings('ignore', category=SyntaxWarning)


def root_inst(st, ci, name):
    oid = ('root', name)
    st = st.sethobj(oid, HObj('inst', cls=ci, root=name, site=oid))
    return st, V(mk('obj', oid))


def param(name):
    return V(mk('param', name), frozenset([('param', name)]))


def run_entry(it, st, fi, args, kwargs=None):
    """Abstractly run fi from st; -> (returns [(st, V)], raised [Raised])."""
    it.sinks.append([])
    res = it.inline(fi, st, args, kwargs or {}, fi.node)
    raised = it.sinks.pop()
    return res, raised
