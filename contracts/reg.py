"""registry of contracts (importable under both interpreters)"""
REG = []


class Contract(object):
    def __init__(self, fn, prop, name, fns, bounded, cases, opts, notes, conc):
        self.fn = fn
        self.prop = prop if isinstance(prop, (list, tuple)) else [prop]
        self.name = name
        self.fns = fns
        self.bounded = bounded
        self.cases = cases
        self.opts = opts
        self.notes = notes
        self.conc = conc            # also run on concrete inputs?

    @property
    def key(self):
        return '%s:%s' % (self.fn.__module__.split('.')[-1], self.fn.__name__)


def contract(prop, name, fns, bounded=None, cases=None, notes=(), conc=True, **opts):
    """prop: property id(s); fns: the repository functions whose contract this is;
    bounded: None, or the bound in words (then it is not counted as a proof);
    cases: structural case split, explored completely, one process each"""
    def deco(fn):
        REG.append(Contract(fn, prop, name, list(fns), bounded, cases or [None], opts, list(notes), conc))
        return fn
    return deco
