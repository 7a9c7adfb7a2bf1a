"""Everything the protocol rules look at, computed once per run from the facts of /repo's current source."""
import facts as _facts
from facts import BuildFailed
import mir
import proto
from proto import *
from flow import *

CRATES = ['latke', 'saber', 'pqcrypto_dilithium', 'pqcrypto_traits', 'pqcrypto_internals']


class World:
    def __init__(self):
        self.dir = _facts.rust_facts()
        self.prog = mir.load(self.dir, CRATES)
        self.cache = {}
        self.undecided = []
        self.coverage = {}

    def memo(self, key, f):
        if key not in self.cache:
            self.cache[key] = f()
        return self.cache[key]

    # ---------------------------------------------------------- protocol sessions
    def sessions(self):
        """{(protocol, role): Session} with one retry after a failed call"""
        return self.memo('sessions', lambda: proto.sessions(self.prog, retry=True))

    def session(self, ty, role):
        return self.sessions().get((ty, role))

    def impls(self, trait):
        return self.memo('impls' + trait, lambda: proto.impls(self.prog, trait))

    def inherent(self, prefix):
        return self.memo('inh' + prefix, lambda: proto.inherent(self.prog, prefix))

    def eue(self, role, depth=3):
        d = self.inherent('eue_transform::Eue')
        if not {'new_session', 'run', 'finalize', 'is_done'} <= set(d):
            return None
        return self.memo(('eue', role, depth), lambda: Session(self.prog, 'eue', 'Eue', d, role, maxcalls=depth, retry=False))

    def latke(self, role, depth=3):
        d = self.inherent('latke::Latke')
        e = self.inherent('eue_transform::Eue')
        return self.memo(('latke', role, depth), lambda: Session(self.prog, 'latke', 'Latke', d, role, maxcalls=depth, opaque_fns=[v.path for v in e.values()]))

    def chip(self, role, depth=3):
        d = self.inherent('chip::Chip')
        return self.memo(('chip', role, depth), lambda: Session(self.prog, 'chip', 'Chip', d, role, maxcalls=depth))

    # ---------------------------------------------------------- single functions
    def call(self, fn, names, over=None, variant=None, opaque=(), crates=None):
        """all outcomes [(state, value, argument values)] of one function on symbolic arguments"""
        I = new_interp(self.prog, opaque=opaque) if crates is None else new_interp(self.prog, crates=crates, opaque=opaque)
        st = State()
        ov = dict(over or {})
        if variant:
            for i, n in enumerate(names):
                if n in ('mpk', 'cert', 'usk', 'msk', 'upk') and i < fn.argc:
                    t = fn.locals[i + 1]
                    r = t.k in ('ref', 'ptr')
                    v = specialise(I, st, t.elem if r else t, n, variant)
                    ov[n] = v
        args = args_for(I, st, fn, names, ov)
        try:
            outs = I.run(fn, args, st)
        except Exception as e:
            self.undecided.append('%s: %s' % (fn.path, e))
            return [], I
        return [(s, v, args) for s, v in outs], I


class Violation:
    def __init__(self, key, where, msg, detail=None):
        self.key, self.where, self.msg, self.detail = key, where, msg, detail or []
        import models
        self.unknown = sorted(models.UNKNOWN_STD)


class Report:
    """what one rule analysed"""

    def __init__(self):
        self.violations = []
        self.obligations = []      # (description, ok)
        self.undecided = []
        self.functions = set()
        self.info = {}
        self.nodes = 0

    def check(self, cond, key, where, msg, detail=None, ob=None, sure=False):
        """one obligation; sure: the failure is definite whatever a function without a model does"""
        self.obligations.append((ob or key, bool(cond)))
        if not cond:
            if not any(v.key == key for v in self.violations):
                self.violations.append(Violation(key, where, msg, detail))
                if sure:
                    self.violations[-1].unknown = []
        return cond

    def fail(self, key, where, msg, detail=None):
        return self.check(False, key, where, msg, detail)

    def session(self, s):
        """account for a session; False when the engine could not run it"""
        self.nodes += len(s.nodes)
        self.functions.update(k for k, _ in s.I.visited if isinstance(k, str))
        for p in s.problems:
            self.undecided.append('%s/%s: %s' % (s.ty, s.role, p))
        for p in s.I.incomplete[:5]:
            self.undecided.append('%s/%s: %s' % (s.ty, s.role, p))


def loc(fn):
    return '%s (%s)' % (fn.path, fn.span) if fn is not None else '?'
