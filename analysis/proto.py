"""Abstract executions of every protocol: constructor, then the party's own steps with arbitrary
incoming messages, then completion query and finalize."""
from terms import *
from interp import Interp, State
import interp as _i

INIT = Agg('PartyRole', 0, 'Initiator', [])
RESP = Agg('PartyRole', 1, 'Responder', [])
ROLES = {'initiator': INIT, 'responder': RESP}

PAKES = ['Cake', 'Cpace', 'KcSpake2']
IBKES = ['FgIbkeC', 'IdHmqvC', 'IdSigDh', 'IdSigmaREd25519', 'IdSigmaRDilithium2']


def impls(prog, trait):
    """{type name: {method: Fn}} of a latke trait"""
    out = {}
    for f in prog.find('latke', lambda f: True):
        p = f.path
        if p.startswith('<') and (' as %s>::' % trait) in p and '{closure' not in p:
            ty = p[1:p.index(' as ')].split('::')[-1]
            m = p.split('>::')[-1]
            d = out.setdefault(ty, {})
            # the generic body (parameter R itself) is preferred over instantiations
            if m not in d or len(f.key) < len(d[m].key):
                d[m] = f
    return out


def inherent(prog, prefix):
    out = {}
    for f in prog.find('latke', lambda f: f.path.startswith(prefix) and '{closure' not in f.path):
        m = f.path.split('>::')[-1].split('::')[-1]
        if m not in out or len(f.key) < len(out[m].key):
            out[m] = f
    return out


class Trace:
    """one abstract execution: list of step records, final state"""

    def __init__(self, name, role, st, obj, recs):
        self.name, self.role, self.st, self.obj, self.recs = name, role, st, obj, recs


class Rec:
    """one call of run: step index, incoming term, outcome kind, outgoing message, error value"""

    def __init__(self, i, kind, msg, out, ev0, ev1, done=None, err=None):
        self.i, self.kind, self.msg, self.out, self.ev0, self.ev1, self.done, self.err = i, kind, msg, out, ev0, ev1, done, err


def payload(I, st, v, vn):
    """the one field of variant vn, as the interpreter itself would name it"""
    ty = None
    if v.ty is not None and v.ty.variants:
        for n, _, fs in v.ty.variants:
            if n == vn and fs:
                ty = fs[0][1]
    return I.mk(ty, T('fld', T('as', v, vn, ty=v.ty), '0', ty=ty), st) if ty is not None else T('fld', T('as', v, vn), '0')


def split_result(I, st, v):
    """[(state, 'ok'|'err', payload)] of a Result value"""
    if isinstance(v, Agg):
        return [(st, 'ok' if v.vn == 'Ok' else 'err', v.fs[0] if v.fs else UNIT)]
    out = []
    for d, n, vn in ((0, 'ok', 'Ok'), (1, 'err', 'Err')):
        s2 = st.copy()
        if I.assume(s2, T('discr', v), d):
            out.append((s2, n, payload(I, s2, v, vn)))
    return out


def split_option(I, st, v):
    if isinstance(v, Agg):
        return [(st, v.fs[0] if v.vn == 'Some' else None)]
    out = []
    s2 = st.copy()
    if I.assume(s2, T('discr', v), 0):
        out.append((s2, None))
    s2 = st.copy()
    if I.assume(s2, T('discr', v), 1):
        out.append((s2, payload(I, s2, v, 'Some')))
    return out


def msgval(I, st, name, empty=False):
    if empty:
        b = Bytes([])
    else:
        t = T('in', name)
        b = tb(t, T('len', t))
    return Ref(I.newobj(st, b))


def args_for(I, st, fn, names, over):
    """argument values of a constructor: by parameter position with symbolic names"""
    out = []
    for i in range(fn.argc):
        ty = fn.locals[i + 1]
        n = names[i] if i < len(names) else 'a%d' % i
        if n in over:
            v = over[n]
            if ty.k in ('ref', 'ptr') and not isinstance(v, Ref):
                v = Ref(I.newobj(st, v))
            out.append(v)
        else:
            out.append(I.mk(ty, T('param', n, ty=None), st))
    return out


class Node:
    """a reachable session state"""
    __slots__ = ('parent', 'kind', 'step', 'call', 'st', 'obj', 'out', 'err', 'msg', 'done', 'fin', 'nev', 'depth')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def events(self):
        """events of this call only"""
        e = self.st.events()
        return e[self.nev:]

    def allevents(self):
        return self.st.events()

    def chain(self):
        out = []
        n = self
        while n is not None:
            out.append(n)
            n = n.parent
        return out[::-1]


OPAQUE = ('saber', 'pqcrypto_dilithium', 'pqcrypto_traits', 'pqcrypto_internals')


def new_interp(prog, crates=OPAQUE, budget=400000, opaque=(), **k):
    return Interp(prog, opaque=opaque, opaque_crates=crates, budget=budget, **k)


def enum_of(ty, vn, payload):
    for vi, (n, d, fs) in enumerate(ty.variants):
        if n == vn:
            return Agg(ty.path, vi, n, payload, [f[0] for f in fs])
    return None


def specialise(I, st, ty, name, vn):
    """value of type ty in which every enum having a variant `vn` is that variant"""
    def go(t, term, d=0):
        if t is not None and t.k == 'adt' and t.enum and t.variants and vn in [v[0] for v in t.variants]:
            fs = [v for v in t.variants if v[0] == vn][0][2]
            return enum_of(t, vn, [I.mk(f[1], T('fld', T('as', term, vn), f[0], ty=f[1]), st) for f in fs])
        if t is not None and t.k == 'adt' and not t.enum and t.variants and d < 3 and not t.path.startswith(('std::', 'alloc::', 'core::')):
            fs = t.variants[0][2]
            if fs and any(f[1] is not None and f[1].k == 'adt' and f[1].enum for f in fs):
                return Agg(t.path, 0, t.variants[0][0], [go(f[1], T('fld', term, f[0], ty=f[1]), d + 1) for f in fs], [f[0] for f in fs])
        return I.mk(t, term, st)
    return go(ty, T('param', name, ty=ty))


class Session:
    """all abstract executions of one party of one protocol

    kind: 'pake' | 'ibke' | 'eue' | 'latke' | 'chip'
    retry: also call run again after a failed call (with a message of another name)"""

    NAMES = {
        'pake': ['rng', 'ssid', 'password', 'role'],
        'ibke': ['rng', 'ssid', 'mpk', 'cert', 'usk', 'role'],
        'eue': ['rng', 'ssid', 'mpk', 'cert', 'usk', 'role', 'initial_key'],
        'latke': ['rng', 'ssid', 'pwfile', 'role', 'peer'],
        'chip': ['rng', 'ssid', 'pwfile', 'role', 'other_id'],
    }

    def __init__(self, prog, kind, ty, methods, role, maxcalls=5, variant=None, budget=600000, retry=False, over=None, opaque_fns=()):
        self.prog, self.kind, self.ty, self.m, self.role = prog, kind, ty, methods, role
        self.I = I = new_interp(prog, budget=budget, opaque=opaque_fns)
        self.nodes = []
        self.problems = []
        st = State()
        self.ctor = ctor = methods['new'] if kind == 'pake' else methods['new_session']
        self.runfn = run = methods['run']
        names = self.NAMES[kind]
        if ctor.argc != len(names):
            self.problems.append('%s takes %d arguments' % (ctor.path, ctor.argc))
            return
        ov = {'role': ROLES[role]}
        ov.update(over or {})
        if variant:
            for i, n in enumerate(names):
                if n in ('mpk', 'cert', 'usk'):
                    ov[n] = specialise(I, st, ctor.locals[i + 1], n, variant)
        args = args_for(I, st, ctor, names, ov)
        self.args = dict(zip(names, args))
        self.reified = {k: I.reify(st, v) for k, v in self.args.items()}
        base = 0 if role == 'initiator' else 1
        work = []
        for s, v in self.attempt(ctor, args, st):
            o = I.newobj(s, v)
            n = Node(parent=None, kind='ctor', step=None, call=0, st=s, obj=o, nev=0, depth=0)
            self.nodes.append(n)
            work.append(n)
        while work:
            n = work.pop()
            self.query(n)
            if n.call >= maxcalls:
                continue
            if n.kind == 'err' and (not retry or n.depth):
                continue
            # the step this call stands for: a failed call leaves the party at the same step
            okcalls = len([x for x in n.chain() if x.kind == 'ok'])
            step = base + 2 * okcalls
            s = n.st.copy()
            a = [Ref(n.obj)]
            if kind != 'pake':
                a.append(I.mk(run.locals[2], T('param', 'rng%d%s' % (step, 'r' if n.kind == 'err' else '')), s))
            empty = role == 'initiator' and n.call == 0
            mname = 'm%d%s' % (step, 'r' if n.kind == 'err' else '')
            a.append(msgval(I, s, mname, empty=empty))
            nev = len(s.events())
            depth = n.depth + (1 if n.kind == 'err' else 0)
            for s2, v in self.attempt(run, a, s):
                outs = [(s2, 'ok', v)] if kind == 'latke' else split_result(I, s2, v)
                for s3, k, pl in outs:
                    if k == 'ok':
                        for s4, mm in split_option(I, s3, pl):
                            out = models_bytes(I, s4, mm) if mm is not None else None
                            c = Node(parent=n, kind='ok', step=step, call=n.call + 1, st=s4, obj=n.obj, out=out, msg=mname, nev=nev, depth=depth)
                            self.nodes.append(c)
                            work.append(c)
                    else:
                        c = Node(parent=n, kind='err', step=step, call=n.call + 1, st=s3, obj=n.obj, err=I.reify(s3, pl), msg=mname, nev=nev, depth=depth)
                        self.nodes.append(c)
                        work.append(c)

    def attempt(self, fn, args, st):
        try:
            return self.I.run(fn, args, st)
        except _i.Incomplete as e:
            self.problems.append('%s: %s' % (fn.path, e))
            return []
        except RecursionError:
            self.problems.append('%s: recursion' % fn.path)
            return []

    def query(self, n):
        n.done = []
        if 'is_done' in self.m:
            s = n.st.copy()
            for s2, v in self.attempt(self.m['is_done'], [Ref(n.obj)], s):
                n.done.append((s2, v))
        s = n.st.copy()
        n.fin = [(s2, self.I.reify(s2, v)) for s2, v in self.attempt(self.m['finalize'], [Ref(n.obj)], s)]

    def is_done(self, n):
        """True/False when known, else None"""
        vs = set(v for _, v in n.done)
        if vs == {1}:
            return True
        if vs == {0}:
            return False
        return None

    def completed(self):
        return [n for n in self.nodes if n.kind == 'ok' and self.is_done(n) and not (n.parent and self.is_done(n.parent))]


def models_bytes(I, st, v):
    import models
    b = models.as_bytes(I, st, v)
    if b is None and isinstance(v, (T, Agg)):
        b = tb(T('val', v), T('len', T('val', v)))
    return b


VARIANT = {'IdSigmaREd25519': 'Ed25519', 'IdSigmaRDilithium2': 'Dilithium2'}


def sessions(prog, kinds=('pake', 'ibke'), retry=False):
    out = {}
    for kind, trait in (('pake', 'Pake'), ('ibke', 'IdentityBasedKeyExchange')):
        if kind not in kinds:
            continue
        for ty, m in sorted(impls(prog, trait).items()):
            for role in ROLES:
                out[(ty, role)] = Session(prog, kind, ty, m, role, variant=VARIANT.get(ty), retry=retry)
    return out
