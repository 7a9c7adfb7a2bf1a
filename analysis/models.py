"""Transfer functions of library calls."""
import re
from terms import *
from collections import namedtuple

# functions whose result is not determined by their arguments
IMPURE = ('rand::thread_rng', 'rand::rngs::thread::thread_rng', 'rand::random')
IMPURE_PARTS = ('keygen_ind_cpa', 'encapsulate_ind_cpa', 'keygen_ind_cca', 'encapsulate_ind_cca', 'CPace::step1', 'CPace::step2',
                'keypair', 'OsRng', 'getrandom', 'randombytes')


class Call:
    __slots__ = ('I', 'fn', 'args', 'aty', 'rty', 'span', 'fr', 'depth', 'path', 'rpath', 'full', 'name')

    def __init__(self, I, fn, args, aty, rty, span, fr, depth):
        self.I, self.fn, self.args, self.aty, self.rty = I, fn, args, aty, rty
        self.span, self.fr, self.depth = span, fr, depth
        self.path = fn.get('path', '')
        self.rpath = fn.get('rpath') or ''
        self.full = fn.get('rfull') or fn.get('full') or ''
        self.name = fn.get('name', '')

    @property
    def where(self):
        return self.fr.fn.path if self.fr else '?'

    def deref(self, st, i=0):
        v = self.args[i]
        n = 0
        while isinstance(v, Ref) and n < 6:
            v = self.I.load(st, v.obj, v.path)
            n += 1
        return v

    def lastref(self, st, i=0):
        """innermost Ref of argument i"""
        v = self.args[i]
        while isinstance(v, Ref):
            x = self.I.load(st, v.obj, v.path)
            if not isinstance(x, Ref):
                return v
            v = x
        return v

    def bytes(self, st, i=0):
        """argument i as a byte rope, or None"""
        return as_bytes(self.I, st, self.deref(st, i))

    def ev(self, st, k, **d):
        from interp import Event
        st.log(Event(k, self.span, self.where, **d))

    def setref(self, st, ref, v):
        self.I.store(st, ref.obj, ref.path, v)

    def targ(self, i=0):
        ts = self.fn.get('targs') or []
        if i < len(ts) and self.fr is not None:
            return self.fr.fn.tys[ts[i]]
        return None


def as_bytes(I, st, v):
    if isinstance(v, Ref):
        return as_bytes(I, st, I.load(st, v.obj, v.path))
    if isinstance(v, Bytes):
        return v
    if isinstance(v, Seq):
        # sequence of byte-ish scalars
        if all(isinstance(x, (int, T, BV)) for x in v.vs):
            return norm([valseg(x) for x in v.vs])
        return None
    if isinstance(v, T):
        return I.bytes_of(v)
    if isinstance(v, Agg) and len(v.fs) == 1:
        return as_bytes(I, st, v.fs[0])
    if isinstance(v, Agg):
        b = T('bytes_of', T('val', v))
        return tb(b, T('len', b))
    return None


def tail(path):
    return path.split('::')[-1]


def strip(path):
    """path without generic arguments"""
    out = []
    d = 0
    i = 0
    while i < len(path):
        ch = path[i]
        if ch == '<':
            d += 1
        elif ch == '>' and path[i - 1:i + 1] != '->':
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.strip(':')


EXTCRATE = re.compile(r'\b(?!std\b|core\b|alloc\b)[a-z_][a-z0-9_]*(?=::[A-Za-z_{<])')
STDLIB = re.compile(r'^(std|core|alloc)::|^<')


def in_std(c):
    """the callee's body belongs to the standard library"""
    p = c.rpath or c.path or ''
    if not STDLIB.match(p):
        return False
    if p.startswith('<'):
        me = p[1:].split(' as ')[0]
        return not EXTCRATE.match(re.sub(r"^(&|mut |'\w+ |dyn |\[)*", '', me))
    return True


# panics, and arithmetic intrinsics (opaque but pure functions of their arguments)
KNOWN_STD = re.compile(r'core::slice::from_raw_parts(_mut)?|core::num::<impl u\w+>::next_power_of_two|.*unwrap_failed|.*expect_failed|.*::panicking::|.*slice_\w+_fail|(std|core)::intrinsics::(?!raw_eq|compare_bytes|copy|write|volatile|atomic|transmute|read|swap)')
UNKNOWN_STD = {}        # (since the rule started, or since the rule began to look at something independent) standard-library functions met without a model: what follows from them is not trusted


def opaque(c, st):
    """unknown callee: result and every mutable argument become terms over all inputs"""
    I = c.I
    path = c.rpath or c.path
    key = strip(path) or path
    if not (c.rpath or c.path):
        key = c.full
    vals = [I.reify(st, a) for a in c.args]
    targs = tuple(c.fr.fn.tys[i].s for i in (c.fn.get('targs') or [])) if c.fr is not None and c.fn.get('crate') not in ('latke',) else ()
    t = T('call', c.path or key, c.full, *[v if hasattr(v, '__hash__') else T('x') for v in vals])
    if is_impure(c):
        I.uid += 1
        t = T('fresh', c.path or key, I.uid, *[v if hasattr(v, '__hash__') else T('x') for v in vals])
    I.unmodelled[c.path] = I.unmodelled.get(c.path, 0) + 1
    if in_std(c) and not KNOWN_STD.match(c.rpath or c.path):
        UNKNOWN_STD[c.path] = c.rpath
    c.ev(st, 'call', path=c.path, rpath=c.rpath, full=c.full, args=tuple(vals), ret=t)
    if c.aty:
        for i, (a, ty) in enumerate(zip(c.args, c.aty)):
            if isinstance(a, Ref) and ty is not None and ty.k in ('ref', 'ptr') and ty.mut:
                old = I.load(st, a.obj, a.path)
                m = T('mut', t, i)
                havoc(I, st, a, old, m, ty.elem)
    diverges = c.rty is not None and c.rty.k == 'never'
    return [(st, UNIT if diverges else I.mk(c.rty, t, st))]


def havoc(I, st, ref, old, m, ty):
    if isinstance(old, Bytes):
        I.store(st, ref.obj, ref.path, tb(m, old.len))
    elif isinstance(old, Ref):
        inner = I.load(st, old.obj, old.path)
        havoc(I, st, old, inner, m, ty.elem if ty is not None and ty.elem is not None else None)
    elif isinstance(old, Seq):
        I.store(st, ref.obj, ref.path, Seq([T('idx', m, i, ty=getattr(x, 'ty', None)) for i, x in enumerate(old.vs)]))
    else:
        if isinstance(old, T) and old.ty is not None and m.ty is None:
            m.ty = old.ty
        elif m.ty is None:
            m.ty = ty
        I.store(st, ref.obj, ref.path, m)


def is_impure(c):
    p = c.path
    if p in IMPURE:
        return True
    t = tail(strip(p))
    if t in ('thread_rng', 'keygen_ind_cpa', 'encapsulate_ind_cpa', 'keygen_ind_cca', 'encapsulate_ind_cca', 'keypair', 'detached_sign_rand', 'from_entropy', 'from_os_rng'):
        return True
    if 'pake_cpace' in p and t in ('step1', 'step2'):
        return True
    return False


# ------------------------------------------------------------------------------------------------
TABLE = {}
RULES = []


def m(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def one(st, v):
    return [(st, v)]


def dispatch(c, st):
    p = c.path
    if p and FFI.search(p):
        return ffi_call(c, st)
    f = TABLE.get(p)
    if f is None:
        f = TABLE.get(strip(p))
    if f is None and c.rpath:
        f = TABLE.get(strip(c.rpath)) or TABLE.get(c.rpath)
    if f is None and p and p.startswith('alloc::'):
        f = TABLE.get('std::' + strip(p)[7:])
    if f is None and not c.fn.get('key'):
        tr = (c.fn.get('trait') or '').split('::')[-1]
        f = TABLE.get((tr, c.name))
    elif f is None and c.fn.get('key') and c.fn.get('key', '').startswith('core::'):
        tr = (c.fn.get('trait') or '').split('::')[-1]
        f = TABLE.get(('core', tr, c.name))
    if f is None:
        return None
    return f(c, st)


# ---------------------------------------------------------------- slices, arrays, vectors
def isseq(v):
    return isinstance(v, (Bytes, Seq))


def content(c, st, i=0):
    return c.deref(st, i)


def slice_ref(I, st, ref, off, ln):
    return Ref(ref.obj, I.addpath(tuple(ref.path), ('s', off, ln)))


def rlen(c, st, i=0):
    r = c.lastref(st, i)
    if isinstance(r, Ref):
        v = c.I.load(st, r.obj, r.path)
        if isinstance(v, T) and c.aty and c.aty[i] is not None:
            pass
        return c.I.length(st, r.obj, r.path)
    return c.I.vlen(r)


@m('core::slice::<impl [T]>::len', 'std::vec::Vec::len', 'alloc::vec::Vec::len', 'core::slice::len', 'std::string::String::len', 'core::str::<impl str>::len')
def _len(c, st):
    return one(st, rlen(c, st))


@m('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::is_empty', 'std::string::String::is_empty', 'core::str::<impl str>::is_empty')
def _is_empty(c, st):
    return one(st, c.I.compare('Eq', rlen(c, st), 0))


@m('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def _split_at(c, st):
    r = c.lastref(st)
    mid = c.args[1]
    n = rlen(c, st)
    if not isinstance(r, Ref):
        return None
    if not (c.I.require(st, lsub(n, mid)) and c.I.require(st, mid)):
        return []
    return one(st, tup(slice_ref(c.I, st, r, 0, mid), slice_ref(c.I, st, r, mid, lsub(n, mid))))


@m('core::slice::<impl [T]>::split_at_checked', 'core::slice::<impl [T]>::split_at_mut_checked')
def _split_at_checked(c, st):
    r = c.lastref(st)
    mid = c.args[1]
    n = rlen(c, st)
    out = []
    cond = c.I.compare('Lt', n, mid)
    s2 = st.copy()
    if c.I.assume(s2, cond, 0):
        out.append((s2, some(tup(slice_ref(c.I, s2, r, 0, mid), slice_ref(c.I, s2, r, mid, lsub(n, mid))))))
    s3 = st.copy()
    if c.I.assume(s3, cond, 1):
        out.append((s3, NONE))
    return out


@m('core::slice::<impl [T]>::first_chunk', 'core::slice::<impl [T]>::split_first_chunk', 'core::slice::<impl [T]>::last_chunk', 'core::slice::<impl [T]>::split_last_chunk')
def _first_chunk(c, st):
    k = (c.fn.get('cargs') or [None])[-1]
    if k is None:
        return None
    r = c.lastref(st)
    n = rlen(c, st)
    out = []
    cond = c.I.compare('Lt', n, k)
    s2 = st.copy()
    if c.I.assume(s2, cond, 0):
        lo = 0 if 'first' in c.name else lsub(n, k)
        chunk = slice_ref(c.I, s2, r, lo, k)
        rest = slice_ref(c.I, s2, r, k, lsub(n, k)) if 'first' in c.name else slice_ref(c.I, s2, r, 0, lsub(n, k))
        if 'split' in c.name:
            v = tup(chunk, rest) if 'first' in c.name else tup(rest, chunk)
        else:
            v = chunk
        out.append((s2, some(v)))
    s3 = st.copy()
    if c.I.assume(s3, cond, 1):
        out.append((s3, NONE))
    return out


def rng(v, n):
    """(start, end) of a range value over a sequence of length n"""
    if isinstance(v, Agg):
        p = v.path.split('::')[-1]
        if p == 'Range':
            return v.fs[0], v.fs[1]
        if p == 'RangeFrom':
            return v.fs[0], n
        if p == 'RangeTo':
            return 0, v.fs[0]
        if p == 'RangeFull':
            return 0, n
        if p == 'RangeInclusive':
            return v.fs[0], ladd(v.fs[1], 1)
        if p == 'RangeToInclusive':
            return 0, ladd(v.fs[0], 1)
    return None


@m(('Index', 'index'), ('IndexMut', 'index_mut'))
def _index(c, st):
    r = c.lastref(st)
    if not isinstance(r, Ref):
        return None
    n = rlen(c, st)
    i = c.args[1]
    if isinstance(i, (int, Lin)) or (isinstance(i, T)):
        return one(st, Ref(r.obj, c.I.addpath(tuple(r.path), ('i', i))))
    x = rng(i, n)
    if x is None:
        return None
    a, b = x
    if not all(c.I.require(st, e) for e in (a, lsub(b, a), lsub(n, b))):
        return []
    return one(st, slice_ref(c.I, st, r, a, lsub(b, a)))


@m('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _get(c, st):
    r = c.lastref(st)
    n = rlen(c, st)
    i = c.args[1]
    x = rng(i, n)
    if x is not None:
        a, b = x
        v = slice_ref(c.I, st, r, a, lsub(b, a))
        cond = c.I.compare('Lt', n, b)
    else:
        v = Ref(r.obj, c.I.addpath(tuple(r.path), ('i', i)))
        cond = c.I.neg(c.I.compare('Lt', i, n))
    out = []
    s2 = st.copy()
    if c.I.assume(s2, cond, 0):
        out.append((s2, some(v)))
    s3 = st.copy()
    if c.I.assume(s3, cond, 1):
        out.append((s3, NONE))
    return out


@m('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::first_mut')
def _last(c, st):
    r = c.lastref(st)
    n = rlen(c, st)
    if isinstance(n, int):
        if n == 0:
            return one(st, NONE)
        return one(st, some(Ref(r.obj, c.I.addpath(tuple(r.path), ('i', n - 1 if c.name.startswith('last') else 0)))))
    return None


@m('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def _split_first(c, st):
    r = c.lastref(st)
    n = rlen(c, st)
    out = []
    cond = c.I.compare('Eq', n, 0)
    s2 = st.copy()
    if c.I.assume(s2, cond, 0):
        if c.name == 'split_first':
            v = tup(Ref(r.obj, c.I.addpath(tuple(r.path), ('i', 0))), slice_ref(c.I, st, r, 1, lsub(n, 1)))
        else:
            v = tup(Ref(r.obj, c.I.addpath(tuple(r.path), ('i', lsub(n, 1)))), slice_ref(c.I, st, r, 0, lsub(n, 1)))
        out.append((s2, some(v)))
    s3 = st.copy()
    if c.I.assume(s3, cond, 1):
        out.append((s3, NONE))
    return out


def ident_ref(c, st):
    r = c.lastref(st)
    if isinstance(r, Ref):
        return one(st, r)
    return None


for n in ('std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::array::<impl [T; N]>::as_slice',
          'core::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_mut_slice', 'core::array::<impl [T; N]>::as_mut_slice',
          'std::string::String::as_bytes', 'std::string::String::as_str', 'core::str::<impl str>::as_bytes', 'std::vec::Vec::leak'):
    TABLE[n] = ident_ref


def bytes_view(c, st):
    """as_bytes / as_ref / deref / as_slice / to_bytes ... : a byte view of the object"""
    r = c.lastref(st)
    v = c.deref(st)
    rt = c.rty
    isref = rt is not None and rt.k in ('ref', 'ptr')
    target = rt.elem if isref else rt
    if isseq(v):
        if isref:
            return one(st, r if isinstance(r, Ref) else Ref(c.I.newobj(st, v)))
        return one(st, v)
    b = None
    hint = None
    if target is not None and target.k == 'array':
        hint = target.len
    if isinstance(v, T):
        b = c.I.bytes_of(v, hint)
    elif isinstance(v, Agg):
        if v.path in ('digest', 'mac', 'hkdf', 'hkdfx', 'cipher'):
            return None
        if not (target is not None and (target.k in ('slice', 'array', 'str') or 'Vec' in target.s or 'GenericArray' in target.s or target.k == 'adt')):
            return None
        term = T('bytes_of', T('val', c.I.reify(st, v)))
        b = tb(term, hint if hint is not None else T('len', term))
    if b is None:
        return None
    if isref:
        if isinstance(r, Ref) and target is not None and rt.mut:
            return None
        return one(st, Ref(c.I.newobj(st, b)))
    return one(st, b)


BYTE_TARGET = ('slice', 'array', 'str')


def is_byte_target(rt):
    from interp import byteslike
    if rt is None:
        return False
    if rt.k in ('ref', 'ptr'):
        return is_byte_target(rt.elem)
    return byteslike(rt) or 'GenericArray<u8' in rt.s or rt.s.endswith('PublicKeyBytes')


def view_rule(c, st):
    if is_byte_target(c.rty):
        return bytes_view(c, st)
    v = c.deref(st)
    if isseq(v) or isinstance(v, Ref):
        r = c.lastref(st)
        if c.rty is not None and c.rty.k in ('ref', 'ptr'):
            return one(st, r)
        return one(st, v)
    # deref of a smart wrapper: same object
    if c.rty is not None and c.rty.k in ('ref', 'ptr') and isinstance(c.lastref(st), Ref) and c.name in ('deref', 'deref_mut', 'borrow', 'as_ref', 'borrow_mut'):
        if c.name.startswith('deref') or c.name.startswith('borrow'):
            return one(st, c.lastref(st))
    return None


for tr, n in (('Deref', 'deref'), ('AsRef', 'as_ref'), ('Borrow', 'borrow'), ('DerefMut', 'deref_mut'), ('AsMut', 'as_mut'), ('BorrowMut', 'borrow_mut'),
              ('PublicKey', 'as_bytes'), ('SecretKey', 'as_bytes'), ('DetachedSignature', 'as_bytes'), ('SignedMessage', 'as_bytes')):
    TABLE[(tr, n)] = view_rule


@m(('AsMut', 'as_mut'), ('DerefMut', 'deref_mut'))
def _as_mut(c, st):
    """mutable byte view: the object is replaced by a byte-backed one so writes are visible"""
    r = c.lastref(st)
    if not isinstance(r, Ref):
        return None
    v = c.I.load(st, r.obj, r.path)
    if isseq(v):
        return one(st, r)
    if is_byte_target(c.rty) and isinstance(v, T):
        b = c.I.bytes_of(v)
        ty = v.ty
        # the object itself becomes Agg('bytesobj', bytes)
        a = Agg('bytesobj', 0, '', (b,), ['0'])
        c.I.store(st, r.obj, r.path, a)
        return one(st, Ref(r.obj, tuple(r.path) + (('f', 0, '0', None),)))
    if isinstance(v, Agg) and v.path == 'bytesobj':
        return one(st, Ref(r.obj, tuple(r.path) + (('f', 0, '0', None),)))
    return None


NAMED_VIEWS = ('as_bytes', 'to_bytes', 'into_bytes', 'as_slice', 'to_vec', 'into_vec', 'to_owned', 'as_byte_slice', 'as_array', 'as_ref', 'into_boxed_slice', 'as_compressed_bytes')


def dispatch_named(c, st):
    return None


_old_dispatch = dispatch  # extended below


def dispatch(c, st):
    r = _old_dispatch(c, st)
    if r is not None:
        return r
    if not c.fn.get('key'):
        if c.name in NAMED_VIEWS and len(c.args) == 1 and is_byte_target(c.rty):
            return bytes_view(c, st)
        for f in RULES:
            r = f(c, st)
            if r is not None:
                return r
    return None


@m('std::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec', 'alloc::slice::<impl [T]>::into_vec', ('ToOwned', 'to_owned'),
   'std::vec::Vec::into_boxed_slice', ('ToString', 'to_string'))
def _to_vec(c, st):
    v = c.deref(st)
    if isseq(v) or isinstance(v, T):
        if isinstance(v, T) and is_byte_target(c.rty):
            return bytes_view(c, st)
        return one(st, v)
    return None


@m('std::slice::<impl [T]>::concat', 'alloc::slice::<impl [T]>::concat')
def _concat(c, st):
    v = c.deref(st)
    if isinstance(v, Seq):
        parts = [as_bytes(c.I, st, x) for x in v.vs]
        if all(p is not None for p in parts):
            return one(st, bcat(*parts))
        seqs = [c.I.reify(st, x) for x in v.vs]
        if all(isinstance(s, Seq) for s in seqs):
            return one(st, Seq([y for s in seqs for y in s.vs]))
    return None


@m('std::slice::<impl [T]>::join', 'alloc::slice::<impl [T]>::join')
def _join(c, st):
    v = c.deref(st)
    sep = c.bytes(st, 1)
    if isinstance(v, Seq) and sep is not None:
        parts = [as_bytes(c.I, st, x) for x in v.vs]
        if all(p is not None for p in parts):
            out = []
            for i, p in enumerate(parts):
                if i:
                    out.append(sep)
                out.append(p)
            return one(st, bcat(*out))
    return None


@m('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _copy_from(c, st):
    r = c.lastref(st)
    src = c.deref(st, 1)
    if isinstance(r, Ref):
        n = rlen(c, st)
        if isinstance(src, Bytes):
            src = fit(c.I, st, src, n)
        if isinstance(src, Agg) or isinstance(src, T):
            b = as_bytes(c.I, st, src)
            if b is not None:
                src = b
        c.setref(st, r, src)
        return one(st, UNIT)
    return None


def fit(I, st, b, n):
    """rope whose length is known (on this path) to equal n"""
    l = b.len
    if l == n:
        return b
    if isinstance(l, int) and isinstance(n, int):
        return b
    I.assume(st, I.compare('Eq', l, n), 1)
    # adjust the single symbolic-length segment
    segs = list(b.segs)
    sym = [i for i, s in enumerate(segs) if not isinstance(seglen(s), int)]
    if len(sym) == 1 and segs[sym[0]][0] in ('t', 'x'):
        i = sym[0]
        want = n
        for j, s in enumerate(segs):
            if j != i:
                want = lsub(want, seglen(s))
        s = segs[i]
        if s[0] == 't':
            segs[i] = ('t', s[1], s[2], want)
        else:
            segs[i] = ('x', frozenset(refit(u, want) for u in s[1]), want)
        return norm(segs)
    return b


def refit(u, n):
    if u[0] == 't':
        return ('t', u[1], u[2], n)
    return u


@m('core::slice::<impl [T]>::fill')
def _fill(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path)
    if isinstance(v, Bytes):
        n = v.len
        x = c.args[1]
        if isinstance(n, int) and isinstance(x, int):
            c.setref(st, r, Bytes((('c', bytes([x & 255]) * n),)))
        else:
            c.setref(st, r, tb(T('fill', x), n))
        return one(st, UNIT)
    if isinstance(v, Seq):
        c.setref(st, r, Seq([c.args[1]] * len(v.vs)))
        return one(st, UNIT)
    return None


@m('core::slice::<impl [T]>::swap')
def _swap_el(c, st):
    r = c.lastref(st)
    i, j = c.args[1], c.args[2]
    a = c.I.load(st, r.obj, c.I.addpath(tuple(r.path), ('i', i)))
    b = c.I.load(st, r.obj, c.I.addpath(tuple(r.path), ('i', j)))
    c.I.store(st, r.obj, c.I.addpath(tuple(r.path), ('i', i)), b)
    c.I.store(st, r.obj, c.I.addpath(tuple(r.path), ('i', j)), a)
    return one(st, UNIT)


@m('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with', 'core::slice::<impl [T]>::contains')
def _starts(c, st):
    return one(st, T('eqpart', c.name, c.I.reify(st, c.args[0]), c.I.reify(st, c.args[1])))


@m('std::vec::from_elem', 'alloc::vec::from_elem')
def _from_elem(c, st):
    from interp import byteslike, is_u8
    v, n = c.args
    ety = c.aty[0] if c.aty else None
    if is_u8(ety) or byteslike(c.rty):
        v = c.I.scalar(v)
        if isinstance(n, int) and isinstance(v, int):
            return one(st, Bytes((('c', bytes([v & 255]) * n),)) if n else Bytes(()))
        return one(st, tb(T('fill', v), n))
    if isinstance(n, int):
        return one(st, Seq([v] * n))
    return None


class Cap(Bytes):
    """an empty byte vector whose capacity is known"""
    __slots__ = ('cap',)


@m('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'std::vec::Vec::as_ptr', 'std::vec::Vec::as_mut_ptr', 'core::array::as_ptr')
def _as_ptr(c, st):
    r = c.lastref(st)
    if not isinstance(r, Ref) or not isinstance(c.I.load(st, r.obj, r.path), Bytes):
        v = c.deref(st, 0)
        b = as_bytes(c.I, st, v) if isinstance(r, Ref) else None
        if b is None:
            return None
    return one(st, r)


FFI = re.compile(r'(^|::)PQCLEAN_\w+$')


def ffi_call(c, st):
    """a C function: its outputs and its result are functions of all its inputs; the buffers passed are recorded"""
    I = c.I
    name = tail(c.path)
    args = []
    # a pointer to the first element is one to the object
    c.args = [Ref(a.obj, a.path[:-1]) if isinstance(a, Ref) and a.path and isinstance(a.path[-1], tuple) and a.path[-1][:2] == ('i', 0) and isinstance(I.load(st, a.obj, a.path[:-1]), Bytes) else a
              for a in c.args]
    for a in c.args:
        if isinstance(a, Ref):
            v = I.load(st, a.obj, a.path)
            b = as_bytes(I, st, v) if not isinstance(v, (int, Lin, BV)) else None
            whole = True
            if a.path and isinstance(a.path[-1], tuple) and a.path[-1][0] == 's':
                whole = a.path[-1][1] == 0
            args.append(('ptr', b if b is not None else v, getattr(v, 'cap', None), whole))
        else:
            args.append(('val', I.reify(st, a) if not isinstance(a, (int, T, Lin)) else a, None, True))
    t = T('call', c.path, name, *[(a[1] if hasattr(a[1], '__hash__') else T('x')) for a in args])
    if is_impure(c) or name.endswith('_keypair'):
        I.uid += 1
        t = T('fresh', c.path, I.uid, *t.args[2:])
    outs = {}
    for i, (a, ty) in enumerate(zip(c.args, c.aty or [])):
        if isinstance(a, Ref) and ty is not None and ty.k in ('ref', 'ptr') and ty.mut:
            old = I.load(st, a.obj, a.path)
            mt = T('mut', t, i)
            outs[i] = mt
            if isinstance(old, Cap):
                n = Bytes((('t', mt, 0, T('ffilen', mt)),))
                I.store(st, a.obj, a.path, n)
            else:
                havoc(I, st, a, old, mt, ty.elem)
    c.ev(st, 'ffi', name=name, args=tuple(args), ret=t, outs=outs, tys=tuple((ty.k, ty.s) if ty is not None else None for ty in c.aty or []), rty=c.rty.s if c.rty is not None else None)
    return [(st, I.mk(c.rty, t, st))]


@m('std::vec::Vec::set_len')
def _set_len(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path)
    n = c.args[1]
    if isinstance(v, Bytes) and len(v.segs) == 1 and v.segs[0][0] == 't' and v.segs[0][2] == 0 and isinstance(v.segs[0][3], T) and v.segs[0][3].op == 'ffilen':
        c.setref(st, r, tb(v.segs[0][1], n))
        return one(st, UNIT)
    return None


@m('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::string::String::new')
def _vec_new(c, st):
    from interp import byteslike
    if byteslike(c.rty) and c.name == 'with_capacity':
        b = Cap(())
        b.cap = c.args[0]
        return one(st, b)
    return one(st, Bytes(()) if byteslike(c.rty) else Seq(()))


def vec_append(c, st, ref, add):
    v = c.I.load(st, ref.obj, ref.path)
    if isinstance(v, Bytes):
        b = add if isinstance(add, Bytes) else None
        if b is None:
            return False
        c.setref(st, ref, bcat(v, b))
        return True
    if isinstance(v, Seq) and isinstance(add, Seq):
        c.setref(st, ref, Seq(v.vs + add.vs))
        return True
    if isinstance(v, Seq) and not v.vs and isinstance(add, Bytes):
        c.setref(st, ref, add)
        return True
    if isinstance(v, T):
        c.setref(st, ref, T('append', v, add, ty=v.ty))
        return True
    return False


@m('std::vec::Vec::push', 'std::string::String::push')
def _push(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path)
    x = c.args[1]
    if isinstance(v, Bytes):
        ok_ = vec_append(c, st, r, Bytes((valseg(c.I.scalar(x)),)))
    else:
        ok_ = vec_append(c, st, r, Seq((x,)))
    return one(st, UNIT) if ok_ else None


@m('std::vec::Vec::extend_from_slice', 'std::vec::Vec::append', ('Extend', 'extend'), 'std::string::String::push_str', 'std::vec::Vec::extend_from_within')
def _extend(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path)
    src = c.deref(st, 1)
    if isinstance(src, It):
        outs = drain(c, st, src)
        res = []
        for s2, items in outs:
            items = [c.I.reify(s2, x) for x in items]
            if isinstance(v, Bytes):
                add = items[0] if len(items) == 1 and isinstance(items[0], Bytes) else norm([valseg(c.I.scalar(x)) for x in items])
            else:
                add = Seq(items)
            vec_append(c, s2, r, add)
            res.append((s2, UNIT))
        return res
    if isinstance(v, Bytes):
        src = as_bytes(c.I, st, src)
    if src is None or not vec_append(c, st, r, src):
        return None
    if c.name == 'append':
        r2 = c.lastref(st, 1)
        c.setref(st, r2, Bytes(()) if isinstance(v, Bytes) else Seq(()))
    return one(st, UNIT)


@m('std::vec::Vec::truncate')
def _truncate(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path)
    n = c.args[1]
    l = c.I.vlen(v)
    if isinstance(l, int) and isinstance(n, int):
        n = min(l, n)
    if isinstance(v, Bytes):
        c.setref(st, r, bslice(v, 0, n))
        return one(st, UNIT)
    return None


@m('std::vec::Vec::split_off')
def _split_off(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path)
    n = c.args[1]
    if isinstance(v, Bytes):
        c.setref(st, r, bslice(v, 0, n))
        return one(st, bslice(v, n, lsub(v.len, n)))
    return None


@m('std::vec::Vec::clear')
def _clear(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path)
    c.setref(st, r, Bytes(()) if isinstance(v, Bytes) else Seq(()))
    return one(st, UNIT)


@m('std::vec::Vec::resize')
def _resize(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path)
    n, x = c.args[1], c.args[2]
    if isinstance(v, Bytes) and isinstance(v.len, int) and isinstance(n, int) and isinstance(x, int):
        if n <= v.len:
            c.setref(st, r, bslice(v, 0, n))
        else:
            c.setref(st, r, bcat(v, Bytes((('c', bytes([x]) * (n - v.len)),))))
        return one(st, UNIT)
    if isinstance(v, Bytes) and v.len == 0:
        c.setref(st, r, tb(T('fill', x), n))
        return one(st, UNIT)
    return None


@m('std::vec::Vec::insert')
def _insert(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path)
    i, x = c.args[1], c.args[2]
    if isinstance(v, Bytes):
        c.setref(st, r, bcat(bslice(v, 0, i), Bytes((valseg(x),)), bslice(v, i, lsub(v.len, i))))
        return one(st, UNIT)
    if isinstance(v, Seq) and isinstance(i, int):
        c.setref(st, r, Seq(v.vs[:i] + (x,) + v.vs[i:]))
        return one(st, UNIT)
    return None


@m('std::vec::Vec::pop')
def _pop(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path)
    if isinstance(v, Seq):
        if not v.vs:
            return one(st, NONE)
        c.setref(st, r, Seq(v.vs[:-1]))
        return one(st, some(v.vs[-1]))
    return None


@m('std::boxed::Box::new', 'alloc::boxed::Box::new', 'std::rc::Rc::new', 'std::sync::Arc::new')
def _box(c, st):
    return one(st, Ref(c.I.newobj(st, c.args[0])))


@m('std::boxed::Box::new_uninit', 'alloc::boxed::Box::new_uninit')
def _box_uninit(c, st):
    return one(st, Ref(c.I.newobj(st, T('uninit'))))


@m('std::boxed::box_assume_init_into_vec_unsafe', 'alloc::boxed::box_assume_init_into_vec_unsafe')
def _box_vec(c, st):
    return one(st, c.deref(st))


# ---------------------------------------------------------------- clone / default / convert / compare
@m(('Clone', 'clone'), ('core', 'Clone', 'clone'), 'std::option::Option::cloned_', 'core::option::Option::<&T>::cloned_')
def _clone(c, st):
    v = c.deref(st)
    return one(st, v)


@m(('Clone', 'clone_from'))
def _clone_from(c, st):
    r = c.lastref(st)
    c.setref(st, r, c.deref(st, 1))
    return one(st, UNIT)


@m(('Default', 'default'))
def _default(c, st):
    ty = c.rty
    v = default_of(c, st, ty)
    if v is None:
        return None
    return one(st, v)


def default_of(c, st, ty):
    from interp import byteslike, is_u8
    if ty is None:
        return None
    if ty.k in ('int', 'bool', 'char'):
        return 0
    if ty.k == 'array' and ty.len is not None:
        if is_u8(ty.elem):
            return Bytes((('c', bytes(ty.len)),)) if ty.len else Bytes(())
        e = default_of(c, st, ty.elem)
        return Seq([e if e is not None else T('default', ty.elem.s, ty=ty.elem)] * ty.len)
    if ty.k == 'tuple':
        return Agg('()', 0, '', [default_of(c, st, t) for t in ty.elems])
    if byteslike(ty):
        return Bytes(())
    if ty.k == 'adt' and ty.path.endswith('::Vec'):
        return Seq(())
    if ty.k == 'adt' and ty.path.endswith('option::Option'):
        return Agg('Option', 0, 'None', ())
    return None


@m('std::mem::replace', 'core::mem::replace')
def _replace(c, st):
    r = c.args[0]
    old = c.I.load(st, r.obj, r.path)
    c.setref(st, r, c.args[1])
    return one(st, old)


@m('std::mem::take', 'core::mem::take')
def _take(c, st):
    r = c.args[0]
    old = c.I.load(st, r.obj, r.path)
    d = default_of(c, st, c.rty)
    if d is None:
        d = T('default', c.rty.s if c.rty else '', ty=c.rty)
    c.setref(st, r, d)
    return one(st, old)


@m('std::mem::swap', 'core::mem::swap')
def _swap(c, st):
    a, b = c.args[0], c.args[1]
    x, y = c.I.load(st, a.obj, a.path), c.I.load(st, b.obj, b.path)
    c.setref(st, a, y)
    c.setref(st, b, x)
    return one(st, UNIT)


@m('std::mem::drop', 'core::mem::drop', 'std::hint::black_box', 'core::hint::black_box')
def _drop(c, st):
    if c.name == 'black_box':
        return one(st, c.args[0])
    return one(st, UNIT)


def arr_len(ty):
    if ty is None:
        return None
    if ty.k in ('ref', 'ptr'):
        return arr_len(ty.elem)
    if ty.k == 'array':
        return ty.len
    return None


def conv_result_ty(ty):
    """Ok type of a Result type"""
    if ty is not None and ty.k == 'adt' and ty.targs:
        return ty.targs[0]
    return None


@m(('TryInto', 'try_into'), ('TryFrom', 'try_from'), ('core', 'TryInto', 'try_into'))
def _try_into(c, st):
    t = conv_result_ty(c.rty)
    n = arr_len(t)
    v = c.deref(st)
    I = c.I
    if n is not None and isseq(v):
        l = I.vlen(v)
        isref = t.k in ('ref', 'ptr')

        def okv(s):
            w = fit(I, s, v, n) if isinstance(v, Bytes) else v
            if isref:
                r = c.lastref(s)
                if isinstance(r, Ref) and r.path and r.path[-1][0] == 's' and not isinstance(r.path[-1][2], int):
                    return ok(Ref(I.newobj(s, w))) if not (c.aty and c.aty[0] and c.aty[0].mut) else ok(r)
                return ok(r)
            return ok(w)
        if isinstance(l, int):
            if l == n:
                return one(st, okv(st))
            return one(st, err(T('TryFromSliceError')))
        cond = I.compare('Eq', l, n)
        out = []
        s2 = st.copy()
        if I.assume(s2, cond, 1):
            out.append((s2, okv(s2)))
        s3 = st.copy()
        if I.assume(s3, cond, 0):
            out.append((s3, err(T('TryFromSliceError'))))
        return out
    if t is not None and t.k == 'int' and isinstance(c.args[0], (int, Lin, T)):
        a = c.args[0]
        if isinstance(a, int):
            lo, hi = (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1) if t.signed else (0, (1 << t.bits) - 1)
            return one(st, ok(a) if lo <= a <= hi else err(T('TryFromIntError')))
        return one(st, ok(a))
    return None


@m(('From', 'from'), ('Into', 'into'), ('core', 'Into', 'into'), ('core', 'From', 'from'))
def _from(c, st):
    rt = c.rty
    v = c.args[0]
    I = c.I
    p = c.full + ' ' + c.path + ' ' + c.rpath
    # Choice -> bool and back
    if isinstance(v, T) and v.op in ('ct_eq', 'not', 'ct_sel', 'bBitAnd', 'bBitOr') and rt is not None and (rt.k == 'bool' or 'Choice' in rt.s):
        return one(st, v)
    if rt is not None and rt.k == 'bool' and isinstance(v, (int, T)):
        return one(st, v)
    if rt is not None and rt.k == 'int':
        if isinstance(v, (int, Lin, T, BV)):
            return one(st, v)
    if rt is not None and rt.k == 'adt' and (rt.path.startswith('secret_integers') or rt.path.split('::')[-1] in ('U8', 'U16', 'U32', 'U64')):
        return one(st, secret_conv(v, rt))
    sty = c.aty[0] if c.aty else None
    if sty is not None and rt is not None and sty.s == rt.s:
        return one(st, v)
    d = c.deref(st)
    if isseq(d):
        if is_byte_target(rt):
            if rt.k in ('ref', 'ptr'):
                return one(st, c.lastref(st))
            return one(st, d)
        if rt is not None and rt.k == 'adt' and isinstance(d, Bytes) and not c.fn.get('key', '').startswith('core'):
            return one(st, T('parse', rt.path.split('::')[-1], d, ty=rt))
        if rt is not None and rt.k == 'adt' and isinstance(d, Bytes) and 'GenericArray' in rt.s:
            return one(st, d)
    if isinstance(d, (T, Agg)) and is_byte_target(rt) and not c.fn.get('key'):
        return bytes_view(c, st)
    return None


def secret_conv(v, rt):
    bits = {'U8': 8, 'U16': 16, 'U32': 32, 'U64': 64, 'U128': 128}.get(rt.path.split('::')[-1], 64)
    if isinstance(v, int):
        return v & ((1 << bits) - 1)
    if isinstance(v, BV):
        return mkbv(bits_of(v, bits))
    if isinstance(v, T):
        w = tybits(v.ty)
        if w is not None and w > bits:
            return mkbv(bits_of(v, bits))
    return v


def tybits(ty):
    if ty is None:
        return None
    if ty.k == 'int':
        return ty.bits
    if ty.k == 'adt':
        return {'U8': 8, 'U16': 16, 'U32': 32, 'U64': 64, 'U128': 128}.get(ty.path.split('::')[-1])
    return None


@m(('PartialEq', 'eq'), ('PartialEq', 'ne'))
def _eq(c, st):
    a, b = c.I.reify(st, c.args[0]), c.I.reify(st, c.args[1])
    r = eqterm(c, st, a, b)
    return one(st, c.I.neg(r) if c.name == 'ne' else r)


def eqterm(c, st, a, b):
    I = c.I
    if a == b:
        return 1
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return I.compare('Eq', a, b)
    if isinstance(a, Bytes) and isinstance(b, Bytes):
        if a.const() is not None and b.const() is not None:
            return 0
        la, lb = a.len, b.len
        if isinstance(la, int) and isinstance(lb, int) and la != lb:
            return 0
    if isinstance(a, Agg) and isinstance(b, Agg) and (a.vn != b.vn):
        return 0
    if isinstance(a, Agg) and isinstance(b, Agg) and not a.fs and not b.fs:
        return 1
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and isinstance(y, Agg) and not y.fs and x.ty is not None and x.ty.variants:
            for vi, (n, d, fs) in enumerate(x.ty.variants):
                if n == y.vn:
                    return I.compare('Eq', T('discr', x), d)
    x, y = sorted([a, b], key=lambda v: (repr(type(v)), hash(v)))
    t = T('eq', x, y)
    if isinstance(a, Bytes) or isinstance(b, Bytes):
        c.ev(st, 'vareq', a=a, b=b)
    return t


@m(('PartialOrd', 'lt'), ('PartialOrd', 'le'), ('PartialOrd', 'gt'), ('PartialOrd', 'ge'))
def _cmp(c, st):
    a, b = c.I.reify(st, c.args[0]), c.I.reify(st, c.args[1])
    if isinstance(a, (int, Lin, T)) and isinstance(b, (int, Lin, T)):
        return one(st, c.I.compare(c.name.capitalize(), a, b))
    return None


@m('std::cmp::min', 'core::cmp::min', 'std::cmp::max', 'core::cmp::max', ('Ord', 'min'), ('Ord', 'max'), 'std::intrinsics::integer_min', 'std::intrinsics::integer_max', 'core::intrinsics::integer_min', 'core::intrinsics::integer_max')
def _minmax(c, st):
    a, b = c.args
    name = 'min' if c.name.endswith('min') else 'max'
    if isinstance(a, int) and isinstance(b, int):
        return one(st, min(a, b) if name == 'min' else max(a, b))
    if isinstance(a, (int, Lin, T)) and isinstance(b, (int, Lin, T)):
        n = nonneg(lsub(a, b))
        if n is not None:
            return one(st, (b if n else a) if name == 'min' else (a if n else b))
        return one(st, T(name, a, b))
    return None


# ---------------------------------------------------------------- subtle
@m(('ConstantTimeEq', 'ct_eq'))
def _ct_eq(c, st):
    a, b = c.I.reify(st, c.args[0]), c.I.reify(st, c.args[1])
    x, y = sorted([a, b], key=lambda v: (repr(type(v)), hash(v)))
    t = T('ct_eq', x, y)
    c.ev(st, 'ct_eq', a=a, b=b)
    return one(st, t)


@m('subtle::Choice::unwrap_u8')
def _unwrap_u8(c, st):
    return one(st, c.deref(st))


@m('subtle::Choice::from')
def _choice_from(c, st):
    return one(st, c.args[0])


def bool_ops(c, st):
    if len(c.args) >= 1 and all(isinstance(a, (int, T)) and (not isinstance(a, T) or a.op in ('ct_eq', 'not', 'eq', 'lt', 'bBitAnd', 'bBitOr', 'bBitXor')) for a in c.args) and c.rty is not None and (c.rty.k == 'bool' or 'Choice' in c.rty.s):
        if c.name == 'not':
            return one(st, c.I.neg(c.args[0]))
        op = {'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}.get(c.name)
        if op:
            return one(st, c.I.boolop(op, c.args[0], c.args[1]))
    return None


# ---------------------------------------------------------------- integer operators through traits
OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr', 'div': 'Div', 'rem': 'Rem'}


class _Ty:
    k = 'int'
    signed = False

    def __init__(self, bits, signed=False):
        self.bits, self.signed = bits, signed
        self.s = 'u%d' % bits


def int_ops(c, st):
    nm = c.name
    assign = nm.endswith('_assign')
    base = nm[:-7] if assign else nm
    if base not in OPS and base not in ('not', 'neg'):
        return None
    tr = (c.fn.get('trait') or '')
    if not tr.startswith(('std::ops', 'core::ops')):
        return None
    ty = c.aty[0] if c.aty else None
    while ty is not None and ty.k in ('ref', 'ptr'):
        ty = ty.elem
    bits = tybits(ty)
    if bits is None:
        return None
    a = c.I.scalar(c.deref(st, 0))
    if not isinstance(a, (int, T, BV, Lin)):
        return None
    t = _Ty(bits, ty.k == 'int' and bool(ty.signed))
    if base == 'not':
        if isinstance(a, int):
            return one(st, ~a & ((1 << bits) - 1))
        return one(st, mkbv([bxor(x, 1) for x in bits_of(c.I.bitable(a), bits)]))
    if base == 'neg':
        return one(st, -a if isinstance(a, int) else T('neg', a))
    b = c.I.scalar(c.deref(st, 1))
    if not isinstance(b, (int, T, BV, Lin)):
        return None
    v = c.I.arith(OPS[base], a, b, t)
    if isinstance(v, T) and v.ty is None:
        v.ty = ty
    if assign:
        r = c.lastref(st)
        c.setref(st, r, v)
        return one(st, UNIT)
    return one(st, v)


INTM = {'wrapping_add': 'Add', 'wrapping_sub': 'Sub', 'wrapping_mul': 'Mul', 'wrapping_shl': 'Shl', 'wrapping_shr': 'Shr', 'saturating_sub': 'SatSub',
        'unchecked_add': 'Add', 'unchecked_sub': 'Sub', 'unchecked_mul': 'Mul'}


def int_methods(c, st):
    if not (c.path.startswith('core::num::') or c.path.startswith('std::num::') or 'secret_integers' in c.path):
        return None
    ty = c.aty[0] if c.aty else None
    while ty is not None and ty.k in ('ref', 'ptr'):
        ty = ty.elem
    bits = tybits(ty) or 64
    a = c.I.scalar(c.deref(st, 0)) if c.args else None
    t = _Ty(bits, bool(ty is not None and ty.k == 'int' and ty.signed))
    if c.name in INTM and c.name != 'saturating_sub':
        return one(st, c.I.arith(INTM[c.name], a, c.I.scalar(c.deref(st, 1)), t))
    if c.name == 'saturating_sub':
        b = c.deref(st, 1)
        if isinstance(a, int) and isinstance(b, int):
            return one(st, max(0, a - b))
        return one(st, T('satsub', a, b))
    if c.name in ('checked_sub', 'checked_add', 'checked_mul'):
        b = c.deref(st, 1)
        op = {'checked_sub': 'Sub', 'checked_add': 'Add', 'checked_mul': 'Mul'}[c.name]
        if isinstance(a, int) and isinstance(b, int):
            v = {'Sub': a - b, 'Add': a + b, 'Mul': a * b}[op]
            return one(st, some(v) if 0 <= v < (1 << bits) else NONE)
        if op == 'Sub':
            cond = c.I.compare('Lt', a, b)
            out = []
            s2 = st.copy()
            if c.I.assume(s2, cond, 0):
                out.append((s2, some(lsub(a, b))))
            s3 = st.copy()
            if c.I.assume(s3, cond, 1):
                out.append((s3, NONE))
            return out
        return one(st, some(c.I.arith(op, a, b, t)))
    if c.name in ('to_le_bytes', 'to_be_bytes'):
        n = bits // 8
        if isinstance(a, int):
            return one(st, Bytes((('c', (a & ((1 << bits) - 1)).to_bytes(n, 'little' if 'le' in c.name else 'big')),)))
        bs = bits_of(c.I.bitable(a), bits)
        parts = [valseg(mkbv(bs[8 * i:8 * i + 8])) for i in range(n)]
        if 'be' in c.name:
            parts.reverse()
        return one(st, norm(parts))
    if c.name in ('from_le_bytes', 'from_be_bytes'):
        b = c.bytes(st)
        if b is not None and isinstance(b.len, int):
            vs = [elem(b, i) for i in range(b.len)]
            if 'be' in c.name:
                vs.reverse()
            bits_ = []
            for v in vs:
                bits_.extend(bits_of(v, 8))
            return one(st, mkbv(bits_))
    if c.name in ('pow',):
        b = c.deref(st, 1)
        if isinstance(a, int) and isinstance(b, int):
            return one(st, a ** b)
    if c.name in ('min', 'max'):
        return _minmax(c, st)
    if 'secret_integers' in c.path:
        if c.name in ('declassify', 'classify', 'to_public', 'from_literal', 'zero', 'one', 'max'):
            if c.name == 'zero':
                return one(st, 0)
            if c.name == 'one':
                return one(st, 1)
            if c.name == 'declassify':
                c.ev(st, 'declassify', v=a)
            return one(st, a)
    return None


RULES.extend([bool_ops, int_ops, int_methods])


# ---------------------------------------------------------------- hashes, MACs, KDFs
def algname(c, i=0):
    t = c.targ(i)
    s = t.s if t is not None else c.full
    import re
    m_ = re.search(r'Blake2\w*Core', s)
    n = m_.group(0) if m_ else ''
    if 'OutSize' in s or n:
        # Blake2b<U32> vs Blake2b512: compare the type-level output size
        bits = re.findall(r'\bB[01]\b', s)
        return 'blake2' + '.'.join([n] + [str(len(bits))])
    m_ = re.search(r'(Shake\d+|Sha3_\d+|Sha\d+)', s)
    return m_.group(1) if m_ else s[:60]


def typenum(s):
    """value of the last type-level unsigned integer in s"""
    import re
    r = None
    for m_ in re.finditer(r'(?:[\w:]*UInt<)+[\w:]*UTerm((?:, [\w:]*B[01]>)+)', s):
        r = int(''.join(re.findall(r'B([01])>', m_.group(1))), 2)
    return r


@m(('OutputSizeUser', 'output_size'), ('Digest', 'output_size'))
def _outsize(c, st):
    n = typenum(c.full)
    return None if n is None else one(st, n)


@m(('Digest', 'new'))
def _dg_new(c, st):
    return one(st, Agg('digest', 0, '', (algname(c), Bytes(())), ['alg', 'data']))


@m(('Digest', 'chain_update'), ('Digest', 'update'), ('Update', 'update'), ('Update', 'chain'))
def _dg_update(c, st):
    v = c.deref(st, 0)
    if not (isinstance(v, Agg) and v.path == 'digest'):
        return None
    b = c.bytes(st, 1)
    if b is None:
        b = tb(T('val', c.I.reify(st, c.args[1])), T('len', T('val', c.I.reify(st, c.args[1]))))
    nv = Agg('digest', 0, '', (v.fs[0], bcat(v.fs[1], b)), v.names)
    if isinstance(c.args[0], Ref):
        c.setref(st, c.lastref(st), nv)
        return one(st, UNIT)
    return one(st, nv)


def hash_term(c, st, alg, data, n=32):
    t = T('hash', alg, data)
    c.ev(st, 'hash', alg=alg, data=data, out=t)
    return t


@m(('Digest', 'new_with_prefix'))
def _dg_prefix(c, st):
    return one(st, Agg('digest', 0, '', (algname(c), c.bytes(st, 0) or Bytes(())), ['alg', 'data']))


@m(('Digest', 'finalize'), ('FixedOutput', 'finalize_fixed'), ('Digest', 'finalize_reset'))
def _dg_fin(c, st):
    v = c.deref(st, 0)
    if not (isinstance(v, Agg) and v.path == 'digest'):
        return None
    t = hash_term(c, st, v.fs[0], v.fs[1])
    return one(st, tb(t, 32 if '512' not in v.fs[0] else 64))


@m(('Digest', 'digest'))
def _digest(c, st):
    b = c.bytes(st, 0)
    if b is None:
        b = tb(T('val', c.I.reify(st, c.args[0])), 0)
    t = hash_term(c, st, algname(c), b)
    return one(st, tb(t, 32))


def mk_from_hash(c, st):
    """X::from_hash(digest): consumes the digest state"""
    if c.name == 'from_hash' and c.args and isinstance(c.args[0], Agg) and c.args[0].path == 'digest':
        v = c.args[0]
        t = hash_term(c, st, v.fs[0], v.fs[1])
        r = T('call', c.path, t, ty=c.rty)
        c.ev(st, 'call', path=c.path, rpath=c.rpath, full=c.full, args=(t,), ret=r)
        return one(st, r)
    return None


RULES.append(mk_from_hash)


@m(('Mac', 'new_from_slice'), ('KeyInit', 'new_from_slice'), ('Mac', 'new'))
def _mac_new(c, st):
    k = c.bytes(st, 0)
    v = Agg('mac', 0, '', (k, Bytes(())), ['key', 'data'])
    return one(st, ok(v) if c.name == 'new_from_slice' else v)


@m(('Mac', 'chain_update'), ('Mac', 'update'))
def _mac_update(c, st):
    v = c.deref(st, 0)
    if not (isinstance(v, Agg) and v.path == 'mac'):
        return None
    b = c.bytes(st, 1)
    nv = Agg('mac', 0, '', (v.fs[0], bcat(v.fs[1], b)), v.names)
    if isinstance(c.args[0], Ref):
        c.setref(st, c.lastref(st), nv)
        return one(st, UNIT)
    return one(st, nv)


@m(('Mac', 'finalize'))
def _mac_fin(c, st):
    v = c.deref(st, 0)
    if not (isinstance(v, Agg) and v.path == 'mac'):
        return None
    t = T('mac', v.fs[0], v.fs[1])
    c.ev(st, 'mac', key=v.fs[0], data=v.fs[1], out=t)
    return one(st, tb(t, 32))


@m(('Mac', 'verify'), ('Mac', 'verify_slice'), ('Mac', 'verify_truncated_left'), ('Mac', 'verify_truncated_right'))
def _mac_verify(c, st):
    v = c.deref(st, 0)
    if not (isinstance(v, Agg) and v.path == 'mac'):
        return None
    tag = c.bytes(st, 1)
    full = c.name in ('verify', 'verify_slice')
    t = T('macverify' if full else 'mactrunc', v.fs[0], v.fs[1], tag, ty=c.rty)
    if full and isinstance(tag, Bytes) and tag == tb(T('mac', v.fs[0], v.fs[1]), 32):
        # the tag of these very bytes under this very key
        c.ev(st, 'macverify', key=v.fs[0], data=v.fs[1], tag=tag, term=t, full=full)
        return one(st, ok(UNIT))
    c.ev(st, 'macverify', key=v.fs[0], data=v.fs[1], tag=tag, term=t, full=full)
    return one(st, t)


@m('blake2::digest::CtOutput::into_bytes', 'digest::CtOutput::into_bytes', 'hkdf::hmac::digest::CtOutput::into_bytes')
def _ctout(c, st):
    return one(st, c.deref(st, 0))


@m('hkdf::Hkdf::from_prk')
def _hk_prk(c, st):
    k = c.bytes(st, 0)
    return one(st, ok(Agg('hkdf', 0, '', (k,), ['prk'])))


@m('hkdf::Hkdf::new')
def _hk_new(c, st):
    salt = c.args[0]
    ikm = c.bytes(st, 1)
    t = T('extract', c.I.reify(st, salt), ikm)
    c.ev(st, 'extract', salt=c.I.reify(st, salt), ikm=ikm, out=t)
    return one(st, Agg('hkdf', 0, '', (tb(t, 32),), ['prk']))


@m('hkdf::Hkdf::extract')
def _hk_extract(c, st):
    salt = c.I.reify(st, c.args[0])
    ikm = c.bytes(st, 1)
    t = T('extract', salt, ikm)
    c.ev(st, 'extract', salt=salt, ikm=ikm, out=t)
    return one(st, tup(tb(t, 32), Agg('hkdf', 0, '', (tb(t, 32),), ['prk'])))


def hk_expand(c, st, info, out):
    v = c.deref(st, 0)
    if not (isinstance(v, Agg) and v.path == 'hkdf'):
        return None
    r = c.lastref(st, out)
    n = c.I.length(st, r.obj, r.path)
    t = T('hkdf', v.fs[0], info)   # output prefixes agree whatever the requested length
    c.ev(st, 'expand', prk=v.fs[0], info=info, n=n, out=t)
    c.setref(st, r, tb(t, n))
    return one(st, ok(UNIT))


@m('hkdf::Hkdf::expand')
def _hk_expand(c, st):
    return hk_expand(c, st, c.bytes(st, 1), 2)


@m('hkdf::Hkdf::expand_multi_info')
def _hk_expand_m(c, st):
    v = c.deref(st, 1)
    if isinstance(v, Seq):
        info = bcat(*[as_bytes(c.I, st, x) for x in v.vs])
    elif isinstance(v, Bytes):
        info = v
    else:
        return None
    return hk_expand(c, st, info, 2)


@m('hkdf::HkdfExtract::new')
def _hx_new(c, st):
    return one(st, Agg('hkdfx', 0, '', (c.I.reify(st, c.args[0]), Bytes(())), ['salt', 'ikm']))


@m('hkdf::HkdfExtract::input_ikm')
def _hx_in(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path)
    b = c.bytes(st, 1)
    if isinstance(v, T):
        c.setref(st, r, T('ikm', v, b, ty=v.ty))
        return one(st, UNIT)
    if not (isinstance(v, Agg) and v.path == 'hkdfx') or b is None:
        return None
    c.setref(st, r, Agg('hkdfx', 0, '', (v.fs[0], bcat(v.fs[1], b)), v.names))
    return one(st, UNIT)


@m('hkdf::HkdfExtract::finalize')
def _hx_fin(c, st):
    v = c.args[0]
    if isinstance(v, Agg) and v.path == 'hkdfx':
        t = T('extract', v.fs[0], v.fs[1])
        c.ev(st, 'extract', salt=v.fs[0], ikm=v.fs[1], out=t)
    else:
        t = T('extract', T('salt?'), c.I.reify(st, v))
        c.ev(st, 'extract', salt=T('salt?'), ikm=c.I.reify(st, v), out=t)
    return one(st, tup(tb(t, 32), Agg('hkdf', 0, '', (tb(t, 32),), ['prk'])))


# ---------------------------------------------------------------- Farfalle deck function
def is_deck(c):
    return 'deck_farfalle' in c.full or 'crypto_permutation' in c.full


@m('deck_farfalle::Farfalle::init_default', 'deck_farfalle::input::Farfalle::init_default', ('DeckFunction', 'init'))
def _ff_init(c, st):
    k = c.bytes(st, 0)
    if k is None:
        return None
    return one(st, Agg('deck', 0, '', (k, Seq([])), ['key', 'strings']))


@m(('DeckFunction', 'input_writer'))
def _ff_writer(c, st):
    r = c.lastref(st)
    if not isinstance(r, Ref) or not isinstance(c.I.load(st, r.obj, r.path), Agg):
        return None
    return one(st, Agg('deckw', 0, '', (r, Bytes(())), ['deck', 'data']))


@m(('Writer', 'write_bytes'))
def _ff_write(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path) if isinstance(r, Ref) else None
    b = c.bytes(st, 1)
    if not (isinstance(v, Agg) and v.path == 'deckw') or b is None:
        return None
    c.setref(st, r, Agg('deckw', 0, '', (v.fs[0], bcat(v.fs[1], b)), v.names))
    return one(st, ok(UNIT))


@m(('Writer', 'finish'))
def _ff_finish(c, st):
    v = c.args[0]
    if not (isinstance(v, Agg) and v.path == 'deckw'):
        return None
    d = c.I.load(st, v.fs[0].obj, v.fs[0].path)
    if not (isinstance(d, Agg) and d.path == 'deck'):
        return None
    c.setref(st, v.fs[0], Agg('deck', 0, '', (d.fs[0], Seq(list(d.fs[1].vs) + [v.fs[1]])), d.names))
    return one(st, UNIT)


@m(('DeckFunction', 'output_reader'))
def _ff_reader(c, st):
    v = c.deref(st)
    if not (isinstance(v, Agg) and v.path == 'deck'):
        return None
    t = T('deck', v.fs[0], *v.fs[1].vs)
    return one(st, Agg('decko', 0, '', (t, 0), ['out', 'pos']))


@m(('Reader', 'write_to_slice'))
def _ff_read(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path) if isinstance(r, Ref) else None
    if not (isinstance(v, Agg) and v.path == 'decko'):
        return None
    d = c.lastref(st, 1)
    n = c.I.length(st, d.obj, d.path)
    pos = v.fs[1]
    t = v.fs[0]
    c.setref(st, d, bslice(tb(t, ladd(pos, n)), pos, n))
    c.setref(st, r, Agg('decko', 0, '', (t, ladd(pos, n)), v.names))
    c.ev(st, 'deck', out=t, pos=pos, n=n)
    return one(st, ok(UNIT))


@m(('Reader', 'skip'))
def _ff_skip(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path) if isinstance(r, Ref) else None
    if not (isinstance(v, Agg) and v.path == 'decko'):
        return None
    c.setref(st, r, Agg('decko', 0, '', (v.fs[0], ladd(v.fs[1], c.args[1])), v.names))
    return one(st, ok(UNIT))


# ---------------------------------------------------------------- signatures
@m(('Signer', 'sign'), ('Signer', 'try_sign'))
def _sign(c, st):
    sk = c.I.reify(st, c.args[0])
    msg = c.bytes(st, 1)
    t = T('sig', sk, msg, ty=c.rty)
    c.ev(st, 'sign', sk=sk, msg=msg, out=t)
    return one(st, ok(t) if c.name == 'try_sign' else t)


@m(('Verifier', 'verify'))
def _verify(c, st):
    pk = c.I.reify(st, c.args[0])
    msg = c.bytes(st, 1)
    sig = c.I.reify(st, c.args[2])
    t = T('verify', pk, msg, sig, ty=c.rty)
    c.ev(st, 'verify', pk=pk, msg=msg, sig=sig, term=t)
    return one(st, t)


@m('ed25519_dalek::VerifyingKey::verify_strict', 'ed25519_dalek::VerifyingKey::verify_prehashed')
def _verify_s(c, st):
    if c.name == 'verify_strict':
        return _verify(c, st)
    return None


@m('pqcrypto_dilithium::detached_sign', 'pqcrypto_dilithium::dilithium2::detached_sign')
def _dsign(c, st):
    if c.fr is not None and c.fr.fn.crate == 'pqcrypto_dilithium':
        return None
    sk = c.I.reify(st, c.args[1])
    msg = c.bytes(st, 0)
    t = T('sig', sk, msg, ty=c.rty)
    c.ev(st, 'sign', sk=sk, msg=msg, out=t)
    return one(st, t)


@m('pqcrypto_dilithium::verify_detached_signature', 'pqcrypto_dilithium::dilithium2::verify_detached_signature')
def _dverify(c, st):
    if c.fr is not None and c.fr.fn.crate == 'pqcrypto_dilithium':
        return None
    sig = c.I.reify(st, c.args[0])
    msg = c.bytes(st, 1)
    pk = c.I.reify(st, c.args[2])
    t = T('verify', pk, msg, sig, ty=c.rty)
    c.ev(st, 'verify', pk=pk, msg=msg, sig=sig, term=t)
    return one(st, t)


# byte constructors of opaque objects
def parse_rule(c, st):
    if c.fr is not None and c.fr.fn.crate in ('saber', 'pqcrypto_dilithium'):
        return None
    if c.name in ('from_bytes', 'from_slice', 'try_from_slice') and len(c.args) == 1 and c.rty is not None:
        b = c.bytes(st, 0)
        if b is None:
            return None
        rt = c.rty
        if rt.k == 'adt' and rt.path.endswith('result::Result'):
            okt = conv_result_ty(rt)
            z = c.I.fixed_size(okt)
            if z is not None and okt.path.split('::')[-1] != 'DetachedSignature' and not isinstance(b.len, int):
                b = fit(c.I, st.copy(), b, z)
            val = T('parse', okt.path.split('::')[-1] if okt is not None and okt.path else 'x', b, ty=okt)
            cond = T('parses', val)
            c.ev(st, 'parse', out=val, data=b)
            s2 = st.copy()
            s3 = st
            n0 = c.bytes(st, 0).len
            out = []
            if c.I.assume(s2, cond, 1) and (z is None or val.args[0] == 'DetachedSignature' or (c.I.require(s2, lsub(n0, z)) and c.I.require(s2, lsub(z, n0)))):
                out.append((s2, ok(val)))
            if c.I.assume(s3, cond, 0):
                out.append((s3, err(T('parse_err', val))))
            return out
        if rt.k == 'adt' and not rt.path.endswith('Option'):
            c.ev(st, 'parse', out=T('parse', rt.path.split('::')[-1], b, ty=rt), data=b)
            return one(st, T('parse', rt.path.split('::')[-1], b, ty=rt))
    return None


RULES.append(parse_rule)


def ristretto(c, st):
    p = strip(c.path)
    if p.endswith('RistrettoPoint::compress'):
        v = c.I.reify(st, c.args[0])
        if isinstance(v, T) and v.op == 'fld' and v.args[0].op == 'as' and v.args[0].args[0].op == 'decompress':
            return one(st, v.args[0].args[0].args[0])
        return one(st, T('compress', v, ty=c.rty))
    if p.endswith('CompressedRistretto::decompress'):
        v = c.I.reify(st, c.args[0])
        if isinstance(v, T) and v.op == 'compress':
            return one(st, some(v.args[0]))
        return one(st, T('decompress', v, ty=c.rty))
    return None


RULES.append(ristretto)


# ---------------------------------------------------------------- ciphers
@m(('KeyIvInit', 'new'), ('KeyIvInit', 'new_from_slices'))
def _cipher_new(c, st):
    v = Agg('cipher', 0, '', (c.bytes(st, 0), c.bytes(st, 1), 0), ['key', 'nonce', 'pos'])
    c.ev(st, 'cipher', key=v.fs[0], nonce=v.fs[1], full=c.full)
    return one(st, ok(v) if c.name.endswith('slices') else v)


@m(('StreamCipher', 'apply_keystream'), ('StreamCipher', 'try_apply_keystream'))
def _keystream(c, st):
    v = c.deref(st, 0)
    r = c.lastref(st, 1)
    if not (isinstance(v, Agg) and v.path == 'cipher'):
        return None
    data = c.I.load(st, r.obj, r.path)
    if not isinstance(data, Bytes):
        return None
    ks = tb(T('keystream', v.fs[0], v.fs[1], v.fs[2]), data.len)
    c.setref(st, r, bxor_ropes(data, ks))
    c.setref(st, c.lastref(st, 0), Agg('cipher', 0, '', (v.fs[0], v.fs[1], ladd(v.fs[2], data.len)), v.names))
    c.ev(st, 'keystream', key=v.fs[0], nonce=v.fs[1], data=data)
    return one(st, ok(UNIT) if c.name.startswith('try') else UNIT)


# ---------------------------------------------------------------- RNG
@m(('RngCore', 'fill_bytes'), ('RngCore', 'try_fill_bytes'), ('Rng', 'fill'))
def _fill_bytes(c, st):
    r = c.lastref(st, 0)
    if not isinstance(r, Ref):
        rv = c.args[0]
    else:
        rv = c.I.load(st, r.obj, r.path)
    d = c.lastref(st, 1)
    old = c.I.load(st, d.obj, d.path)
    n = c.I.length(st, d.obj, d.path)
    t = T('rng', c.I.reify(st, rv), n)
    if isinstance(old, Bytes):
        c.setref(st, d, tb(t, n))
    else:
        havoc(c.I, st, d, old, t, None)
    if isinstance(r, Ref):
        nv = T('rngnext', c.I.reify(st, rv), n)
        c.setref(st, r, nv)
    c.ev(st, 'rng', rng=c.I.reify(st, rv), out=t, n=n)
    return one(st, UNIT if c.name != 'try_fill_bytes' else ok(UNIT))


# ---------------------------------------------------------------- iterators
def to_iter(c, st, v):
    I = c.I
    if isinstance(v, It):
        return v
    if isinstance(v, Agg) and v.path.split('::')[-1] in ('Range', 'RangeInclusive'):
        hi = v.fs[1] if v.path.split('::')[-1] == 'Range' else ladd(v.fs[1], 1)
        return It('range', v.fs[0], hi)
    if isinstance(v, Agg) and v.path.split('::')[-1] == 'RangeFrom':
        return It('range', v.fs[0], T('inf'))
    if isinstance(v, Ref):
        x = I.load(st, v.obj, v.path)
        if isinstance(x, (Bytes, Seq)):
            return It('slice', v, 0, I.length(st, v.obj, v.path))
        if isinstance(x, Ref):
            return to_iter(c, st, x)
        if isinstance(x, It):
            return It('byref', v)
        if isinstance(x, Agg) and x.path.split('::')[-1] in ('Range',):
            return It('byref', v)
        if isinstance(x, T):
            return It('slice', v, 0, I.vlen(x))
        return None
    if isinstance(v, Seq):
        return It('into', v, 0)
    if isinstance(v, Bytes):
        return It('intob', v, 0, v.len)
    if isinstance(v, Agg) and v.vn in ('Some', 'None'):
        return It('into', Seq(v.fs), 0)
    return None


def iter_len(I, st, it):
    k, a = it.k, it.a
    if k == 'slice':
        return lsub(a[2], a[1])
    if k == 'range':
        return lsub(a[1], a[0])
    if k in ('into',):
        return len(a[0].vs) - a[1]
    if k == 'intob':
        return lsub(a[2], a[1])
    if k == 'chunks':
        n = lsub(a[2], a[1])
        if isinstance(n, int):
            return n // a[3] if a[4] else -(-n // a[3])
        return T('count', n, a[3])
    if k == 'zip':
        x, y = iter_len(I, st, a[0]), iter_len(I, st, a[1])
        if isinstance(x, int) and isinstance(y, int):
            return min(x, y)
        if x == y:
            return x
        return x
    if k in ('map', 'enumerate', 'rev', 'cloned', 'inspect', 'mapcopy'):
        return iter_len(I, st, a[0])
    if k == 'take':
        x = iter_len(I, st, a[0])
        if isinstance(x, int) and isinstance(a[1], int):
            return min(x, a[1])
        if isinstance(a[1], int) and not isinstance(x, int):
            return a[1]
    if k == 'skip':
        x = iter_len(I, st, a[0])
        if isinstance(x, int) and isinstance(a[1], int):
            return max(0, x - a[1])
    if k == 'chain':
        return ladd(iter_len(I, st, a[0]), iter_len(I, st, a[1]))
    return None


class Bail(Exception):
    pass


def it_next(c, st, it, idx=None):
    """[(state, iterator', item or None)] ; raises Bail when not handled"""
    I = c.I
    k, a = it.k, it.a
    if k == 'byref':
        inner = I.load(st, a[0].obj, a[0].path)
        inner2 = to_iter(c, st, inner) if not isinstance(inner, It) else inner
        if inner2 is None:
            raise Bail()
        out = []
        for s, i2, x in it_next(c, st, inner2, idx):
            I.store(s, a[0].obj, a[0].path, i2)
            out.append((s, it, x))
        return out
    if k in ('slice', 'range', 'intob', 'chunks', 'into'):
        if k == 'into':
            if a[1] < len(a[0].vs):
                return [(st, It('into', a[0], a[1] + 1), a[0].vs[a[1]])]
            return [(st, it, None)]
        pos, end = (a[0], a[1]) if k == 'range' else (a[1], a[2])
        rem = lsub(end, pos)
        if isinstance(rem, int) or (k == 'range' and isinstance(pos, int) and isinstance(end, T) and end.op == 'inf'):
            if k == 'range':
                if not (isinstance(end, T) and end.op == 'inf') and rem <= 0:
                    return [(st, it, None)]
                return [(st, It('range', ladd(pos, 1), end), pos)]
            if rem <= 0 or (k == 'chunks' and a[4] and rem < a[3]):
                return [(st, it, None)]
            if k == 'slice':
                return [(st, It('slice', a[0], ladd(pos, 1), end), Ref(a[0].obj, I.addpath(tuple(a[0].path), ('i', pos))))]
            if k == 'intob':
                return [(st, It('intob', a[0], ladd(pos, 1), end), elem(a[0], pos))]
            if k == 'chunks':
                n = min(a[3], rem)
                return [(st, It('chunks', a[0], ladd(pos, n), end, a[3], a[4]), Ref(a[0].obj, I.addpath(tuple(a[0].path), ('s', pos, n))))]
        # unknown length: one generic element, then summarise
        if it.snap is None:
            if idx is None:
                I.uid += 1
                idx = T('idx#', I.uid)
            snap = (dict(st.mem), idx, rem)
            if k == 'slice':
                item = Ref(a[0].obj, I.addpath(tuple(a[0].path), ('i', ladd(pos, idx)))) if pos != 0 else Ref(a[0].obj, tuple(a[0].path) + (('i', idx),))
                nit = It('slice', *a, snap=snap)
            elif k == 'range':
                item = ladd(pos, idx)
                nit = It('range', *a, snap=snap)
            elif k == 'intob':
                item = elem(a[0], ladd(pos, idx))
                nit = It('intob', *a, snap=snap)
            else:
                size = a[3]
                item = Ref(a[0].obj, tuple(a[0].path) + (('s', ladd(pos, lscale(idx, size)), size),))
                nit = It('chunks', *a, snap=snap)
            return [(st, nit, item)]
        summarise(c, st, it.snap)
        return [(st, It('into', Seq(()), 0), None)]
    if k == 'zip':
        I.uid += 1
        idx = idx if idx is not None else T('idx#', I.uid)
        out = []
        la, lb = iter_len(I, st, a[0]), iter_len(I, st, a[1])
        # a const-length side decides
        for s, i2, x in it_next(c, st, a[0], idx):
            if x is None:
                out.append((s, It('zip', i2, a[1]), None))
                continue
            for s2, j2, y in it_next(c, s, a[1], idx):
                if y is None:
                    out.append((s2, It('zip', i2, j2), None))
                else:
                    out.append((s2, It('zip', i2, j2), tup(x, y)))
        return out
    if k == 'enumerate':
        out = []
        for s, i2, x in it_next(c, st, a[0], idx):
            if x is None:
                out.append((s, It('enumerate', i2, a[1]), None))
            else:
                n = a[1]
                gi = generic_index(i2)
                out.append((s, It('enumerate', i2, ladd(n, 1)), tup(gi if gi is not None else n, x)))
        return out
    if k == 'rev':
        l = iter_len(I, st, a[0])
        inner = a[0]
        if inner.k == 'range' and isinstance(l, int):
            if l <= 0:
                return [(st, it, None)]
            hi = lsub(inner.a[1], 1)
            return [(st, It('rev', It('range', inner.a[0], hi)), hi)]
        if inner.k == 'slice' and isinstance(l, int):
            if l <= 0:
                return [(st, it, None)]
            hi = lsub(inner.a[2], 1)
            return [(st, It('rev', It('slice', inner.a[0], inner.a[1], hi)), Ref(inner.a[0].obj, I.addpath(tuple(inner.a[0].path), ('i', hi))))]
        if inner.k == 'into':
            if inner.a[1] >= len(inner.a[0].vs):
                return [(st, it, None)]
            vs = inner.a[0].vs
            return [(st, It('rev', It('into', Seq(vs[:-1]), inner.a[1])), vs[-1])]
        # materialise
        res = []
        for s, items in drain(c, st, inner):
            if not items:
                res.append((s, it, None))
            else:
                res.append((s, It('rev', It('into', Seq(items[:-1]), 0)), items[-1]))
        return res
    if k == 'map':
        out = []
        for s, i2, x in it_next(c, st, a[0], idx):
            if x is None:
                out.append((s, It('map', i2, a[1]), None))
            else:
                fobj = a[1]
                for s2, y in I.apply(fobj, [x], s, None, None, c.span, c.fr, c.depth + 1):
                    out.append((s2, It('map', i2, fobj), y))
        return out
    if k == 'cloned':
        out = []
        for s, i2, x in it_next(c, st, a[0], idx):
            if isinstance(x, Ref):
                x = I.load(s, x.obj, x.path)
            out.append((s, It('cloned', i2), x))
        return out
    if k == 'filter':
        out = []
        work = [(st, a[0])]
        while work:
            s, cur = work.pop()
            for s1, i2, x in it_next(c, s, cur, idx):
                if x is None:
                    out.append((s1, It('filter', i2, a[1]), None))
                    continue
                for s2, y in I.apply(a[1], [Ref(I.newobj(s1, x))], s1, None, None, c.span, c.fr, c.depth + 1):
                    if y == 1:
                        out.append((s2, It('filter', i2, a[1]), x))
                    elif y == 0:
                        work.append((s2, i2))
                    else:
                        raise Bail()
        return out
    if k == 'flat':
        # (outer, fn or None, current inner or None)
        out = []
        work = [(st, a[0], a[2])]
        while work:
            s, outer, cur = work.pop()
            if cur is not None:
                for s1, i2, x in it_next(c, s, cur, idx):
                    if x is not None:
                        out.append((s1, It('flat', outer, a[1], i2), x))
                    else:
                        work.append((s1, outer, None))
                continue
            for s1, o2, x in it_next(c, s, outer, idx):
                if x is None:
                    out.append((s1, It('flat', o2, a[1], None), None))
                    continue
                rs = I.apply(a[1], [x], s1, None, None, c.span, c.fr, c.depth + 1) if a[1] is not None else [(s1, x)]
                for s2, y in rs:
                    ni = to_iter(c, s2, y)
                    if ni is None:
                        raise Bail()
                    work.append((s2, o2, ni))
        return out
    if k == 'chain':
        out = []
        for s, i2, x in it_next(c, st, a[0], idx):
            if x is not None:
                out.append((s, It('chain', i2, a[1]), x))
            else:
                for s2, j2, y in it_next(c, s, a[1], idx):
                    out.append((s2, It('chain', i2, j2), y))
        return out
    if k == 'take':
        if a[1] == 0:
            return [(st, it, None)]
        out = []
        for s, i2, x in it_next(c, st, a[0], idx):
            out.append((s, It('take', i2, lsub(a[1], 1)), x))
        return out
    if k == 'skip':
        cur = [(st, a[0])]
        if not isinstance(a[1], int):
            raise Bail()
        for _ in range(a[1]):
            nx = []
            for s, i in cur:
                for s2, i2, x in it_next(c, s, i, idx):
                    nx.append((s2, i2))
            cur = nx
        out = []
        for s, i in cur:
            for s2, i2, x in it_next(c, s, i, idx):
                out.append((s2, It('skip', i2, 0), x))
        return out
    if k == 'stepby':
        out = []
        for s, i2, x in it_next(c, st, a[0], idx):
            if x is None:
                out.append((s, It('stepby', i2, a[1]), None))
                continue
            cur = [(s, i2)]
            for _ in range(a[1] - 1):
                nx = []
                for s1, i1 in cur:
                    for s2, j2, y in it_next(c, s1, i1, idx):
                        nx.append((s2, j2))
                cur = nx
            for s1, i1 in cur:
                out.append((s1, It('stepby', i1, a[1]), x))
        return out
    if k == 'repeat':
        return [(st, it, a[0])]
    raise Bail()


def generic_index(it):
    if it.snap is not None:
        return it.snap[1]
    for x in it.a:
        if isinstance(x, It):
            g = generic_index(x)
            if g is not None:
                return g
    return None


def summarise(c, st, snap):
    """after one generic iteration: close elementwise writes, widen accumulators"""
    mem0, idx, count = snap
    I = c.I
    for o, v in list(st.mem.items()):
        v0 = mem0.get(o)
        if v0 is None or v0 == v and not isinstance(v, Bytes):
            continue
        if v0 == v:
            continue
        nv = close(v0, v, idx, count)
        if nv is not None:
            st.mem[o] = nv


def close(v0, v, idx, count):
    if isinstance(v, (Ref, It, Closure)):
        return None
    if isinstance(v, Bytes):
        if any(s[0] == 'upd' for s in v.segs):
            return norm_close(v, idx)
        if isinstance(v0, Bytes):
            n0 = len(v0.segs)
            if v.segs[:n0] == v0.segs and len(v.segs) > n0:
                tail_ = Bytes(v.segs[n0:])
                return bcat(v0, rep(tail_, idx, count))
            # merged with the previous segment: compare by slicing off the prefix
            d = lsub(v.len, v0.len)
            if bslice(v, 0, v0.len) == v0:
                return bcat(v0, rep(bslice(v, v0.len, d), idx, count))
            return tb(T('loop', T('val', v0), T('val', v)), v.len)
        return None
    if isinstance(v, Agg) and isinstance(v0, Agg) and len(v.fs) == len(v0.fs) and v.path == v0.path and v.vi == v0.vi:
        fs = []
        for x0, x in zip(v0.fs, v.fs):
            if x0 == x:
                fs.append(x)
            else:
                n = close(x0, x, idx, count)
                fs.append(x if n is None else n)
        return Agg(v.path, v.vi, v.vn, fs, v.names)
    if isinstance(v, Seq) and isinstance(v0, Seq):
        if len(v.vs) > len(v0.vs):
            return T('loop', T('val', v0), T('val', v))
        return Seq([x if x == y else (close(y, x, idx, count) or x) for x, y in zip(v.vs, v0.vs)])
    if isinstance(v0, (int, Lin)) and isinstance(v, (int, Lin, T)):
        return T('loop', v0, v)
    if isinstance(v, T) and isinstance(v0, T):
        return T('loop', v0, v, ty=v.ty)
    return None


def rep(tail_, idx, count):
    """`tail_` appended once per iteration"""
    if len(tail_.segs) == 1:
        s = tail_.segs[0]
        if s[0] == 't' and s[3] == 1:
            # one byte per iteration, at position idx + const of the same rope
            off = lsub(s[2], idx)
            if idx not in subterms(off):
                return tb_off(s[1], off, count)
    if len(tail_.segs) == 1 and tail_.segs[0][0] == 'x' and tail_.segs[0][2] == 1:
        fs = set()
        for u in tail_.segs[0][1]:
            if u[0] == 't' and idx not in subterms(lsub(u[2], idx)):
                fs.add(('t', u[1], lsub(u[2], idx), count))
            else:
                fs = None
                break
        if fs:
            return Bytes((('x', frozenset(fs), count),))
    n = tail_.len
    return tb(T('rep', tail_, count), lscale(count, n) if isinstance(n, int) else T('len', T('rep', tail_, count)))


def tb_off(term, off, n):
    return Bytes((('t', term, off, n),))


def norm_close(v, idx):
    out = []
    for s in v.segs:
        if s[0] != 'upd':
            out.append(s)
            continue
        _, base, i, val, ln = s
        if i is not idx and not (isinstance(i, Lin) and idx in subterms(i)):
            out.append(('t', T('wr', base, i, val), 0, ln))
            continue
        val1 = valseg(val)
        done = None
        if i is idx:
            us = [val1] if val1[0] == 't' else (sorted(val1[1], key=repr) if val1[0] == 'x' else None)
            if us is not None and all(u[0] == 't' and idx not in subterms(lsub(u[2], idx)) for u in us):
                fs = frozenset(('t', u[1], lsub(u[2], idx), ln) for u in us)
                # bytes of whole-rope placeholders are put back in place
                ropes = []
                for u in fs:
                    if u[1].op == 'bytes' and isinstance(u[1].args[0], Bytes) and u[2] == 0:
                        ropes.append(u[1].args[0])
                    else:
                        ropes.append(Bytes((u,)))
                acc = ropes[0]
                for r in ropes[1:]:
                    acc = bxor_ropes(acc, r)
                out.extend(acc.segs)
                continue
        out.append(('t', T('map', base, val, idx), 0, ln))
    return norm(out)


def drain(c, st, it, limit=70000):
    """run an iterator to the end: [(state, [items])]; a generic element yields one summary item"""
    work = [(st, it, [])]
    out = []
    while work:
        s, i, items = work.pop()
        while True:
            r = it_next(c, s, i)
            if len(r) > 1:
                for s2, i2, x in r[1:]:
                    if x is None:
                        out.append((s2, items[:]))
                    else:
                        work.append((s2, i2, items + [x]))
            s, i, x = r[0]
            if x is None:
                out.append((s, items))
                break
            items = items + [x] if len(items) < 64 else (items.append(x) or items)
            if len(items) > limit:
                raise Bail()
    return out


def it_method(f):
    def g(c, st):
        try:
            return f(c, st)
        except Bail:
            return None
    return g


@m(('IntoIterator', 'into_iter'), 'core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::slice::iter', 'core::slice::iter_mut', 'core::array::<impl [T; N]>::each_ref')
def _iter(c, st):
    v = c.args[0]
    if isinstance(v, Agg) and v.path.split('::')[-1] == 'Range' and c.name == 'into_iter':
        return one(st, It('range', v.fs[0], v.fs[1]))
    it = to_iter(c, st, v)
    if it is None:
        return None
    return one(st, it)


@m('std::vec::Vec::drain')
def _drain(c, st):
    r = c.lastref(st)
    v = c.I.load(st, r.obj, r.path)
    x = rng(c.args[1], c.I.vlen(v))
    if x is None or not isseq(v):
        return None
    a, b = x
    if isinstance(v, Bytes):
        taken = bslice(v, a, lsub(b, a))
        c.setref(st, r, bcat(bslice(v, 0, a), bslice(v, b, lsub(v.len, b))))
        return one(st, It('intob', taken, 0, taken.len))
    return None


@m('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks_mut', 'core::slice::<impl [T]>::chunks_exact_mut')
def _chunks(c, st):
    r = c.lastref(st)
    if not isinstance(r, Ref) or not isinstance(c.args[1], int):
        return None
    return one(st, It('chunks', r, 0, rlen(c, st), c.args[1], 'exact' in c.name))


@m(('Iterator', 'next'))
@it_method
def _next(c, st):
    r = c.args[0]
    if not isinstance(r, Ref):
        return None
    it = c.I.load(st, r.obj, r.path)
    it = to_iter(c, st, it) if not isinstance(it, It) else it
    if it is None:
        return None
    out = []
    for s, i2, x in it_next(c, st, it):
        c.I.store(s, r.obj, r.path, i2)
        out.append((s, NONE if x is None else some(x)))
    return out


def adapter(kind, extra=0):
    def f(c, st):
        it = to_iter(c, st, c.args[0])
        if it is None:
            return None
        return one(st, It(kind, it, *c.args[1:1 + extra]))
    return f


for nm, kind, ex in (('map', 'map', 1), ('rev', 'rev', 0), ('cloned', 'cloned', 0), ('copied', 'cloned', 0), ('filter', 'filter', 1),
                     ('take', 'take', 1), ('skip', 'skip', 1), ('step_by', 'stepby', 1), ('by_ref', None, 0)):
    if kind:
        TABLE[('Iterator', nm)] = adapter(kind, ex)


@m(('Iterator', 'by_ref'))
def _by_ref(c, st):
    return one(st, c.args[0])


@m(('Iterator', 'enumerate'))
def _enumerate(c, st):
    it = to_iter(c, st, c.args[0])
    return one(st, It('enumerate', it, 0)) if it is not None else None


@m(('Iterator', 'zip'), ('Iterator', 'chain'), 'std::iter::zip', 'core::iter::zip')
def _zip(c, st):
    a, b = to_iter(c, st, c.args[0]), to_iter(c, st, c.args[1])
    if a is None or b is None:
        return None
    return one(st, It('chain' if c.name == 'chain' else 'zip', a, b))


@m(('Iterator', 'flat_map'), ('Iterator', 'flatten'))
def _flat_map(c, st):
    it = to_iter(c, st, c.args[0])
    if it is None:
        return None
    return one(st, It('flat', it, c.args[1] if c.name == 'flat_map' else None, None))


@m('std::iter::once', 'core::iter::once')
def _once(c, st):
    return one(st, It('into', Seq((c.args[0],)), 0))


@m('std::iter::repeat', 'core::iter::repeat')
def _rpt(c, st):
    return one(st, It('repeat', c.args[0]))


@m('std::iter::empty', 'core::iter::empty')
def _empty(c, st):
    return one(st, It('into', Seq(()), 0))


def iter_rope(c, st, it):
    """the bytes an iterator yields, when it walks over one byte string"""
    if it.k == 'intob':
        return bslice(it.a[0], it.a[1], lsub(it.a[2], it.a[1]))
    if it.k == 'slice':
        b = c.I.load(st, it.a[0].obj, it.a[0].path)
        if isinstance(b, Bytes):
            return bslice(b, it.a[1], lsub(it.a[2], it.a[1]))
    if it.k in ('cloned', 'copied', 'mapcopy'):
        return iter_rope(c, st, it.a[0])
    return None


def flat_rope(c, st, it):
    """[(state, bytes)] of a flattened iterator of byte strings, or None"""
    outer, f, cur = it.a
    if cur is not None:
        return None
    if f is not None and isinstance(f, Closure):
        f = Ref(c.I.newobj(st, f))
    out = []
    for s, items in drain(c, st, outer):
        work = [(s, 0, Bytes(()))]
        while work:
            s1, i, acc = work.pop()
            if i == len(items):
                out.append((s1, acc))
                continue
            for s2, y in (c.I.apply(f, [items[i]], s1, None, None, c.span, c.fr, c.depth + 1) if f is not None else [(s1, items[i])]):
                ni = to_iter(c, s2, y)
                b = iter_rope(c, s2, ni) if ni is not None else None
                if b is None:
                    return None
                work.append((s2, i + 1, bcat(acc, b)))
    return out


@m(('Iterator', 'collect'), ('FromIterator', 'from_iter'))
@it_method
def _collect(c, st):
    from interp import byteslike
    it = to_iter(c, st, c.args[0])
    if it is None:
        return None
    rt = c.rty
    inres = None
    if rt is not None and rt.k == 'adt' and rt.path.split('::')[-1] in ('Result', 'Option'):
        inres = rt.path.split('::')[-1]
        rt = rt.targs[0]
    if byteslike(rt) and it.k == 'flat' and not inres:
        r = flat_rope(c, st.copy(), it)
        if r is not None:
            return r
    # symbolic one-to-one copies
    if byteslike(rt):
        n = iter_len(c.I, st, it)
        if n is not None and not isinstance(n, int):
            r = it_next(c, st, it)
            out = []
            for s, i2, x in r:
                g = generic_index(i2)
                if x is None or g is None:
                    return None
                x = c.I.reify(s, x)
                seg = valseg(c.I.scalar(x))
                body = rep(Bytes((seg,)), g, n)
                # let the summary close any side effects
                for s2, i3, y in it_next(c, s, i2):
                    out.append((s2, body))
            return out
    out = []
    for s, items in drain(c, st, it):
        if inres:
            bad = [x for x in items if isinstance(x, Agg) and x.vn in ('Err', 'None')]
            if bad:
                out.append((s, bad[0]))
                continue
            if not all(isinstance(x, Agg) and x.vn in ('Ok', 'Some') for x in items):
                return None
            items = [x.fs[0] for x in items]
        if byteslike(rt):
            items = [c.I.scalar(c.I.reify(s, x)) for x in items]
            v = norm([valseg(x) for x in items]) if all(isinstance(x, (int, T, BV)) for x in items) else Seq(items)
        else:
            v = Seq(items)
        if inres:
            v = ok(v) if inres == 'Result' else some(v)
        out.append((s, v))
    return out


@m(('Iterator', 'for_each'), ('Iterator', 'fold'), ('Iterator', 'try_fold'), ('Iterator', 'try_for_each'))
@it_method
def _fold(c, st):
    it = to_iter(c, st, c.args[0])
    if it is None or c.name.startswith('try'):
        return None
    fe = c.name == 'for_each'
    f = c.args[1] if fe else c.args[2]
    fobj = Ref(c.I.newobj(st, f)) if isinstance(f, Closure) else f
    acc0 = UNIT if fe else c.args[1]
    work = [(st, it, acc0)]
    out = []
    while work:
        s, i, acc = work.pop()
        for s1, i2, x in it_next(c, s, i):
            if x is None:
                if acc is not acc0 and generic_index(i) is not None and not fe:
                    acc = T('loop', T('val', acc0), T('val', c.I.reify(s1, acc)))
                out.append((s1, acc))
                continue
            for s2, y in c.I.apply(fobj, [x] if fe else [acc, x], s1, None, None, c.span, c.fr, c.depth + 1):
                work.append((s2, i2, UNIT if fe else y))
    return out


@m(('Iterator', 'all'), ('Iterator', 'any'))
@it_method
def _all(c, st):
    r = c.lastref(st)
    it = c.I.load(st, r.obj, r.path) if isinstance(r, Ref) else r
    it = to_iter(c, st, it) if not isinstance(it, It) else it
    if it is None:
        return None
    isall = c.name == 'all'
    f = c.args[1]
    fobj = Ref(c.I.newobj(st, f)) if isinstance(f, Closure) else f
    out = []
    work = [(st, it, 1 if isall else 0)]
    while work:
        s, i, acc = work.pop()
        gi = generic_index(i)
        for s1, i2, x in it_next(c, s, i):
            if x is None:
                out.append((s1, acc if gi is None else T('forall' if isall else 'exists', acc if isinstance(acc, T) else T('val', acc))))
                continue
            for s2, y in c.I.apply(fobj, [x], s1, None, None, c.span, c.fr, c.depth + 1):
                na = c.I.boolop('BitAnd' if isall else 'BitOr', acc, y)
                work.append((s2, i2, na))
    return out


@m(('Iterator', 'sum'), ('Iterator', 'count'), ('Iterator', 'last'), ('Iterator', 'product'))
@it_method
def _sum(c, st):
    it = to_iter(c, st, c.args[0])
    if it is None:
        return None
    n = iter_len(c.I, st, it)
    if c.name == 'count' and n is not None:
        return one(st, n)
    if n is None or not isinstance(n, int):
        return None
    out = []
    for s, items in drain(c, st, it):
        if c.name == 'last':
            out.append((s, some(items[-1]) if items else NONE))
            continue
        acc = 0 if c.name == 'sum' else 1
        for x in items:
            acc = c.I.arith('Add' if c.name == 'sum' else 'Mul', acc, c.I.scalar(c.I.reify(s, x)), c.rty)
        out.append((s, acc))
    return out


@m(('ExactSizeIterator', 'len'))
def _itlen(c, st):
    it = c.deref(st)
    if isinstance(it, It):
        n = iter_len(c.I, st, it)
        if n is not None:
            return one(st, n)
    return None


# ---------------------------------------------------------------- option helpers that are not bodies
@m('std::array::from_fn', 'core::array::from_fn')
@it_method
def _from_fn(c, st):
    n = arr_len(c.rty)
    if n is None or n > 4096:
        return None
    f = c.args[0]
    cur = [(st, [])]
    fobj = Ref(c.I.newobj(st, f)) if isinstance(f, Closure) else f
    for i in range(n):
        nx = []
        for s, items in cur:
            for s2, y in c.I.apply(fobj, [i], s, None, None, c.span, c.fr, c.depth + 1):
                nx.append((s2, items + [y]))
        cur = nx
    from interp import byteslike
    return [(s, norm([valseg(x) for x in items]) if byteslike(c.rty) else Seq(items)) for s, items in cur]


@m('core::array::<impl [T; N]>::map', 'std::array::<impl [T; N]>::map')
def _arrmap(c, st):
    v = c.args[0]
    if isinstance(v, Bytes) and isinstance(v.len, int):
        vs = [elem(v, i) for i in range(v.len)]
    elif isinstance(v, Seq):
        vs = v.vs
    else:
        return None
    f = c.args[1]
    fobj = Ref(c.I.newobj(st, f)) if isinstance(f, Closure) else f
    cur = [(st, [])]
    for x in vs:
        nx = []
        for s, items in cur:
            for s2, y in c.I.apply(fobj, [x], s, None, None, c.span, c.fr, c.depth + 1):
                nx.append((s2, items + [y]))
        cur = nx
    from interp import byteslike
    return [(s, norm([valseg(c.I.scalar(x)) for x in items]) if byteslike(c.rty) else Seq(items)) for s, items in cur]


def fmt_rule(c, st):
    p = c.path
    if p.startswith(('std::fmt', 'core::fmt', 'alloc::fmt')) or 'fmt::' in p:
        return one(st, T('fmt') if c.rty is None or c.rty.k != 'never' else UNIT)
    if p.startswith('core::panicking') or p.startswith('std::rt::') or 'panic' in tail(p):
        return one(st, UNIT)
    return None


RULES.insert(0, fmt_rule)
