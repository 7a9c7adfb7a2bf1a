"""Models of the library functions the Saber crate calls (core slices and iterators, secret integers, sha3, OsRng)."""
import bits as B
from bits import V
import bi
from bi import (Agg, Ref, Slice, Str, Opaque, Undecided, Stuck, Panic, It, SliceIt, ChunkIt, Zip, Enum, Rev, Map, Filter,
                Deref, Cap, ListIt, UNIT, copy, some, none, ok, err, width, FnVal, Len)

OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr',
       'wrapping_add': 'Add', 'wrapping_sub': 'Sub', 'wrapping_mul': 'Mul', 'wrapping_shl': 'Shl', 'wrapping_shr': 'Shr'}


def sl(E, v):
    """view a byte-string-like argument as a Slice"""
    v0 = v
    while True:
        if isinstance(v, Slice):
            return v
        if isinstance(v, Ref):
            v = v.c[v.k]
            continue
        if isinstance(v, Agg):
            if v.n in ('array', 'vec', 'ga'):
                return Slice(v.f, 0, len(v.f))
            if v.n == 'Box':
                v = v.f[0]
                continue
            if len(v.f) == 1:
                v = v.f[0]
                continue
        raise Undecided('not a byte string: %r' % (v0,))


def arith(op, a, b, w):
    if op in ('Shl', 'Shr'):
        if isinstance(b, V):
            raise Stuck('shift amount', None, None, b)
        if b >= w:
            b &= w - 1
        return (B.shl if op == 'Shl' else B.shr)(a, b, w)
    return bi.BINW[op](a, b, w)


def sec(t):
    return t is not None and 'secret_integers' in t.s


def hash_out(E, alg, data, n, off=0):
    k = (alg, tuple(B.key(b) for b in data))
    i = bi.HASH_IDS.get(k)
    if i is None:
        i = bi.HASH_IDS[k] = (alg, len(bi.HASH_IDS))
        bi.HASH_INPUTS[i] = list(data)
    t = frozenset().union(*[B.taint(b) for b in data]) if data else frozenset()
    return [B.frombits(8, [B.bitatom((i, off + j, x), t) for x in range(8)]) for j in range(n)]


ALGS = {'Sha3_224': 28, 'Sha3_256': 32, 'Sha3_384': 48, 'Sha3_512': 64, 'Keccak256': 32, 'Keccak512': 64, 'Sha256': 32, 'Sha512': 64}
XOFS = ('Shake128', 'Shake256')


def alg_of(s):
    for a in list(ALGS) + list(XOFS):
        if a in s:
            return a
    return None


def it_of(E, v):
    u = v
    if isinstance(v, It):
        return v
    if isinstance(v, Agg):
        if 'Range' in v.n:
            return v
        if v.n in ('array', 'vec', 'ga'):
            return ListIt(list(v.f))
        if v.n == 'Option':
            return ListIt(list(v.f))
    if isinstance(v, Slice):
        return SliceIt(v)
    if isinstance(v, Ref):
        x = v.c[v.k]
        if isinstance(x, It) or (isinstance(x, Agg) and 'Range' in x.n):
            return v
        if isinstance(x, Ref):
            return it_of(E, x)
        return SliceIt(sl(E, x))
    raise Undecided('into_iter of %r' % (u,))


def truth(v, what='condition'):
    if isinstance(v, V):
        raise Stuck(what, None, None, v)
    return v


def rng_range(E, r, n):
    """(lo, hi) of a range value over a sequence of length n"""
    if r.n.endswith('RangeFull'):
        return 0, n
    a = r.f
    for x in a:
        if isinstance(x, V):
            raise Stuck('slice bound', None, None, x)
    if r.n.endswith('RangeFrom'):
        return a[0], n
    if r.n.endswith('RangeToInclusive'):
        return 0, a[0] + 1
    if r.n.endswith('RangeTo'):
        return 0, a[0]
    if r.n.endswith('RangeInclusive'):
        return a[0], a[1] + 1
    return a[0], a[1]


def eq_values(E, a, b):
    a, b = E.unref(a), E.unref(b)
    if isinstance(a, (int, V)) and isinstance(b, (int, V)):
        w = a.w if isinstance(a, V) else b.w if isinstance(b, V) else 64
        return E.compare('Eq', a, b, w)
    if isinstance(a, Str) and isinstance(b, Str):
        return int(a.s == b.s)
    if isinstance(a, (Slice, Agg)) and isinstance(b, (Slice, Agg)):
        if isinstance(a, Agg) and a.n not in ('array', 'vec', 'ga') and isinstance(b, Agg):
            if a.vi != b.vi or len(a.f) != len(b.f):
                return 0
            xs, ys = a.f, b.f
        else:
            xs, ys = sl(E, a).items(), sl(E, b).items()
        if len(xs) != len(ys):
            return 0
        ls = []
        for x, y in zip(xs, ys):
            r = eq_values(E, x, y)
            if r == 0 and not isinstance(r, V):
                return 0
            if isinstance(r, V):
                ls += B.bits(r)
        if not ls:
            return 1
        v = B.frombits(1, [B.mk_and(ls)])
        if isinstance(v, V):
            E.events.append(('eq', E.span, E.fnname, B.taint(v)))
        return v
    raise Undecided('== of %r and %r' % (a, b))


def rng_source(s):
    s = s.replace('&mut ', '')
    return s


def call(E, d, args, at, dt, sp):
    path, full = d['path'], d.get('rfull') or d['full']
    name = d['name']
    E.span = sp
    E.fnname = full
    E.models.add(path)
    w = width(dt)
    a0 = args[0] if args else None
    tr = d.get('trait') or ''
    # ---- integers (also the secret integers)
    if name in OPS and (w is not None) and len(args) == 2 and (tr.startswith('std::ops') or name.startswith('wrapping')):
        return arith(OPS[name], E.unref(args[0]), E.unref(args[1]), w)
    if name.endswith('_assign') and tr.startswith('std::ops') and isinstance(a0, Ref):
        o = OPS.get(name[:-7])
        t = at[0].elem if at and at[0] is not None and at[0].k == 'ref' else None
        ww = width(t)
        if o and ww:
            a0.set(arith(o, a0.get(), E.unref(args[1]), ww))
            return UNIT
    if name in ('neg', 'wrapping_neg') and w:
        v = E.unref(a0)
        return B.neg(v) if isinstance(v, V) else -v & ((1 << w) - 1)
    if name == 'not' and w and tr.startswith('std::ops'):
        return B.bnot(E.unref(a0), w)
    if name in ('from', 'into', 'classify', 'declassify', 'try_from', 'try_into') and at and len(args) == 1:
        wf = width(at[0])
        if w and wf:
            if name == 'declassify':
                E.events.append(('declassify', sp, None, B.taint(a0) if isinstance(a0, V) else frozenset()))
            if at[0].signed and w > wf and isinstance(a0, int) and a0 >> (wf - 1):
                return (a0 - (1 << wf)) & ((1 << w) - 1)
            return B.cast(a0, wf, w)
    if name == 'rotate_left' and w:
        b = B.bits(a0, w)
        n = truth(args[1]) % w
        return B.frombits(w, b[w - n:] + b[:w - n])
    if name == 'rotate_right' and w:
        b = B.bits(a0, w)
        n = truth(args[1]) % w
        return B.frombits(w, b[n:] + b[:n])
    if name in ('from_le_bytes', 'from_be_bytes') and w:
        xs = sl(E, a0).items()
        if name == 'from_be_bytes':
            xs = xs[::-1]
        bs = []
        for x in xs:
            bs += B.bits(x, 8)
        return B.frombits(w, bs)
    if name in ('to_le_bytes', 'to_be_bytes'):
        ww = width(at[0])
        if ww:
            b = B.bits(E.unref(a0), ww)
            xs = [B.frombits(8, b[i:i + 8]) for i in range(0, ww, 8)]
            return Agg('array', xs if name == 'to_le_bytes' else xs[::-1])
    if name in ('is_power_of_two',) and isinstance(a0, int):
        return int(a0 > 0 and a0 & (a0 - 1) == 0)
    if name in ('min', 'max') and isinstance(a0, int) and isinstance(args[1], int):
        return min(a0, args[1]) if name == 'min' else max(a0, args[1])
    if name in ('pow',) and isinstance(a0, int):
        return a0 ** args[1] & ((1 << (w or 64)) - 1)
    if name in ('eq', 'ne') and len(args) == 2:
        r = eq_values(E, args[0], args[1])
        if name == 'ne':
            return B.bnot(r, 1) if isinstance(r, V) else 1 - r
        return r
    if name in ('lt', 'le', 'gt', 'ge') and len(args) == 2:
        a, b = E.unref(args[0]), E.unref(args[1])
        return E.compare(name.capitalize(), a, b, 64)
    if name in ('ct_eq',):
        a, b = E.unref(args[0]), E.unref(args[1])
        if isinstance(a, (int, V)):
            ww = a.w if isinstance(a, V) else b.w if isinstance(b, V) else 8
            r = E.compare('Eq', a, b, ww)
        else:
            xs, ys = sl(E, a).items(), sl(E, b).items()
            if len(xs) != len(ys):
                r = 0
            else:
                ls = []
                for x, y in zip(xs, ys):
                    q = E.compare('Eq', x, y, 8)
                    ls += B.bits(q, 1)
                r = B.frombits(1, [B.mk_and(ls)]) if ls else 1
        return r
    if name == 'unwrap_u8':
        v = E.unref(a0)
        return B.cast(v, 1, 8)
    if name == 'conditional_select' and w:
        c = B.bits(E.unref(args[2]), 1)[0]
        a, b = B.bits(E.unref(args[0]), w), B.bits(E.unref(args[1]), w)
        return B.frombits(w, [B.mk_or([B.mk_and([c ^ 1, x]), B.mk_and([c, y])]) for x, y in zip(a, b)])
    if name == 'black_box':
        return a0
    # ---- defaults, clones, conversions
    if name == 'default' and dt is not None:
        return default(E, dt)
    if name in ('clone', 'to_owned') and isinstance(a0, Ref):
        return copy(a0.get())
    if name in ('to_vec', 'to_owned', 'into_vec'):
        return Agg('vec', [copy(x) for x in sl(E, a0).items()])
    if name in ('as_ref', 'as_mut', 'borrow', 'borrow_mut', 'as_slice', 'as_mut_slice', 'deref', 'deref_mut', 'as_bytes'):
        if dt is not None and dt.k == 'ref' and dt.elem.k == 'slice':
            return sl(E, a0)
        if isinstance(a0, Ref) and isinstance(a0.get(), Ref):
            return a0.get()
        return a0
    if name in ('into', 'from') and len(args) == 1:
        if dt is not None and at and dt.s == at[0].s:
            return a0
        if isinstance(a0, Agg) and a0.n in ('array', 'ga', 'vec'):
            return Agg('vec' if dt is not None and 'Vec' in dt.s else 'array', a0.f)
        if isinstance(a0, (Slice, Ref)) and dt is not None and 'Vec' in dt.s:
            return Agg('vec', [copy(x) for x in sl(E, a0).items()])
        if isinstance(a0, Str):
            return a0
    if name == 'try_into' or name == 'try_from':
        if isinstance(a0, (Slice, Ref)) and dt is not None:
            t = dt.targs[0] if dt.targs else None
            s = sl(E, a0)
            if t is not None and t.k == 'ref':
                t2 = t.elem
                if t2.k == 'array' and t2.len == len(s):
                    if s.lo == 0 and s.hi == len(s.l):
                        pass
                    return ok(Ref([Agg('array', s.l if s.lo == 0 and s.hi == len(s.l) else s.items())], 0))
                if t2.k == 'array':
                    return err(UNIT)
            if t is not None and t.k == 'array':
                return ok(Agg('array', [copy(x) for x in s.items()])) if t.len == len(s) else err(UNIT)
        if isinstance(a0, int):
            t = dt.targs[0] if dt.targs else None
            if width(t):
                return ok(a0) if a0 < 1 << width(t) else err(UNIT)
    if name == 'into_iter' or name in ('iter', 'iter_mut', 'by_ref'):
        if name == 'by_ref':
            return a0
        return it_of(E, a0)
    # ---- slices
    if name == 'len' and len(args) == 1:
        v = E.unref(a0)
        if isinstance(v, It) or (isinstance(v, Agg) and 'Range' in v.n):
            return E.icount(v)
        return sl(E, a0).length()
    if name == 'is_empty':
        return int(len(sl(E, a0)) == 0)
    if name in ('chunks_exact', 'chunks_exact_mut', 'chunks', 'chunks_mut', 'windows'):
        n = truth(args[1], 'chunk size')
        if n == 0:
            raise Panic('chunk size zero', sp, None)
        return ChunkIt(sl(E, a0), n, 'exact' in name, win=name == 'windows')
    if name in ('as_chunks', 'as_chunks_mut'):
        raise Undecided(name)
    if name in ('split_at', 'split_at_mut'):
        s = sl(E, a0)
        n = truth(args[1], 'slice bound')
        if n > len(s):
            raise Panic('split_at out of bounds', sp, None)
        return Agg('()', [Slice(s.l, s.lo, s.lo + n), Slice(s.l, s.lo + n, s.hi)])
    if name in ('split_first', 'split_last', 'first', 'last', 'first_mut', 'last_mut'):
        s = sl(E, a0)
        if not len(s):
            return none()
        i = s.lo if 'first' in name else s.hi - 1
        r = Ref(s.l, i)
        if name.startswith('split'):
            return some(Agg('()', [r, Slice(s.l, s.lo + 1, s.hi) if 'first' in name else Slice(s.l, s.lo, s.hi - 1)]))
        return some(r)
    if name in ('copy_from_slice', 'clone_from_slice'):
        s, t = sl(E, a0), sl(E, args[1])
        if len(s) != len(t):
            raise Panic('copy_from_slice: lengths %d and %d' % (len(s), len(t)), sp, None)
        s.l[s.lo:s.hi] = [copy(x) for x in t.items()]
        return UNIT
    if name == 'fill':
        s = sl(E, a0)
        s.l[s.lo:s.hi] = [copy(args[1]) for _ in range(len(s))]
        return UNIT
    if name == 'reverse':
        s = sl(E, a0)
        s.l[s.lo:s.hi] = s.items()[::-1]
        return UNIT
    if name == 'swap' and len(args) == 3:
        s = sl(E, a0)
        i, j = truth(args[1], 'memory index'), truth(args[2], 'memory index')
        s.l[s.lo + i], s.l[s.lo + j] = s.l[s.lo + j], s.l[s.lo + i]
        return UNIT
    if name in ('swap', 'replace') and path.startswith(('std::mem', 'core::mem')):
        x = args[0].get()
        if name == 'replace':
            args[0].set(args[1])
            return x
        args[0].set(args[1].get())
        args[1].set(x)
        return UNIT
    if name == 'take' and path.startswith(('std::mem', 'core::mem')):
        x = args[0].get()
        args[0].set(default(E, at[0].elem))
        return x
    if name in ('index', 'index_mut', 'get', 'get_mut', 'get_unchecked', 'get_unchecked_mut') and len(args) == 2:
        s = sl(E, a0)
        i = args[1]
        opt = name in ('get', 'get_mut')
        if isinstance(i, Agg):
            lo, hi = rng_range(E, i, len(s))
            if lo > hi or hi > len(s):
                if opt:
                    return none()
                raise Panic('range out of bounds', sp, None)
            r = Slice(s.l, s.lo + lo, s.lo + hi)
        else:
            i = truth(i, 'memory index')
            if i >= len(s):
                if opt:
                    return none()
                raise Panic('index out of bounds', sp, None)
            r = Ref(s.l, s.lo + i)
        return some(r) if opt else r
    if name == 'concat':
        out = []
        for x in sl(E, a0).items():
            out += [copy(y) for y in sl(E, x).items()]
        return Agg('vec', out)
    # ---- Vec / Box
    if path.startswith(('std::vec', 'alloc::vec', 'std::boxed', 'alloc::boxed')) or '::Vec::<' in full:
        if name in ('new', 'with_capacity'):
            if 'Box' in full:
                return Agg('Box', [a0])
            return Agg('vec', [])
        if name == 'push':
            E.unref(a0).f.append(args[1])
            return UNIT
        if name == 'extend_from_slice':
            E.unref(a0).f.extend(copy(x) for x in sl(E, args[1]).items())
            return UNIT
        if name == 'from_elem':
            return Agg('vec', [copy(a0) for _ in range(truth(args[1]))])
        if name == 'clear':
            del E.unref(a0).f[:]
            return UNIT
        if name == 'truncate':
            del E.unref(a0).f[truth(args[1]):]
            return UNIT
        if name == 'resize':
            v = E.unref(a0).f
            n = truth(args[1])
            v.extend(copy(args[2]) for _ in range(n - len(v)))
            del v[n:]
            return UNIT
    # ---- iterators
    if name == 'next' and len(args) == 1:
        x = E.inext(a0)
        return none() if x is None else some(x)
    if name == 'next_back':
        x = E.iback(a0)
        return none() if x is None else some(x)
    if 'Iterator' in tr or 'Iterator' in path or 'iter::' in path:
        r = iter_call(E, name, args, at, dt, sp, path)
        if r is not NotImplemented:
            return r
    if name == 'from_fn' and 'array' in path:
        return Agg('array', [E.callf(a0, [i]) for i in range(dt.len)])
    if name == 'map' and 'array' in path:
        return Agg('array', [E.callf(args[1], [x]) for x in a0.f])
    if name == 'new' and 'RangeInclusive' in full:
        return Agg('std::ops::RangeInclusive', [args[0], args[1], 0])
    # ---- Option / Result
    if isinstance(a0, Agg) and a0.n.split('::')[-1] in ('Option', 'Result'):
        is_opt = a0.n.split('::')[-1] == 'Option'
        good = a0.vi == (1 if is_opt else 0)
        if name in ('unwrap', 'expect'):
            if good:
                return a0.f[0]
            raise Panic('unwrap on an error', sp, None)
        if name in ('is_ok', 'is_some'):
            return int(good)
        if name in ('is_err', 'is_none'):
            return int(not good)
        if name == 'map':
            return Agg(a0.n, [E.callf(args[1], [a0.f[0]])], a0.vi) if good else a0
        if name == 'map_err':
            return a0 if good else Agg(a0.n, [E.callf(args[1], [a0.f[0]])], a0.vi)
        if name == 'and_then':
            return E.callf(args[1], [a0.f[0]]) if good else a0
        if name in ('unwrap_or', 'unwrap_or_default'):
            return a0.f[0] if good else (args[1] if name == 'unwrap_or' else default(E, dt))
        if name == 'ok':
            return some(a0.f[0]) if good else none()
        if name == 'ok_or':
            return ok(a0.f[0]) if good else err(args[1])
        if name == 'branch':
            return Agg('ControlFlow', [a0.f[0]], 0) if good else Agg('ControlFlow', [a0], 1)
    if name in ('from_residual',):
        return a0
    # ---- hashes
    if name in ('new', 'default') and dt is not None and alg_of(dt.s):
        return Agg('hash:' + alg_of(dt.s), [])
    if name in ('input', 'update', 'chain', 'process', 'absorb', 'chain_update') and alg_of(full) and len(args) == 2:
        h = E.unref(a0)
        h.f.extend(sl(E, args[1]).items())
        return h if name.startswith('chain') else UNIT
    if name in ('digest',) and alg_of(full):
        a = alg_of(full)
        return Agg('array', hash_out(E, a, sl(E, a0).items(), ALGS[a]))
    if name in ('result', 'finalize', 'fixed_result', 'finalize_fixed', 'result_reset', 'finalize_reset') and alg_of(full):
        a = alg_of(full)
        h = E.unref(a0)
        out = Agg('array', hash_out(E, a, h.f, ALGS[a]))
        if name.endswith('reset'):
            h.f = []
        return out
    if name == 'reset' and alg_of(full):
        E.unref(a0).f = []
        return UNIT
    if name in ('xof_result', 'finalize_xof') and alg_of(full):
        h = E.unref(a0)
        return Agg('xof', [h.n[5:], list(h.f), 0])
    if name == 'read' and isinstance(E.unref(a0), Agg) and E.unref(a0).n == 'xof':
        x = E.unref(a0)
        s = sl(E, args[1])
        s.l[s.lo:s.hi] = hash_out(E, x.f[0], x.f[1], len(s), x.f[2])
        x.f[2] += len(s)
        return UNIT
    # ---- randomness
    if name in ('new', 'default') and ('Rng' in full or 'rng' in path.lower()):
        o = Opaque(('rng', full))
        return ok(o) if dt is not None and dt.s.startswith(('std::result::Result', 'core::result::Result', 'Result')) else o
    if name == 'thread_rng':
        return Opaque(('rng', 'rand::thread_rng'))
    if name in ('from_entropy', 'seed_from_u64', 'from_seed', 'from_rng'):
        o = Opaque(('rng', full))
        return ok(o) if dt is not None and 'Result' in dt.s else o
    if name in ('fill_bytes', 'try_fill_bytes', 'try_fill', 'fill') and len(args) == 2:
        r = E.unref(a0)
        src = r.t[1] if isinstance(r, Opaque) and isinstance(r.t, tuple) else full
        s = sl(E, args[1])
        i = len(E.draws)
        E.draws.append((src if src else full, len(s), sp))
        tn = [frozenset([('rng', i, b)]) for b in range(len(s) // 32 + 1)]
        s.l[s.lo:s.hi] = [B.frombits(8, [B.bitatom(('rng', i, j, x), tn[j // 32]) for x in range(8)]) for j in range(len(s))]
        return ok(UNIT) if name.startswith('try') else UNIT
    if name in ('next_u32', 'next_u64'):
        r = E.unref(a0)
        src = r.t[1] if isinstance(r, Opaque) else full
        n = 4 if name == 'next_u32' else 8
        i = len(E.draws)
        E.draws.append((src, n, sp))
        return B.frombits(8 * n, [B.bitatom(('rng', i, x // 8, x % 8), frozenset([('rng', i, 0)])) for x in range(8 * n)])
    # ---- formatting, panics
    if 'panicking' in path or name in ('unwrap_failed', 'expect_failed', 'panic_fmt', 'assert_failed', 'begin_panic'):
        raise Panic('panic', sp, None)
    if 'fmt::' in path:
        return Opaque(('fmt',))
    if name in ('call', 'call_mut', 'call_once') and len(args) == 2 and isinstance(args[1], Agg):
        return E.callf(a0, args[1].f)
    if name in ('size_of',) or name == 'drop' or name == 'forget' or name == 'zeroize':
        if name == 'zeroize':
            s = sl(E, a0)
            s.l[s.lo:s.hi] = [0] * len(s)
        return UNIT
    raise Undecided('no model for %s' % full[:140])


def default(E, t):
    w = width(t)
    if w:
        return 0
    if t.k == 'array':
        return Agg('array', [default(E, t.elem) for _ in range(t.len)])
    if t.k == 'tuple':
        return Agg('()', [default(E, x) for x in (t.elems or [])])
    if alg_of(t.s):
        return Agg('hash:' + alg_of(t.s), [])
    if 'Vec' in t.s:
        return Agg('vec', [])
    if 'Option' in t.s:
        return none()
    if 'GenericArray' in t.s:
        raise Undecided('default GenericArray')
    for n in (t.s, t.path or t.s):
        f = E.P.fns.get((E.crate, '%s::<%s as std::default::Default>::default' % (E.crate, n)))
        if f is not None:
            return E.run(f, [])
    raise Undecided('Default for ' + t.s)


def iter_call(E, name, args, at, dt, sp, path):
    a = args[0]
    if name == 'zip':
        return Zip(it_of(E, a), it_of(E, args[1]))
    if name == 'enumerate':
        return Enum(it_of(E, a))
    if name == 'rev':
        return Rev(it_of(E, a))
    if name == 'map':
        return Map(it_of(E, a), args[1])
    if name == 'filter':
        return Filter(it_of(E, a), args[1])
    if name in ('copied', 'cloned'):
        return Deref(it_of(E, a))
    if name in ('fuse', 'peekable'):
        return it_of(E, a) if name == 'fuse' else NotImplemented
    if name in ('take', 'skip', 'step_by'):
        it = it_of(E, a)
        n = truth(args[1])

        def gen():
            if name == 'take':
                for _ in range(n):
                    x = E.inext(it)
                    if x is None:
                        return
                    yield x
            elif name == 'skip':
                for _ in range(n):
                    if E.inext(it) is None:
                        return
                while True:
                    x = E.inext(it)
                    if x is None:
                        return
                    yield x
            else:
                while True:
                    x = E.inext(it)
                    if x is None:
                        return
                    yield x
                    for _ in range(n - 1):
                        if E.inext(it) is None:
                            return
        return Cap(gen())
    if name == 'chain':
        p, q = it_of(E, a), it_of(E, args[1])

        def ch():
            for it in (p, q):
                while True:
                    x = E.inext(it)
                    if x is None:
                        break
                    yield x
        return Cap(ch())
    if name in ('flat_map', 'flatten'):
        p = it_of(E, a)
        f = args[1] if name == 'flat_map' else None

        def fm():
            while True:
                x = E.inext(p)
                if x is None:
                    return
                q = it_of(E, E.callf(f, [x]) if f is not None else x)
                while True:
                    y = E.inext(q)
                    if y is None:
                        break
                    yield y
        return Cap(fm())
    if name == 'for_each':
        it = it_of(E, a)
        while True:
            x = E.inext(it)
            if x is None:
                return UNIT
            E.callf(args[1], [x])
    if name == 'fold':
        it = it_of(E, a)
        acc = args[1]
        while True:
            x = E.inext(it)
            if x is None:
                return acc
            acc = E.callf(args[2], [acc, x])
    if name == 'sum' and width(dt):
        it = it_of(E, a)
        acc = 0
        while True:
            x = E.inext(it)
            if x is None:
                return acc
            acc = B.add(acc, E.unref(x), width(dt))
    if name == 'count':
        it = it_of(E, a)
        n = 0
        while E.inext(it) is not None:
            n += 1
        return n
    if name in ('all', 'any'):
        it = it_of(E, a)
        while True:
            x = E.inext(it)
            if x is None:
                return int(name == 'all')
            c = truth(E.callf(args[1], [x]), 'short-circuiting %s()' % name)
            if bool(c) == (name == 'any'):
                return int(name == 'any')
    if name == 'nth':
        x = None
        for _ in range(truth(args[1]) + 1):
            x = E.inext(a)
            if x is None:
                return none()
        return some(x)
    if name == 'last':
        r = none()
        it = it_of(E, a)
        while True:
            x = E.inext(it)
            if x is None:
                return r
            r = some(x)
    if name == 'collect':
        it = it_of(E, a)
        out = []
        while True:
            x = E.inext(it)
            if x is None:
                break
            out.append(x)
        if dt is not None and 'Vec' in dt.s:
            return Agg('vec', out)
        return NotImplemented
    if name == 'size_hint':
        return NotImplemented
    return NotImplemented
