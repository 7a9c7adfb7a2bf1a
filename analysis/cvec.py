"""Transfer functions of the vector intrinsics used by the AVX2 sources."""
import cdom as D
from cdom import add, iv


def V(w, l):
    import cint
    return cint.Vec(w, l)


def intrinsic(I, name, ins, args):
    n = name[5:]
    if n.startswith('x86.'):
        n = n[4:]
    L = lambda i, w: I.lanes(args[i], w, 0)
    if n.startswith('abs.v'):
        w = int(n.split('i')[-1])
        return V(w, [absv(w, x) for x in L(0, w)])
    if n.startswith('abs.i'):
        return absv(int(n[5:]), args[0])
    if n.startswith('ctpop'):
        x = args[0]
        w = int(n.split('.i')[1])
        t = 0
        for b in D.bits(w, x):
            t = add(t, b if type(b) is int else D.frombits(1, [b]))
        return t
    if n.startswith(('smax', 'smin', 'umax', 'umin')):
        ty = ins[3]
        w = ty[2][1] if ty[0] == 'vec' else ty[1]

        def mm(a, b):
            c = I.cmp(n[0] + ('ge' if n[1:4] == 'max' else 'le'), w, a, b)
            return I.ite(c, a, b) if type(c) is not int else (a if c else b)
        if ty[0] == 'vec':
            return V(w, [mm(a, b) for a, b in zip(L(0, w), L(1, w))])
        return mm(args[0], args[1])
    if n == 'avx.ptestz.256' or n == 'sse41.ptestz':
        a, b = args
        if a == b or a is b:
            cs = []
            for x in a.l:
                if type(x) is int:
                    cs.append(int(x == 0))
                else:
                    cs.append(D.eq(x))
            return D.b2i(D.c_and(cs))
        w = min(a.w, b.w)
        x = [I.scalar('and', w, p, q, None) for p, q in zip(L(0, w), L(1, w))]
        return D.b2i(D.c_and([D.eq(y) for y in x]))
    if n == 'avx.movmsk.ps.256':
        r = 0
        for i, x in enumerate(L(0, 32)):
            c = I.cmp('slt', 32, x, 0)
            r = add(r, D.b2i(c), 1 << i)
        return r
    if n == 'avx2.pmovmskb':
        r = 0
        for i, x in enumerate(L(0, 8)):
            r = add(r, D.b2i(I.cmp('slt', 8, x, 0)), 1 << i)
        return r
    if n == 'avx2.psign.d':
        out = []
        for a, b in zip(L(0, 32), L(1, 32)):
            pos, neg = I.cmp('sgt', 32, b, 0), I.cmp('slt', 32, b, 0)
            out.append(D.norm(32, add(D.sel(pos, a), D.sel(neg, a), -1)) if type(pos) is not int or type(neg) is not int else a if pos else D.norm(32, D.scale(a, -1)) if neg else 0)
        return V(32, out)
    if n == 'avx.blendv.ps.256':
        out = []
        for a, b, m in zip(L(0, 32), L(1, 32), L(2, 32)):
            c = I.cmp('slt', 32, m, 0)
            out.append(I.ite(c, b, a) if type(c) is not int else (b if c else a))
        return V(32, out)
    if n == 'avx2.pblendvb':
        out = []
        for a, b, m in zip(L(0, 8), L(1, 8), L(2, 8)):
            c = I.cmp('slt', 8, m, 0)
            out.append(I.ite(c, b, a) if type(c) is not int else (b if c else a))
        return V(8, out)
    if n in ('avx2.pmul.hr.sw', 'ssse3.pmul.hr.sw.128'):
        out = []
        for a, b in zip(L(0, 16), L(1, 16)):
            a, b = D.asS(16, a), D.asS(16, b)
            p = D.mul(64, a, b)
            x = D.shr(add(D.shr(p, 14), 1), 1)
            out.append(D.norm(16, x))
        return V(16, out)
    if n == 'avx2.pmulhu.w':
        out = []
        for a, b in zip(L(0, 16), L(1, 16)):
            out.append(D.norm(16, D.shr(D.mul(64, D.asU(16, a), D.asU(16, b)), 16)))
        return V(16, out)
    if n == 'avx2.pmulh.w':
        out = []
        for a, b in zip(L(0, 16), L(1, 16)):
            out.append(D.norm(16, D.shr(D.mul(64, D.asS(16, a), D.asS(16, b)), 16)))
        return V(16, out)
    if n in ('avx2.pslli.d', 'avx2.psrli.d', 'avx2.psrai.d', 'avx2.pslli.w', 'avx2.psrli.w', 'avx2.psrai.w', 'avx2.pslli.q', 'avx2.psrli.q'):
        w = {'d': 32, 'w': 16, 'q': 64}[n[-1]]
        op = 'shl' if 'sll' in n else 'lshr' if 'srl' in n else 'ashr'
        k = args[1]
        return V(w, [I.scalar(op, w, x, k, None) if k < w else (0 if op != 'ashr' else I.scalar(op, w, x, w - 1, None)) for x in L(0, w)])
    if n in ('avx2.psrlv.d.256', 'avx2.psrlv.q.256', 'avx2.psllv.d.256', 'avx2.psllv.q.256', 'avx2.psrlv.d', 'avx2.psllv.d', 'avx2.psrlv.q', 'avx2.psllv.q'):
        w = 32 if '.d' in n else 64
        op = 'lshr' if 'srl' in n else 'shl'
        out = []
        for x, k in zip(L(0, w), L(1, w)):
            if type(k) is not int:
                return NotImplemented
            out.append(I.scalar(op, w, x, k, None) if 0 <= k < w else 0)
        return V(w, out)
    if n in ('avx2.pshuf.b', 'ssse3.pshuf.b.128'):
        a, m = L(0, 8), L(1, 8)
        out = []
        for i, k in enumerate(m):
            if type(k) is not int:
                k = D.asS(8, k)
                if not 0 <= iv(k)[0] <= iv(k)[1] <= 15:
                    return NotImplemented
                out.append(pick(a[i & ~15:(i & ~15) + 16], k))
                continue
            out.append(0 if k < 0 else a[(i & ~15) + (k & 15)])
        return V(8, out)
    if n == 'avx2.permd':
        a, m = L(0, 32), L(1, 32)
        if any(type(k) is not int and not 0 <= iv(k)[0] <= iv(k)[1] <= 7 for k in m):
            return NotImplemented
        return V(32, [a[k & 7] if type(k) is int else pick(a, k) for k in m])
    if n in ('avx2.packusdw', 'avx2.packuswb', 'avx2.packssdw', 'avx2.packsswb', 'sse41.packusdw', 'sse2.packuswb.128', 'sse2.packssdw.128'):
        w = 32 if 'dw' in n else 16
        a, b = L(0, w), L(1, w)
        per = 128 // w
        out = []
        for blk in range(0, len(a), per):
            for src in (a, b):
                for x in src[blk:blk + per]:
                    out.append(sat(I, w, x, 'packu' in n))
        return V(w // 2, out)
    if n in ('avx2.pmadd.ub.sw', 'ssse3.pmadd.ub.sw.128'):
        a, b = L(0, 8), L(1, 8)
        out = []
        for i in range(0, len(a), 2):
            s = add(D.mul(64, D.asU(8, a[i]), D.asS(8, b[i])), D.mul(64, D.asU(8, a[i + 1]), D.asS(8, b[i + 1])))
            lo, hi = iv(s)
            if lo < -32768 or hi > 32767:
                return NotImplemented
            out.append(s)
        return V(16, out)
    if n in ('avx2.pmadd.wd', 'sse2.pmadd.wd'):
        a, b = L(0, 16), L(1, 16)
        out = []
        for i in range(0, len(a), 2):
            s = add(D.mul(64, D.asS(16, a[i]), D.asS(16, b[i])), D.mul(64, D.asS(16, a[i + 1]), D.asS(16, b[i + 1])))
            out.append(D.norm(32, s))
        return V(32, out)
    return NotImplemented


def sat(I, w, x, unsigned):
    h = w // 2
    x = D.asS(w, x)
    lo, hi = (0, (1 << h) - 1) if unsigned else (-(1 << (h - 1)), (1 << (h - 1)) - 1)
    l, u = iv(x)
    if lo <= l and u <= hi:
        return x
    c1, c2 = D.ge(add(lo - 1, x, -1)), D.ge(add(x, -(hi + 1)))
    r = I.ite(c1, lo, x) if type(c1) is not int else (lo if c1 else x)
    return I.ite(c2, hi, r) if type(c2) is not int else (hi if c2 else r)


def absv(w, x):
    if type(x) is int:
        return D.sgn(abs(x), w)
    x = D.asS(w, x)
    if type(x) is int:
        return D.sgn(abs(x), w)
    lo, hi = x.iv
    if lo >= 0:
        return x
    if hi <= 0:
        return D.scale(x, -1)
    c = D.ge(add(-1, x, -1))
    # |x| = x - 2 x [x < 0]
    return D.norm(w, add(x, D.sel(c, x), -2))


def pick(l, k):
    """the element of the list at a position known only at run time"""
    l = l[:iv(k)[1] + 1]
    return D.atom(('pick', tuple(l), k), min(iv(x)[0] for x in l), max(iv(x)[1] for x in l))
