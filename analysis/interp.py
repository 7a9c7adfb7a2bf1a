"""Path-sensitive value-flow analysis over MIR.  The abstract domain is provenance terms
(terms.py); traces are partitioned by enum variants, constant step counters and the outcome of
checks; local callees are inlined, so where a computation is written does not matter."""
from terms import *
import models


class Incomplete(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts', 'ev', 'notes')

    def __init__(self, mem=None, facts=None, ev=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.ev = ev          # linked list (prev, event)

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.ev)

    def log(self, e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        p = self.ev
        while p is not None:
            out.append(p[1])
            p = p[0]
        out.reverse()
        return out


class Event:
    __slots__ = ('k', 'd', 'span', 'fn', 'nf')

    def __init__(self, k, span, fn, **d):
        self.k, self.span, self.fn, self.d = k, span, fn, d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return '%s(%s)@%s' % (self.k, ', '.join('%s=%s' % (k, show(v)) for k, v in self.d.items()), self.span)


def is_u8(t):
    if t is None:
        return False
    if t.k == 'int' and t.bits == 8 and not t.signed:
        return True
    return t.k == 'adt' and t.path is not None and t.path.split('::')[-1] == 'U8'


def byteslike(t):
    """element type if t is an (unsized or owned) byte sequence"""
    if t is None:
        return False
    if t.k in ('array', 'slice'):
        return is_u8(t.elem)
    if t.k == 'str':
        return True
    if t.k == 'adt':
        n = t.path
        if n in ('std::vec::Vec', 'alloc::vec::Vec') or n.endswith('::Vec'):
            return bool(t.targs) and is_u8(t.targs[0])
        if n.endswith('::String'):
            return True
    return False


# opaque objects whose byte encoding has a fixed size
FIXED = {'CompressedRistretto': 32, 'VerifyingKey': 32, 'PublicKey': 32, 'SharedSecret': 32, 'Signature': 64,
         'GenericArray': None}


class Interp:
    def __init__(self, prog, opaque=(), opaque_crates=(), inline_depth=24, budget=400000):
        self.prog = prog
        self.opaque = set(opaque)
        self.opaque_crates = set(opaque_crates)
        self.depth_limit = inline_depth
        self.fid = 0
        self.uid = 0
        self.steps = 0
        self.budget = budget
        self.panics = []
        self.incomplete = []
        self.visited = set()      # (fn key, block)
        self.callsites = 0
        self.unmodelled = {}
        self.stack = []

    # ------------------------------------------------------------ values from types
    def fresh(self, tag, ty=None):
        self.uid += 1
        return T(tag, self.uid, ty=ty)

    def newobj(self, st, v):
        self.uid += 1
        o = ('h', self.uid)
        st.mem[o] = v
        return o

    def mk(self, ty, term, st):
        """abstract value of type ty named by term"""
        if ty is None:
            return term
        k = ty.k
        if k in ('ref', 'ptr'):
            return Ref(self.newobj(st, self.mk(ty.elem, term, st)))
        if k == 'tuple':
            if not ty.elems:
                return UNIT
            return Agg('()', 0, '', [self.mk(e, T('fld', term, str(i), ty=e), st) for i, e in enumerate(ty.elems)])
        if k == 'array':
            if is_u8(ty.elem):
                if ty.len is not None:
                    return tb(term, ty.len)
                return tb(term, T('len', term))
            if ty.len is not None and ty.len <= 4096:
                return Seq([self.mk(ty.elem, T('idx', term, i, ty=ty.elem), st) for i in range(ty.len)])
        if byteslike(ty):
            return tb(term, T('len', term))
        if term.ty is None:
            term.ty = ty
        return term

    def fixed_size(self, ty):
        if ty is None or ty.k != 'adt' or not ty.path:
            return None
        p = ty.path
        z = self.prog.sizes
        if ty.crate and not p.startswith(ty.crate + '::'):
            p = ty.crate + '::' + p
        if p in z:
            return z[p]
        if p + 'Bytes' in z:
            return z[p + 'Bytes']
        if any(q in p for q in ('saber', 'dilithium')):
            return 32 if p.endswith('SharedSecret') else None
        return FIXED.get(p.split('::')[-1])

    def bytes_of(self, t, hint=None):
        """byte encoding of an opaque object"""
        if isinstance(t, T):
            if t.op == 'parse' and isinstance(t.args[1], Bytes):
                return t.args[1]
            n = None
            if t.ty is not None and t.ty.k == 'adt':
                n = self.fixed_size(t.ty)
            b = T('bytes_of', t)
            if hint is not None:
                n = hint
            if n is None:
                n = T('len', b)
            return tb(b, n)
        return None

    # ------------------------------------------------------------ memory
    def step_load(self, v, p, st):
        k = p[0]
        if k == 'f':
            if isinstance(v, Agg):
                if p[1] < len(v.fs):
                    return v.fs[p[1]]
                return T('fld', T('agg', v), p[2], ty=p[3])
            if isinstance(v, Ref):
                return v
            if isinstance(v, Closure):
                return v.caps[p[1]]
            if isinstance(v, T):
                if v.op == 'upd':
                    base, nm, nv = v.args
                    if nm == p[2]:
                        return nv
                    return self.step_load(base, p, st)
                return self.mk(p[3], T('fld', v, p[2], ty=p[3]), st)
            if isinstance(v, It):
                return T('fld', T('it', v), p[2], ty=p[3])
            return v
        if k == 'd':
            if isinstance(v, Agg):
                return v
            if isinstance(v, T):
                return T('as', v, p[2], ty=v.ty)
            return v
        if k == 'i':
            i = p[1]
            if isinstance(v, Bytes):
                return elem(v, i)
            if isinstance(v, Seq):
                if isinstance(i, int):
                    if i < len(v.vs):
                        return v.vs[i]
                    return T('oob', v, i)
                return T('idx', T('seq', v), i)
            if isinstance(v, T):
                if v.op == 'updi':
                    if v.args[1] == i:
                        return v.args[2]
                return T('idx', v, i)
            return T('idx', T('val', v), i)
        if k == 's':
            if isinstance(v, Bytes):
                return bslice(v, p[1], p[2])
            if isinstance(v, Seq):
                if isinstance(p[1], int) and isinstance(p[2], int):
                    return Seq(v.vs[p[1]:p[1] + p[2]])
                return T('slice', v, p[1], p[2])
            if isinstance(v, T):
                return T('slice', v, p[1], p[2])
            return v
        if k == 'ew':
            return v
        raise Incomplete('load ' + str(p))

    def load(self, st, obj, path=()):
        v = st.mem.get(obj)
        if v is None:
            v = T('undef', str(obj[-1]))
        for p in path:
            v = self.step_load(v, p, st)
        return v

    def expand(self, v, st):
        """opaque struct -> aggregate of its fields"""
        ty = v.ty
        if ty is not None and ty.k == 'adt' and not ty.enum and ty.variants and len(ty.variants) == 1:
            fs = ty.variants[0][2]
            if all(f[1] is not None for f in fs):
                return Agg(ty.path, 0, ty.variants[0][0], [self.mk(f[1], T('fld', v, f[0], ty=f[1]), st) for f in fs], [f[0] for f in fs])
        return None

    def put(self, v, path, nv, st):
        if not path:
            return nv
        p = path[0]
        rest = path[1:]
        k = p[0]
        if k == 'f':
            if isinstance(v, T):
                e = self.expand(v, st)
                if e is None:
                    return T('upd', v, p[2], self.put(self.step_load(v, p, st), rest, nv, st), ty=v.ty)
                v = e
            if isinstance(v, Agg):
                fs = list(v.fs)
                while len(fs) <= p[1]:
                    fs.append(T('undef', 'field'))
                fs[p[1]] = self.put(fs[p[1]], rest, nv, st)
                return Agg(v.path, v.vi, v.vn, fs, v.names)
            if isinstance(v, Closure):
                c = list(v.caps)
                c[p[1]] = self.put(c[p[1]], rest, nv, st)
                return Closure(v.key, c)
            return self.put(v, rest, nv, st)
        if k == 'd':
            if isinstance(v, Agg):
                return self.put(v, rest, nv, st)
            if isinstance(v, T):
                if v.ty is not None and v.ty.variants:
                    vn, _, fs = v.ty.variants[p[1]]
                    a = Agg(v.ty.path, p[1], vn, [self.mk(f[1], T('fld', T('as', v, vn, ty=v.ty), f[0], ty=f[1]), st) for f in fs], [f[0] for f in fs])
                    return self.put(a, rest, nv, st)
                return T('upd', v, p[2], nv, ty=v.ty)
            return self.put(v, rest, nv, st)
        if k == 'i':
            i = p[1]
            cur = self.step_load(v, p, st)
            x = self.put(cur, rest, nv, st)
            if isinstance(v, Bytes):
                return bstore_elem(v, i, x)
            if isinstance(v, Seq) and isinstance(i, int) and i < len(v.vs):
                l = list(v.vs)
                l[i] = x
                return Seq(l)
            return T('updi', v if isinstance(v, T) else T('val', v), i, x)
        if k == 's':
            cur = self.step_load(v, p, st)
            x = self.put(cur, rest, nv, st)
            if isinstance(v, Bytes) and isinstance(x, Bytes):
                return bstore_slice(v, p[1], p[2], x)
            if isinstance(v, Seq) and isinstance(x, Seq) and isinstance(p[1], int):
                l = list(v.vs)
                l[p[1]:p[1] + len(x.vs)] = x.vs
                return Seq(l)
            return T('upds', v if isinstance(v, T) else T('val', v), p[1], p[2], x)
        raise Incomplete('store ' + str(p))

    def store(self, st, obj, path, nv):
        if not path:
            st.mem[obj] = nv
            return
        v = st.mem.get(obj)
        if v is None:
            v = T('undef', str(obj[-1]))
        st.mem[obj] = self.put(v, tuple(path), nv, st)

    def addpath(self, path, p):
        """append projection p to path, folding slices"""
        if path and path[-1][0] == 's':
            o, l = path[-1][1], path[-1][2]
            if p[0] == 's':
                return path[:-1] + (('s', ladd(o, p[1]), p[2]),)
            if p[0] == 'i' and isinstance(p[1], int):
                return path[:-1] + (('i', ladd(o, p[1])),)
        return path + (p,)

    def deref_target(self, st, v, ty=None):
        if isinstance(v, Ref):
            return v.obj, v.path
        # opaque pointer: stand-in object holding the pointee
        o = ('p', v)
        if o not in st.mem:
            inner = ty.elem if ty is not None and ty.k in ('ref', 'ptr') else None
            st.mem[o] = self.mk(inner, v, st) if isinstance(v, T) else v
        return o, ()

    def place(self, fr, st, pl):
        obj = (fr.id, pl['l'])
        path = ()
        ty = fr.fn.locals[pl['l']]
        for e in pl['p']:
            k = e['k']
            if k == 'deref':
                v = self.load(st, obj, path)
                obj, path = self.deref_target(st, v, ty)
                ty = ty.elem if ty is not None and ty.elem is not None else (ty.targs[0] if ty is not None and ty.targs else None)
            elif k == 'field':
                fty = fr.fn.tys[e['ty']] if e.get('ty') is not None else None
                if ty is not None and ty.k == 'adt' and str(ty.path).rsplit('::', 1)[-1] in ('MaybeUninit', 'ManuallyDrop', 'MaybeDangling'):
                    ty = fty        # wrappers around a value being initialised: stand for the value itself
                    continue
                path = path + (('f', e['i'], e.get('name', str(e['i'])), fty),)
                ty = fty
            elif k == 'downcast':
                path = path + (('d', e['i'], e.get('name')),)
            elif k == 'index':
                i = self.load(st, (fr.id, e['l']))
                path = self.addpath(path, ('i', self.idx(i)))
                ty = ty.elem if ty is not None else None
            elif k == 'cindex':
                n = self.length(st, obj, path)
                off = lsub(n, e['off']) if e['from_end'] else e['off']
                path = self.addpath(path, ('i', off))
                ty = ty.elem if ty is not None else None
            elif k == 'subslice':
                n = self.length(st, obj, path)
                to = lsub(n, e['to']) if e['from_end'] else e['to']
                path = self.addpath(path, ('s', e['from'], lsub(to, e['from'])))
            else:
                raise Incomplete('projection ' + k)
        return obj, path, ty

    def idx(self, i):
        return i

    def vlen(self, v):
        if isinstance(v, Bytes):
            return v.len
        if isinstance(v, Seq):
            return len(v.vs)
        if isinstance(v, T):
            if v.op == 'slice':
                return v.args[2]
            if v.op in ('upds', 'updi'):
                return self.vlen(v.args[0])
            return T('len', v)
        return T('len', T('val', v))

    def length(self, st, obj, path):
        if path and path[-1][0] == 's':
            return path[-1][2]
        return self.vlen(self.load(st, obj, path))

    # ------------------------------------------------------------ operands
    def constmem(self, m, ty, st):
        if m is None:
            return T('const?')
        if 'bytes' in m:
            return Bytes((('c', bytes.fromhex(m['bytes'])),)) if m['bytes'] else Bytes(())
        if 'ref' in m:
            inner = ty.elem if ty is not None else None
            return Ref(self.newobj(st, self.constmem(m['ref'], inner, st)))
        if 'array' in m:
            inner = ty.elem if ty is not None else None
            return Seq([self.constmem(x, inner, st) for x in m['array']])
        if 'struct' in m:
            vs = ty.variants[0][2] if ty is not None and ty.variants else None
            fs = [self.constmem(x[1], vs[i][1] if vs and i < len(vs) else None, st) for i, x in enumerate(m['fields'])]
            return Agg(m['struct'], 0, ty.variants[0][0] if vs else '', fs, [x[0] for x in m['fields']])
        if 'tuple' in m:
            return UNIT
        if 'int' in m:
            return int(m['int'])
        if 'enumdiscr' in m:
            d = int(m['enumdiscr'])
            if ty is not None and ty.variants:
                for vi, (n, dv, fs) in enumerate(ty.variants):
                    if dv == d:
                        return Agg(ty.path, vi, n, ())
            return T('enum', d)
        return T('const?')

    def operand(self, fr, st, o):
        k = o['k']
        if k in ('copy', 'move'):
            obj, path, _ = self.place(fr, st, o['p'])
            return self.load(st, obj, path)
        if k != 'const':
            return T('runtimechecks')
        ty = fr.fn.tys[o['ty']] if o.get('ty') is not None else None
        if 'fn' in o:
            return FnVal(o['fn'])
        if 'int' in o:
            v = int(o['int'])
            if ty is not None and ty.k == 'int' and ty.signed and v >= 1 << (ty.bits - 1):
                v -= 1 << ty.bits
            if ty is not None and ty.k == 'adt':
                if ty.variants and ty.enum:
                    for vi, (n, dv, fs) in enumerate(ty.variants):
                        if dv == v:
                            return Agg(ty.path, vi, n, ())
            return v
        if 'mem' in o:
            return self.constmem(o['mem'], ty, st)
        if ty is not None and ty.k == 'fndef' and ty.callee:
            return FnVal(ty.callee)
        if o.get('zst') or (ty is not None and ty.k == 'tuple' and not ty.elems):
            if ty is not None and ty.k == 'closure':
                return Closure(ty.key, ())
            if ty is not None and ty.k == 'adt':
                return Agg(ty.path, 0, ty.variants[0][0] if ty.variants else '', ())
            return UNIT
        if 'scalaradt' in o and ty is not None and ty.variants:
            d = int(o['scalaradt'])
            if ty.enum:
                for vi, (n, dv, fs) in enumerate(ty.variants):
                    if dv == d and not fs:
                        return Agg(ty.path, vi, n, ())
            elif len(ty.variants[0][2]) == 1:
                return Agg(ty.path, 0, ty.variants[0][0], (d,), [ty.variants[0][2][0][0]])
        if o.get('pkey'):
            body = self.fnbody(fr.fn.crate, o['pkey'])
            if body is not None:
                r = self.run(body, [], st, 1)
                if len(r) == 1:
                    st.mem.update(r[0][0].mem)
                    return r[0][1]
        nm = o.get('name') or o.get('generic') or o.get('dbg') or 'const'
        if ty is not None and ty.k == 'adt' and (ty.path or '').endswith('option::Option') and 'transmute(0x' in str(nm) and ty.targs and ty.targs[0] is not None and ty.targs[0].k in ('ref', 'ptr'):
            # the null pointer niche
            if int(str(nm).split('transmute(')[1].split(')')[0], 16) == 0:
                return Agg('Option', 0, 'None', ())
        return self.mk(ty, T('const', str(nm), ty.s if ty is not None else ''), st)

    # ------------------------------------------------------------ rvalues
    def arith(self, op, a, b, ty):
        op = op.replace('Unchecked', '').replace('WithOverflow', '')
        bits = ty.bits if ty is not None and ty.k == 'int' else (1 if ty is not None and ty.k == 'bool' else 64)
        signed = bool(ty is not None and ty.k == 'int' and ty.signed)
        mask = (1 << bits) - 1

        def wrap(x):
            x &= mask
            if signed and x >> (bits - 1):
                x -= 1 << bits
            return x
        if isinstance(a, int) and isinstance(b, int):
            if op == 'Add':
                return wrap(a + b)
            if op == 'Sub':
                return wrap(a - b)
            if op == 'Mul':
                return wrap(a * b)
            if op == 'Div' and b:
                q = abs(a) // abs(b)
                return wrap(q if (a < 0) == (b < 0) else -q)
            if op == 'Rem' and b:
                r = abs(a) % abs(b)
                return wrap(-r if a < 0 else r)
            if op == 'BitAnd':
                return wrap(a & b)
            if op == 'BitOr':
                return wrap(a | b)
            if op == 'BitXor':
                return wrap(a ^ b)
            if op == 'Shl':
                return wrap(a << (b % bits))
            if op == 'Shr':
                return wrap((a if signed else a & mask) >> (b % bits))
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return int({'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op])
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(op, a, b)
        if op in ('Add', 'Sub') and bits == 64:
            return ladd(a, b) if op == 'Add' else lsub(a, b)
        if op == 'Mul' and bits == 64:
            if isinstance(a, int):
                return lscale(b, a)
            if isinstance(b, int):
                return lscale(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if bits == 1:
                return self.boolop(op, a, b)
            f = {'BitAnd': band, 'BitOr': bor, 'BitXor': bxor}[op]
            return mkbv([f(x, y) for x, y in zip(bits_of(self.bitable(a), bits), bits_of(self.bitable(b), bits))])
        if op in ('Shl', 'Shr') and isinstance(b, int) and not signed:
            x = list(bits_of(self.bitable(a), bits))
            b %= bits
            x = [0] * b + x[:bits - b] if op == 'Shl' else x[b:] + [0] * b
            return mkbv(x)
        if op in ('Add', 'Sub') and b == 0:
            return a
        if op == 'Add' and a == 0:
            return b
        if op == 'Add' and isinstance(a, BV) and isinstance(b, BV) and all(x == 0 or y == 0 for x, y in zip(a.bits, b.bits)):
            return mkbv([bxor(x, y) for x, y in zip(bits_of(a, bits), bits_of(b, bits))])
        if op in ('Add', 'Mul'):
            x, y = sorted([a, b], key=lambda v: (repr(type(v)), hash(v)))
            return T(op.lower(), x, y, bits)
        return T(op.lower(), a, b, bits)

    def bitable(self, v):
        if isinstance(v, (int, T, BV)):
            return v
        if isinstance(v, Lin):
            return T('lin', v)
        return T('val', v)

    def boolop(self, op, a, b):
        if op == 'BitAnd':
            if a == 0 or b == 0:
                return 0
            if a == 1:
                return b
            if b == 1:
                return a
        if op == 'BitOr':
            if a == 1 or b == 1:
                return 1
            if a == 0:
                return b
            if b == 0:
                return a
        if op == 'BitXor':
            if a == 0:
                return b
            if b == 0:
                return a
            if a == 1:
                return self.neg(b)
            if b == 1:
                return self.neg(a)
        if a == b:
            return a
        return T('b' + op, a, b)

    def neg(self, c):
        if isinstance(c, int):
            return 1 - c
        if isinstance(c, T) and c.op == 'not':
            return c.args[0]
        return T('not', c)

    def compare(self, op, a, b):
        if op == 'Ne':
            return self.neg(self.compare('Eq', a, b))
        if op == 'Gt':
            return self.compare('Lt', b, a)
        if op == 'Ge':
            return self.neg(self.compare('Lt', a, b))
        if op == 'Le':
            return self.neg(self.compare('Lt', b, a))
        if op == 'Eq':
            if a == b:
                return 1
            for x, y in ((a, b), (b, a)):
                # comparing a truth value with 0/1
                if isinstance(y, int) and y in (0, 1) and isinstance(x, T) and x.op in ('ct_eq', 'eq', 'lt', 'not', 'u8bool'):
                    return x if y == 1 else self.neg(x)
            if isinstance(a, (int, Lin, T)) and isinstance(b, (int, Lin, T)):
                d = lsub(a, b)
                if isinstance(d, int):
                    return int(d == 0)
            x, y = sorted([a, b], key=lambda v: (isinstance(v, int), repr(type(v)), getattr(v, 'id', 0)))
            return T('eq', x, y)
        if isinstance(a, (int, Lin, T)) and isinstance(b, (int, Lin, T)):
            n = nonneg(lsub(a, b))
            if n is True:
                return 0
            if n is False:
                return 1
        return T('lt', a, b)

    def rvalue(self, fr, st, r, dty):
        k = r['k']
        if k == 'use':
            return self.operand(fr, st, r['o'])
        if k in ('ref', 'rawptr'):
            obj, path, _ = self.place(fr, st, r['p'])
            return Ref(obj, path)
        if k == 'bin':
            a, b = self.operand(fr, st, r['a']), self.operand(fr, st, r['b'])
            op = r['op']
            ty = fr.fn.tys[r['ty']] if r.get('ty') is not None else None
            if op == 'Offset':
                return T('offset', a, b)
            v = self.arith(op, a, b, ty)
            if op.endswith('WithOverflow'):
                return tup(v, 0)
            return v
        if k == 'un':
            a = self.operand(fr, st, r['o'])
            ty = fr.fn.tys[r['ty']]
            if r['op'] == 'Not':
                if ty.k == 'bool':
                    return self.neg(a)
                if isinstance(a, int):
                    v = ~a & ((1 << ty.bits) - 1)
                    return v - (1 << ty.bits) if ty.signed and v >> (ty.bits - 1) else v
                return mkbv([bxor(x, 1) for x in bits_of(self.bitable(a), ty.bits)])
            if r['op'] == 'Neg':
                if isinstance(a, int):
                    return -a
                return T('neg', a)
            if r['op'] == 'PtrMetadata':
                if isinstance(a, Ref):
                    return self.length(st, a.obj, a.path)
                return T('len', a)
            return T('un' + r['op'], a)
        if k == 'cast':
            a = self.operand(fr, st, r['o'])
            ty = fr.fn.tys[r['ty']] if r.get('ty') is not None else dty
            ck = r.get('ck') or r.get('kind') or ''
            if ty is not None and ty.k == 'int':
                if isinstance(a, int):
                    v = a & ((1 << ty.bits) - 1)
                    if ty.signed and v >> (ty.bits - 1):
                        v -= 1 << ty.bits
                    return v
                if isinstance(a, BV):
                    return mkbv(bits_of(a, ty.bits)) if not ty.signed or ty.bits >= len(a.bits) else T('cast', ty.s, a)
                if isinstance(a, T) and a.op in ('byte', 'elem'):
                    return a
                if isinstance(a, Agg) and not a.fs:
                    # fieldless enum as integer
                    return T('enumint', a)
                if isinstance(a, T) and a.op in ('ct_eq', 'eq', 'lt', 'not'):
                    return a
                sty = a.ty if isinstance(a, T) else None
                if sty is not None and sty.k == 'int' and not sty.signed and not ty.signed:
                    if sty.bits <= ty.bits:
                        return a
                    return mkbv(bits_of(a, ty.bits))
                if isinstance(a, Lin) and ty.bits == 64:
                    return a
                if isinstance(a, T) and sty is None and ty.bits == 64:
                    return a
                return T('cast', ty.s, a)
            return a
        if k == 'discr':
            obj, path, pty = self.place(fr, st, r['p'])
            v = self.load(st, obj, path)
            return self.discr(v, pty)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r['ops']]
            a = r['a']
            if a == 'array':
                ety = fr.fn.tys[r['ety']]
                if is_u8(ety):
                    return norm([valseg(self.scalar(x)) for x in ops])
                return Seq(ops)
            if a == 'tuple':
                return Agg('()', 0, '', ops)
            if a == 'adt':
                return Agg(r['path'], r['vi'], r['variant'], ops, r.get('names'))
            if a == 'closure':
                return Closure(r['key'], ops)
            if a == 'rawptr':
                return ops[0]
            return T('agg', tuple(ops))
        if k == 'repeat':
            v = self.operand(fr, st, r['o'])
            n = r.get('n')
            if n is None:
                n = dty.len if dty is not None else None
            ety = dty.elem if dty is not None else None
            if n is None:
                return T('repeat', v)
            if is_u8(ety):
                v = self.scalar(v)
                if isinstance(v, int):
                    return Bytes((('c', bytes([v & 255]) * n),)) if n else Bytes(())
                return norm([valseg(v)] * n)
            return Seq([v] * n)
        if k == 'len':
            obj, path, _ = self.place(fr, st, r['p'])
            return self.length(st, obj, path)
        return T('rv', str(r.get('dbg', k))[:60])

    def scalar(self, v):
        if isinstance(v, Agg) and len(v.fs) == 1:
            return self.scalar(v.fs[0])
        return v

    def discr(self, v, ty):
        if isinstance(v, Agg):
            if ty is not None and ty.variants and ty.enum:
                for vi, (n, d, fs) in enumerate(ty.variants):
                    if n == v.vn:
                        return d
            return v.vi
        if isinstance(v, T):
            if v.ty is None:
                v.ty = ty
            return T('discr', v)
        if isinstance(v, int):
            return v
        return T('discr', T('val', v))

    # ------------------------------------------------------------ conditions
    def known(self, st, c):
        if isinstance(c, int):
            return c
        if isinstance(c, T):
            if c in st.facts:
                return st.facts[c]
            if c.op == 'not':
                k = self.known(st, c.args[0])
                if k in (0, 1):
                    return 1 - k
            if c.op == 'lt' and all(isinstance(x, (int, Lin, T)) for x in c.args):
                lo, hi = self.bounds(st, lsub(c.args[1], c.args[0]))
                if lo is not None and lo >= 1:
                    return 1
                if hi is not None and hi <= 0:
                    return 0
            if c.op == 'eq' and all(isinstance(x, (int, Lin, T)) for x in c.args):
                lo, hi = self.bounds(st, lsub(c.args[0], c.args[1]))
                if lo is not None and lo == hi == 0:
                    return 1
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    return 0
        elif isinstance(c, Lin):
            lo, hi = self.bounds(st, c)
            if lo is not None and lo == hi:
                return lo
        return None

    # ------------------------------------------------------------ intervals of lengths
    def bounds(self, st, e):
        """interval of a linear expression from the length bounds learnt on this path"""
        if isinstance(e, int):
            return e, e
        c, d = lin(e)
        lo = hi = c
        for k, x in d.items():
            f = st.facts.get(k)
            if isinstance(f, int):
                a = b = f
            else:
                a, b = st.facts.get(('bd', k), (None, None))
                if a is None and isinstance(k, T) and k.op in ('len', 'idx#', 'count'):
                    a = 0
            if x < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + a * x
            hi = None if hi is None or b is None else hi + b * x
        return lo, hi

    def require(self, st, e):
        """record e >= 0 on this path; False if impossible"""
        if isinstance(e, int):
            return e >= 0
        if not isinstance(e, (T, Lin)):
            return True
        lo, hi = self.bounds(st, e)
        if hi is not None and hi < 0:
            return False
        c, d = lin(e)
        for k, x in d.items():
            # k*x >= -(rest max)
            rest = mklin(c, {q: y for q, y in d.items() if q is not k})
            _, rh = self.bounds(st, rest)
            if rh is None:
                continue
            a, b = st.facts.get(('bd', k), (0 if isinstance(k, T) and k.op in ('len', 'idx#', 'count') else None, None))
            if x > 0:
                v = -(rh // x)
                if a is None or v > a:
                    a = v
            else:
                v = rh // (-x)
                if b is None or v < b:
                    b = v
            st.facts[('bd', k)] = (a, b)
        return True

    def assume(self, st, c, v):
        """record c == v; False if contradictory"""
        if isinstance(c, int):
            return c == v
        if isinstance(c, T) and c.op == 'not' and v in (0, 1):
            return self.assume(st, c.args[0], 1 - v)
        k = self.known(st, c)
        if k is not None:
            return k == v
        st.facts[c] = v
        if isinstance(c, T) and c.op == 'eq' and v == 1:
            a, b = c.args
            if isinstance(b, int) and isinstance(a, T):
                st.facts.setdefault(a, b)
            if all(isinstance(x, (int, T, Lin)) for x in (a, b)):
                d = lsub(a, b)
                if not (self.require(st, d) and self.require(st, lscale(d, -1))):
                    return False
        if isinstance(c, T) and c.op == 'lt' and all(isinstance(x, (int, T, Lin)) for x in c.args):
            d = lsub(c.args[1], c.args[0])
            if not self.require(st, ladd(d, -1) if v == 1 else lscale(d, -1)):
                return False
        if isinstance(c, T) and c.op == 'ct_eq' and v == 1:
            a, b = c.args
            if isinstance(a, Bytes) and isinstance(b, Bytes):
                d = lsub(a.len, b.len)
                if not (self.require(st, d) and self.require(st, lscale(d, -1))):
                    return False
        if isinstance(c, T) and c.op == 'discr' and v == 0 and isinstance(c.args[0], T) and c.args[0].op == 'macverify':
            # a successful full-length comparison fixes the length of the received tag
            tag = c.args[0].args[2]
            if isinstance(tag, Bytes):
                d = lsub(tag.len, 32)
                if not (self.require(st, d) and self.require(st, lscale(d, -1))):
                    return False
        if isinstance(c, T) and c.op == 'bBitAnd' and v == 1:
            return self.assume(st, c.args[0], 1) and self.assume(st, c.args[1], 1)
        if isinstance(c, T) and c.op == 'bBitOr' and v == 0:
            return self.assume(st, c.args[0], 0) and self.assume(st, c.args[1], 0)
        return True

    # ------------------------------------------------------------ running
    def fnbody(self, crate, key):
        return self.prog.fns.get((crate, key)) or self.prog.fns.get(key)

    def run(self, fn, args, st, depth=0):
        """all outcomes [(state, value)] of calling fn"""
        self.fid += 1
        fr = Frame(self.fid, fn)
        self.stack.append(fn)
        try:
            if depth > self.depth_limit:
                raise Incomplete('call depth in ' + fn.key)
            spread = fn.d.get('spread')
            for i, a in enumerate(args):
                st.mem[(fr.id, i + 1)] = a
            outs = []
            work = [(st, 0, {})]
            while work:
                st, bb, vis = work.pop()
                while True:
                    self.steps += 1
                    if self.steps > self.budget:
                        raise Incomplete('step budget')
                    self.visited.add((fn.key, bb))
                    blk = fn.blocks[bb]
                    if blk is None:
                        break
                    for s in blk['s']:
                        self.stmt(fr, st, s)
                    t = blk['t']
                    k = t['k']
                    if k == 'goto' or k == 'drop':
                        bb = t['t']
                        continue
                    if k == 'return':
                        v = st.mem.get((fr.id, 0), UNIT)
                        for kk in [x for x in st.mem if x[0] == fr.id]:
                            if kk[1] != 0 or True:
                                pass
                        outs.append((st, v))
                        break
                    if k == 'assert':
                        c = self.operand(fr, st, t['c'])
                        e = 1 if t['e'] else 0
                        kv = self.known(st, c)
                        if kv is not None and kv != e:
                            self.panic(st, fn, t, 'assert ' + t['m'])
                            break
                        # a failing bounds/overflow assertion panics: only the success edge continues
                        bb = t['t']
                        continue
                    if k == 'switch':
                        nxt = self.switch(fr, st, t, vis, bb)
                        if not nxt:
                            break
                        for s2, b2, v2 in nxt[1:]:
                            work.append((s2, b2, v2))
                        st, bb, vis = nxt[0]
                        continue
                    if k == 'call':
                        res = self.call(fr, st, t, depth)
                        if t['t'] is None or not res:
                            if t['t'] is None:
                                for s2, _ in res:
                                    self.panic(s2, fn, t, 'diverging call')
                            break
                        for s2, v2 in res:
                            obj, path, _ = self.place(fr, s2, t['d'])
                            self.store(s2, obj, path, v2)
                        for s2, _ in res[1:]:
                            work.append((s2, t['t'], dict(vis)))
                        st = res[0][0]
                        bb = t['t']
                        continue
                    if k == 'unreachable':
                        break
                    raise Incomplete('terminator ' + k)
            return outs
        finally:
            self.stack.pop()

    def panic(self, st, fn, t, why):
        self.panics.append((st, fn, t.get('fs') or t.get('sp'), why))

    def stmt(self, fr, st, s):
        pl, rv, span = s
        if rv['k'] == 'setdiscr':
            return
        dty = fr.fn.locals[pl['l']] if not pl['p'] else None
        if pl['p'] and pl['p'][-1]['k'] == 'field' and pl['p'][-1].get('ty') is not None:
            dty = fr.fn.tys[pl['p'][-1]['ty']]
        v = self.rvalue(fr, st, rv, dty)
        if pl['p']:
            obj, path, _ = self.place(fr, st, pl)
            self.store(st, obj, path, v)
        else:
            st.mem[(fr.id, pl['l'])] = v

    def switch(self, fr, st, t, vis, bb):
        c = self.operand(fr, st, t['d'])
        if isinstance(c, T) and c.op == 'discr' and isinstance(c.args[0], Agg):
            c = c.args[0].vi
        k = self.known(st, c)
        ts = [(int(v), b) for v, b in t['ts']]
        if k is not None:
            for v, b in ts:
                if v == k:
                    return [(st, b, vis)]
            return [(st, t['other'], vis)]
        n = vis.get(bb, 0)
        if n >= 3:
            self.incomplete.append('loop with an unknown bound at %s' % t['sp'])
            return []
        vis = dict(vis)
        vis[bb] = n + 1
        out = []
        neq = st.facts.get(('ne', c), ())
        for v, b in ts:
            if v in neq:
                continue
            s2 = st.copy()
            if self.assume(s2, c, v):
                out.append((s2, b, dict(vis)))
        # otherwise edge
        rest = None
        if isinstance(c, T) and c.op == 'discr':
            ty = c.args[0].ty if isinstance(c.args[0], T) else None
            if ty is not None and ty.variants:
                rest = [d for _, d, _ in ty.variants if d not in [v for v, _ in ts] and d not in neq]
        elif [v for v, _ in ts] == [0] and self.boolish(fr, t, c):
            rest = [1]
        ob = fr.fn.blocks[t['other']]
        if ob is not None and not (ob['t']['k'] == 'unreachable' and not ob['s']):
            if rest is not None and len(rest) == 0:
                pass
            else:
                s2 = st.copy()
                good = True
                if rest is not None and len(rest) == 1:
                    good = self.assume(s2, c, rest[0])
                else:
                    s2.facts[('ne', c)] = tuple(sorted(set(neq) | {v for v, _ in ts}))
                if good:
                    out.append((s2, t['other'], dict(vis)))
        return out

    def boolish(self, fr, t, c):
        ty = fr.fn.tys[t['ty']] if t.get('ty') is not None else None
        return ty is not None and ty.k == 'bool'

    # ------------------------------------------------------------ calls
    def call(self, fr, st, t, depth):
        self.callsites += 1
        f = t['f']
        args = [self.operand(fr, st, a) for a in t['a']]
        aty = [fr.fn.tys[i] for i in t['at']]
        rty = fr.fn.tys[t['dt']]
        span = t.get('fs') or t['sp']
        if f['k'] == 'const' and 'fn' in f:
            fv = FnVal(f['fn'])
        else:
            fv = self.operand(fr, st, f)
        return self.apply(fv, args, st, aty=aty, rty=rty, span=span, fr=fr, depth=depth)

    def apply(self, fv, args, st, aty=None, rty=None, span='?', fr=None, depth=0):
        """call a function value; returns outcomes"""
        if isinstance(fv, Closure):
            body = self.fnbody(fr.fn.crate if fr else None, fv.key)
            if body is None:
                raise Incomplete('closure ' + fv.key)
            # self argument by reference or by value according to the body
            st2 = st
            selfty = body.locals[1] if body.argc >= 1 else None
            if selfty is not None and selfty.k in ('ref', 'ptr'):
                a0 = Ref(self.newobj(st2, fv))
            else:
                a0 = fv
            return self.run(body, [a0] + list(args), st2, depth + 1)
        if isinstance(fv, Ref):
            inner = self.load(st, fv.obj, fv.path)
            if isinstance(inner, Closure):
                body = self.fnbody(fr.fn.crate if fr else None, inner.key)
                selfty = body.locals[1] if body.argc >= 1 else None
                a0 = fv if selfty is not None and selfty.k in ('ref', 'ptr') else inner
                return self.run(body, [a0] + list(args), st, depth + 1)
            return self.apply(inner, args, st, aty, rty, span, fr, depth)
        if not isinstance(fv, FnVal):
            return [(st, self.mk(rty, T('dyncall', fv if isinstance(fv, T) else T('val', fv), *[self.reify(st, a) for a in args]), st))]
        fn = fv.fn
        tr = fn.get('trait') or ''
        if tr.split('::')[-1] in ('FnOnce', 'FnMut', 'Fn') and fn.get('name', '').startswith('call'):
            inner = args[0]
            ta = args[1]
            av = list(ta.fs) if isinstance(ta, Agg) else [ta]
            if isinstance(inner, (Closure, FnVal)) or (isinstance(inner, Ref) and isinstance(self.load(st, inner.obj, inner.path), (Closure, FnVal, Ref))):
                return self.apply(inner, av, st, None, rty, span, fr, depth)
        if 'ctor' in fn:
            return [(st, Agg(fn['ctor'], fn['vi'], fn['variant'], args))]
        c = models.Call(self, fn, args, aty, rty, span, fr, depth)
        r = models.dispatch(c, st)
        if r is not None:
            return r
        key = fn.get('key')
        if key and not self.is_opaque(fn):
            body = self.fnbody(fr.fn.crate if fr else None, key)
            if body is not None and body not in self.stack[-12:]:
                return self.run(body, args, st, depth + 1)
        # cross-crate bodies
        full = fn.get('rfull') or fn.get('full')
        if not key and not self.is_opaque(fn):
            body = self.prog.fns.get(full) or self.prog.raw.get(fn.get('raw'))
            if body is not None and body not in self.stack[-12:] and not body.d.get('generic'):
                return self.run(body, args, st, depth + 1)
        return models.opaque(c, st)

    def is_opaque(self, fn):
        p = fn.get('rpath') or fn.get('path')
        if (fn.get('rcrate') or fn.get('crate')) in self.opaque_crates and not self.transparent(fn):
            return True
        return p in self.opaque or fn.get('path') in self.opaque

    def transparent(self, fn):
        """functions of an opaque crate that are nevertheless followed: size constants"""
        n = fn.get('name', '')
        return n.endswith('_bytes') and n not in ('as_bytes', 'to_bytes', 'from_bytes', 'into_bytes')

    def reify(self, st, v, d=0):
        """value with references replaced by what they point to"""
        if d > 8:
            return T('deep')
        if isinstance(v, Ref):
            return self.reify(st, self.load(st, v.obj, v.path), d + 1)
        if isinstance(v, Agg):
            if any(isinstance(x, (Ref, Agg, Closure, Seq)) for x in v.fs):
                return Agg(v.path, v.vi, v.vn, [self.reify(st, x, d + 1) for x in v.fs], v.names)
            return v
        if isinstance(v, Seq):
            if any(isinstance(x, (Ref, Agg)) for x in v.vs):
                return Seq([self.reify(st, x, d + 1) for x in v.vs])
            return v
        if isinstance(v, Closure):
            return Closure(v.key, [self.reify(st, x, d + 1) for x in v.caps])
        if isinstance(v, It):
            return It(v.k, *[self.reify(st, x, d + 1) for x in v.a])
        return v


class Frame:
    __slots__ = ('id', 'fn')

    def __init__(self, i, fn):
        self.id, self.fn = i, fn
