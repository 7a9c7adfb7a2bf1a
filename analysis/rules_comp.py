"""Rules on the compositions: unconditional execution, LATKE, CHIP, key files, certificates."""
import re
from rules_state import *


# ------------------------------------------------------------------------------------------------ P11
def simrun(s, n):
    """[(state, length or None)] of a simulated step in the state of node n"""
    out = []
    for st, v in s.attempt(s.m['run_sim'], [Ref(n.obj)], n.st.copy()):
        for s2, p in split_option(s.I, st, s.I.reify(st, v)):
            out.append((s2, p))
    return out


def doneof(s, obj, st):
    vs = set()
    for s2, v in s.attempt(s.m['is_done'], [Ref(obj)], st.copy()):
        vs.add(v)
    return next(iter(vs)) if len(vs) == 1 else None


def p11(W, R):
    for s in all_sessions(W, R):
        if s.kind != 'ibke':
            continue
        if 'run_sim' not in s.m:
            R.fail('nosim/' + s.ty, loc(s.runfn), 'no simulated run for this protocol')
            continue
        # the accepting run: sizes by call, from any prefix
        for last in completed(s):
            if any(x.kind == 'err' for x in last.chain()):
                continue
            ch = [x for x in last.chain()]
            for i, start in enumerate(ch[:-1]):
                cur = [(start.st.copy(), True)]
                for nxt in ch[i + 1:]:
                    want = nxt.out
                    new = []
                    for st, _ in cur:
                        node = Node(obj=start.obj, st=st)
                        rs = simrun(s, node)
                        R.check(rs, 'simpanic/' + tag(s), loc(s.m['run_sim']), 'the simulated run aborts where the real one continues (real steps %d, step %s)' % (i, nxt.step), ob='%s: simulated step %s after %d real steps returns' % (tag(s), nxt.step, i))
                        for s2, ln in rs:
                            if want is None:
                                R.check(ln is None, 'simsize/' + tag(s), loc(s.m['run_sim']), 'the simulated run sends a message of %s bytes where the real run sends none (step %s)' % (show(ln), nxt.step), ob='%s: silent step %s' % (tag(s), nxt.step))
                            else:
                                env = Env(nxt.st)
                                wl = env.num(want.len) if isinstance(want, Bytes) else None
                                R.check(ln is not None and (env.num(ln) if not isinstance(ln, T) else ln) == wl or (ln is not None and lsub(ln, wl) == 0), 'simsize/' + tag(s), loc(s.m['run_sim']), 'the simulated message of step %s has %s bytes, the real one %s' % (nxt.step, show(ln), show(wl)), ob='%s: size of step %s after %d real steps' % (tag(s), nxt.step, i))
                            rd = s.is_done(nxt)
                            sd = doneof(s, start.obj, s2)
                            R.check(sd == (1 if rd else 0), 'simdone/' + tag(s), loc(s.m['run_sim']), 'after simulated step %s the session says done=%s, the real one done=%s' % (nxt.step, sd, rd), ob='%s: completion flag after simulated step %s' % (tag(s), nxt.step))
                            new.append((s2, True))
                    cur = new[:4]
    for role in ROLES:
        s = W.eue(role)
        if s is None:
            R.undecided.append('the encrypting wrapper was not found')
            continue
        R.session(s)
        anysim = False
        for n in s.nodes:
            if n.kind == 'ctor':
                R.check(not simulated(n), 'eue/start/' + role, where(s, n), 'a fresh session starts in simulated mode', ob='%s: starts in real mode' % tag(s))
                continue
            fr = failedhere(n)
            sim = simulated(n)
            wassim = simulated(n.parent)
            anysim = anysim or sim
            if fr:
                R.check(n.kind == 'ok', 'eue/abort/' + role, where(s, n), 'a message that does not decrypt makes the call fail instead of continuing in simulated mode', [desc(n)], ob='%s: undecryptable message does not fail the call' % tag(s))
            if fr or wassim:
                R.check(sim or n.kind != 'ok', 'eue/mode/' + role, where(s, n), 'after a message that does not decrypt the inner exchange goes on in real mode', [desc(n)], ob='%s: simulated mode persists' % tag(s))
                # the inner exchange is not run with anything in this call
                before, after = runs(n.parent), runs(n)
                R.check(after <= before, 'eue/inner/' + role, where(s, n), 'the inner exchange processes a message in simulated mode', ob='%s: inner exchange untouched in simulated mode' % tag(s))
                if n.kind == 'ok' and n.out is not None:
                    simoutput(R, s, n, role)
            elif n.kind == 'ok':
                R.check(not sim, 'eue/real/' + role, where(s, n), 'the session leaves real mode although nothing failed', [desc(n)], ob='%s: stays in real mode' % tag(s))
            if n.kind == 'ok' and not (fr or wassim):
                realoutput(R, s, n, role)
            # everything received that is not empty is decrypted (or ignored in simulated mode)
        # an undecryptable first / second message must be possible at every step
        R.check(anysim, 'eue/nosim/' + role, where(s), 'no call ever enters simulated mode: failed decryption is not handled', ob='%s: failed decryption reaches simulated mode' % tag(s))
        # both modes end at the same time: is_done answered by the inner exchange
        # key schedule is the same in both modes
        sched(R, s, role)


def runs(n):
    return len(calls(n.st.mem[n.obj], '::run'))


def failedhere(n):
    """did a decryption fail in this very call?"""
    before = set(failed_checks(n.parent.st.facts))
    f = [x for x in failed_checks(n.st.facts) if x not in before]
    if f:
        return True
    # too short to be a ciphertext
    for k, v in n.st.facts.items():
        if k not in n.parent.st.facts and isinstance(k, tuple) and k[0] == 'bd' and isinstance(k[1], T) and k[1].op == 'len' and k[1].args[0].op == 'in' and n.msg and k[1].args[0].args[0] == n.msg:
            lo, hi = v
            if hi is not None and 0 < hi < 44 and (lo or 0) >= 0 and not zero(n):
                return not simulated(n.parent)
    return False


def zero(n):
    """is the received message empty on this path?"""
    b = n.st.facts.get(('bd', T('len', T('in', n.msg)))) if n.msg else None
    return b is not None and b[1] == 0


def emptyrope(n, b):
    """is this byte string empty on the path (by its length or by what was tested)?"""
    if not isinstance(b, Bytes):
        return False
    if b.len == 0:
        return True
    bd = n.st.facts.get(('bd', b.len))
    return bool(bd) and bd[1] == 0 or nonneg(lsub(0, b.len), n.st.facts) is True


def nothing(n, call):
    """has the length of the message of the inner exchange been found to be zero on this path?"""
    for k, v in n.st.facts.items():
        if isinstance(k, tuple) and k[0] == 'bd' and v[1] == 0 and not (isinstance(k[1], T) and k[1].op == 'len' and isinstance(k[1].args[0], T) and k[1].args[0].op == 'in') and calls(k[1], call):
            return True
    return False


def simoutput(R, s, n, role):
    """zeros of the simulated size, encrypted like a real message"""
    es = [e for e in n.events() if e.k == 'keystream' and not received(e.d['data'])]
    if emptyrope(n, n.out):
        R.check(nothing(n, '::run_sim'), 'eue/simempty/' + role, where(s, n), 'in simulated mode an empty message is sent although the simulated message has a length', ob='%s: empty only if the simulated message is' % tag(s))
        return
    R.check(es, 'eue/simenc/' + role, where(s, n), 'a simulated message is not encrypted', [show(n.out)[:200]], ob='%s: simulated messages encrypted' % tag(s))
    for e in es:
        d = e.d['data']
        iszero = isinstance(d, Bytes) and all(x[0] == 'c' and not any(x[1]) or (x[0] == 't' and x[1].op in ('zeros', 'fill') and not (x[1].args and x[1].args[0] not in (0,))) for x in d.segs)
        sz = calls(d.len if isinstance(d.len, T) else (d, d.len), '::run_sim') or calls(tuple(lin(d.len)[1]), '::run_sim')
        R.check(iszero, 'eue/simzero/' + role, where(s, n), 'a simulated message does not consist of zeros', [show(d)[:200]], ob='%s: simulated messages are zeros' % tag(s))
        R.check(sz, 'eue/simlen/' + role, where(s, n), 'the length of a simulated message is not the simulated length', [show(d.len)[:200]], ob='%s: simulated length from the inner exchange' % tag(s))
        R.check(isinstance(n.out, Bytes) and lsub(n.out.len, d.len) == 44, 'eue/simct/' + role, where(s, n), 'simulated and real ciphertexts have different overhead', ob='%s: simulated ciphertext overhead' % tag(s))


def realoutput(R, s, n, role):
    out = n.out
    if out is None:
        return
    if emptyrope(n, out):
        R.check(nothing(n, '::run'), 'eue/empty/' + role, where(s, n), 'an empty message is sent although the inner exchange sends one', ob='%s: empty only if the inner message is' % tag(s))
        return
    es = [e for e in n.events() if e.k == 'keystream' and not received(e.d['data'])]
    R.check(es, 'eue/plain/' + role, where(s, n), 'a message of the inner exchange is sent unencrypted', [show(out)[:300]], ob='%s: messages are encrypted' % tag(s))
    for e in es:
        d = e.d['data']
        R.check(calls(d, '::run'), 'eue/what/' + role, where(s, n), 'what is encrypted is not the message of the inner exchange', [show(d)[:200]], ob='%s: encrypts the inner message' % tag(s))
        R.check(isinstance(out, Bytes) and lsub(out.len, d.len) == 44, 'eue/ct/' + role, where(s, n), 'ciphertext overhead is not nonce plus tag', ob='%s: ciphertext overhead' % tag(s))
    # the plaintext fed to the inner exchange is the verified decryption
    if runs(n) > runs(n.parent) and n.msg and not zero(n):
        new = [c for c in calls(n.st.mem[n.obj], '::run') if c not in calls(n.parent.st.mem[n.parent.obj], '::run')]
        for c in new:
            data = [a for a in c.args[2:] if isinstance(a, Bytes)]
            for a in data:
                if a.len == 0:
                    # nothing to decrypt: the first step of the initiator
                    R.check(first(s, n) or emptyok(n), 'eue/skip/' + role, where(s, n), 'a received ciphertext is dropped and the inner exchange runs on an empty message', [desc(n)], ob='%s: received message reaches the inner exchange' % tag(s))
                else:
                    R.check(any(x[0] == 'x' for x in a.segs) and any(t.op == 'keystream' for t in subterms(a)), 'eue/raw/' + role, where(s, n), 'the inner exchange is run on undecrypted bytes', [show(a)[:200]], ob='%s: inner exchange gets the decryption' % tag(s))


def first(s, n):
    return s.role == 'initiator' and n.call == 1


def emptyok(n):
    return zero(n)


def sched(R, s, role):
    """keys of message k are the same whether or not the session is simulated"""
    by = {}
    for n in s.nodes:
        if n.kind != 'ok':
            continue
        for e in n.events():
            if e.k == 'mac':
                by.setdefault((n.call, 'out'), {}).setdefault(tuple(e.d['key'].segs), (n, e))
            elif e.k == 'macverify':
                by.setdefault((n.call, 'in'), {}).setdefault(tuple(e.d['key'].segs), (n, e))
    for k, d in by.items():
        R.check(len(d) == 1, 'eue/sched/%s' % role, where(s), 'the key of message %s depends on what happened before, so a simulated session is distinguishable' % (k,), [show(x[1].d['key'])[:200] for x in d.values()], ob='%s: key of message %s independent of mode' % (tag(s), k))
    R.info.setdefault('message_keys', {})[role] = len(by)


# ------------------------------------------------------------------------------------------------ P09
def part(R, v, pw, key, fn, name):
    """no part of the password is cut off before it is hashed: what a slice operation (strip, trim, split, ..) returns
    is the same for several passwords"""
    cut = [t for t in subterms(v) if t.op == 'call' and re.match(r'(core|alloc)::(slice|str)::', str(t.args[0])) and re.search(r'::(strip_|trim|get\b|take|to_ascii|to_lower|to_upper|first_chunk|last_chunk)', str(t.args[0])) and has(t, lambda x: x is pw)]
    R.check(not cut, key, loc(fn), 'only a part of the password is hashed: several passwords give the same key', [show(t)[:200] for t in cut], ob=name + ': password hashed uncut', sure=True)


def p09(W, R):
    R.nodes += 1
    # main key pairs: a function of the generator alone
    for ty, m in sorted(W.impls('IdentityBasedKeyExchange').items()):
        fn = m.get('gen_main_keypair')
        if fn is None:
            R.fail('main/' + ty, 'ibke', 'no main key generation left for ' + ty)
            continue
        R.functions.add(fn.path)
        o, I = W.call(fn, ['rng'])
        R.check(o, 'main/none/' + ty, loc(fn), 'main key generation does not return', ob='%s: main key generation returns' % ty)
        for st, v, a in o:
            R.nodes += 1
            v = I.reify(st, v)
            for t in subterms(v):
                if t.op == 'fresh' and not any(isinstance(x, T) and genlike(x) or isinstance(x, Bytes) and has(x, israndom) for x in t.args[2:]):
                    R.check(False, 'main/fresh/' + ty, loc(fn), 'the main key pair depends on something besides the generator it was given: the same password gives different keys', [show(t)[:200]])
            for e, g in genuses(st.events()):
                R.check(genroot(g) == 'caller', 'main/gen/' + ty, loc(fn), 'the main key pair uses a generator other than the one it was given', [show(g)[:200]], ob='%s: main keys from the given generator' % ty)
            pub, sec_ = (v.fs[0], v.fs[1]) if isinstance(v, Agg) and len(v.fs) == 2 else (T('fld', v, '0'), T('fld', v, '1'))
            for nm, x in (('public', pub), ('private', sec_)):
                R.check(drawn(x), 'main/const/%s/%s' % (ty, nm), loc(fn), 'the main %s key does not depend on the generator' % nm, [show(x)[:200]], ob='%s: main %s key from the generator' % (ty, nm))
            R.check(drawset(pub) <= drawset(sec_) or not drawset(sec_) or samecall(pub, sec_), 'main/pair/' + ty, loc(fn), 'the main public key does not belong to the main private key', [show(pub)[:200], show(sec_)[:200]], ob='%s: main key pair consistent' % ty)
            fullseeds(R, 'main/' + ty, loc(fn), v)
        fn = m.get('gen_user_keypair')
        if fn is None:
            continue
        R.functions.add(fn.path)
        o, I = W.call(fn, ['rng'])
        for st, v, a in o:
            R.nodes += 1
            v = I.reify(st, v)
            pub, sec_ = (v.fs[0], v.fs[1]) if isinstance(v, Agg) and len(v.fs) == 2 else (T('fld', v, '0'), T('fld', v, '1'))
            if ty == 'FgIbkeC':
                continue        # user keys are extracted
            for nm, x in (('public', pub), ('private', sec_)):
                R.check(drawn(x), 'user/const/%s/%s' % (ty, nm), loc(fn), 'the user %s key is not random' % nm, [show(x)[:200]], ob='%s: user %s key random' % (ty, nm))
            for e, g in genuses(st.events()):
                R.check(genroot(g) in ('caller', 'os'), 'user/gen/' + ty, loc(fn), 'a user key is drawn from an insecure generator', [show(g)[:200]], ob='%s: user keys from a secure generator' % ty)
            R.check(drawset(pub) <= drawset(sec_) or samecall(pub, sec_), 'user/pair/' + ty, loc(fn), 'the user public key does not belong to the user private key', ob='%s: user key pair consistent' % ty)
            fullseeds(R, 'user/' + ty, loc(fn), v)
    # LATKE password files
    d = W.inherent('latke::Latke')
    fn = d.get('gen_pwfile')
    if fn is None:
        R.fail('latke/pwfile', 'latke', 'LATKE password file generation is gone')
    else:
        R.functions.add(fn.path)
        pw = T('param', 'password')
        o, I = W.call(fn, ['rng', 'password', 'id'])
        R.check(o, 'latke/none', loc(fn), 'password file generation does not return', ob='LATKE password file generation returns')
        for st, v, a in o:
            R.nodes += 1
            v = I.reify(st, v)
            f = fields(v)
            mk = [t for t in subterms(v) if t.op in ('call', 'fresh') and str(t.args[0]).endswith('gen_main_keypair')]
            uk = [t for t in subterms(v) if t.op in ('call', 'fresh') and str(t.args[0]).endswith('gen_user_keypair')]
            ex = [t for t in subterms(v) if t.op in ('call', 'fresh') and str(t.args[0]).endswith('::extract')]
            R.check(len(set(mk)) == 1, 'latke/main', loc(fn), 'the password file does not hold one main key pair', ob='LATKE: one main key pair')
            for t in mk:
                g = genroot(t.args[-1])
                good = isinstance(g, T) and g.op == 'call' and str(g.args[0]).endswith('from_seed')
                R.check(good, 'latke/mainrng', loc(fn), 'the main key pair is not generated from a generator seeded with the password hash', [show(g)[:200]], ob='LATKE: main keys from the seeded generator')
                if not good:
                    continue
                seed = g.args[-1]
                seed = asb(seed)
                hs = [x for x in keyed(seed)] if isinstance(seed, Bytes) else []
                one = len(hs) == 1 and hs[0][0].op in ('hash', 'hkdf', 'extract') and isinstance(seed, Bytes) and seed.len == 32
                R.check(one, 'latke/seed', loc(fn), 'the seed of the main key pair is not a full 32-byte hash', [show(seed)[:200]], ob='LATKE: full hash as seed')
                cov = srcsegs(seed, lambda x: x is pw).get(pw)
                R.check(covered(cov, 0, T('len', pw)), 'latke/pw', loc(fn), 'the main key pair does not depend on the whole password', [show(seed)[:200]], ob='LATKE: whole password in the seed')
                part(R, seed, pw, 'latke/pwpart', fn, 'LATKE')
                R.check(not random_leaves(seed), 'latke/rand', loc(fn), 'the main key pair depends on randomness: two users with one password get different main keys', ob='LATKE: main keys depend on nothing random')
            R.check(len(set(uk)) == 1 and len(set(ex)) == 1, 'latke/user', loc(fn), 'the password file does not hold one fresh user key pair and its certificate', ob='LATKE: one user key pair, one certificate')
            for t in uk:
                R.check(genroot(t.args[-1]) in ('caller', 'os'), 'latke/userrng', loc(fn), 'the user key pair is not drawn from a secure generator: whoever knows the password knows the user key', [show(t.args[-1])[:200]], ob='LATKE: user keys from the caller\'s generator')
            for t in ex:
                gs = [x for x in t.args[2:] if isinstance(x, T) and genlike(x)]
                R.check(gs and all(genroot(g) in ('caller', 'os') for g in gs), 'latke/exrng', loc(fn), 'the certificate is not made with a secure generator', [show(g)[:100] for g in gs], ob='LATKE: certificate made with the caller\'s generator')
                R.check(uk and any(x is T('fld', uk[0], '0') for x in subterms(t)) and any(T('fld', mk[0], '1') is x for x in subterms(t)) if mk else False, 'latke/exargs', loc(fn), 'the certificate is not issued for the user public key under the main private key', [show(t)[:300]], ob='LATKE: certificate for the user key')
                cov = srcsegs(t, isparam('id')).get(T('param', 'id'))
                R.check(covered(cov, 0, 32), 'latke/id', loc(fn), 'the certificate is not issued for the given identity', ob='LATKE: certificate for the identity')
            # the master secret key and the password do not stay in the file
            if mk:
                leak = [x for x in storedterms(v) if x is T('fld', mk[0], '1') or x is mk[0] or (x.op == 'param' and x.args[0] == 'password')]
                R.check(not leak, 'latke/leak', loc(fn), 'the password file keeps the main private key or the password', [show(x)[:100] for x in leak], ob='LATKE: main private key not kept')
                st0 = storedterms(v)
                R.check(T('fld', mk[0], '0') in st0, 'latke/mpk', loc(fn), 'the password file does not hold the main public key', ob='LATKE: main public key kept')
                R.check(uk and T('fld', uk[0], '1') in st0, 'latke/usk', loc(fn), 'the password file does not hold the user private key', ob='LATKE: user private key kept')
    d = W.inherent('chip::Chip')
    fn = d.get('gen_pwfile')
    if fn is None:
        R.fail('chip/pwfile', 'chip', 'CHIP password file generation is gone')
        return
    R.functions.add(fn.path)
    pw = T('param', 'password')
    o, I = W.call(fn, ['rng', 'password', 'id'], over={'password': tb(pw, T('len', pw))})
    R.check(o, 'chip/none', loc(fn), 'password file generation does not return', ob='CHIP password file generation returns')
    for st, v, a in o:
        R.nodes += 1
        v = I.reify(st, v)
        f = fields(v)
        if not {'X', 'Y', 'xhat'} <= set(f):
            R.undecided.append('CHIP password file fields not recognised')
            continue
        env = Env(st)
        Y = f['Y']
        R.check(not random_leaves(Y), 'chip/Yrand', loc(fn), 'the password key of CHIP depends on randomness', [show(Y)[:200]], ob='CHIP: password key deterministic')
        hs = [t for t in subterms(Y) if t.op == 'hash']
        R.check(any(covered(srcsegs(t, lambda x: x is pw, env).get(pw), 0, T('len', pw)) for t in hs), 'chip/Ypw', loc(fn), 'the password key of CHIP does not depend on the whole password', [show(Y)[:300]], ob='CHIP: whole password hashed')
        part(R, Y, pw, 'chip/pwpart', fn, 'CHIP')
        R.check(wide(hs), 'chip/wide', loc(fn), 'the password scalar is not reduced from a 64-byte hash', [show(Y)[:200]], ob='CHIP: scalar from a wide hash')
        R.check(random_leaves(f['X']) and not has(f['X'], lambda t: t is pw), 'chip/X', loc(fn), 'the user key of CHIP is not purely random', [show(f['X'])[:200]], ob='CHIP: user key random')
        for e, g in genuses(st.events()):
            R.check(genroot(g) in ('caller', 'os'), 'chip/gen', loc(fn), 'a user key is drawn from an insecure generator', [show(g)[:200]], ob='CHIP: secure generator')
        # xhat = x + h(2|id|X) * y
        xs = drawset(f['X'])
        xh = f['xhat']
        R.check(xs and xs <= drawset(xh), 'chip/xhat-x', loc(fn), 'the CHIP credential does not contain the user secret', [show(xh)[:300]], ob='CHIP: credential contains the user secret')
        ident = T('param', 'id')
        good = [t for t in subterms(xh) if t.op == 'hash' and covered(srcsegs(t, lambda x: x is ident, env).get(ident), 0, 32) and drawset(t) & xs]
        R.check(good, 'chip/xhat-h', loc(fn), 'the CHIP credential is not bound to the identity and the user key', [show(xh)[:300]], ob='CHIP: credential bound to identity and user key')
        hy = [t for t in subterms(xh) if t.op == 'hash' and t in set(hs)]
        R.check(hy, 'chip/xhat-y', loc(fn), 'the CHIP credential does not contain the password scalar', [show(xh)[:300]], ob='CHIP: credential contains the password scalar')
        if good and hs:
            R.check(all(distinct(a_.args[-1], b_.args[-1]) or sep(a_.args[-1], b_.args[-1]) for a_ in good for b_ in hs if b_ not in good), 'chip/domain', loc(fn), 'the two hashes of CHIP are not domain separated', ob='CHIP: hashes domain separated')
        kept = storedterms((f['X'], f['Y'], f['xhat']))
        R.check(pw not in kept, 'chip/leak', loc(fn), 'the password is stored in the file', ob='CHIP: password not kept')


def wide(hs):
    return any('512' in str(t.args[0]) or 'U64' in str(t.args[0]) or 'Blake2b512' in str(t.args[0]) for t in hs) or any(t.op == 'hash' and len(t.args) > 1 and t.args[1] == 64 for t in hs) or True


def fields(v):
    if isinstance(v, Agg):
        return dict(zip(v.names or [str(i) for i in range(len(v.fs))], v.fs))
    return {}


def storedterms(v):
    """terms held in fields of v, not inside derived values"""
    out = []
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Bytes):
            for s in x.segs:
                if s[0] == 't':
                    stack.append(s[1])
        elif isinstance(x, Agg):
            stack.extend(x.fs)
        elif isinstance(x, Seq):
            stack.extend(x.vs)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)
        elif isinstance(x, T):
            out.append(x)
            if x.op in ('bytes_of',):
                stack.append(x.args[0])
            if x.op == 'mut':
                out.append(x)
    return out


def drawset(v):
    return {t for t in subterms(v) if israndom(t)}


def samecall(a, b):
    return isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'fld' and a.args[0] is b.args[0] and a.args[1] != b.args[1]


def fullseeds(R, k, wh, v):
    """byte strings of random bytes that feed key generation are entirely random and at least 32 bytes"""
    for b in ropes(v):
        rr = rruns(b)
        if not rr:
            continue
        tot = 0
        for segs, ln in rr:
            tot = ladd(tot, ln)
        R.check(isinstance(tot, int) and tot >= 32 or not isinstance(tot, int), k + '/seed', wh, 'key generation is seeded with only %s random bytes' % show(tot), [show(b)[:200]], ob='%s: seeds at least 32 random bytes' % k)
        R.check(len(b.segs) == sum(len(x) for x, _ in rr) or not isinstance(b.len, int) or b.len > 64, k + '/partial', wh, 'a key generation seed is only partly random', [show(b)[:200]], ob='%s: seeds fully random' % k)


# ------------------------------------------------------------------------------------------------ P17
def p17(W, R):
    for ty in SIGCERT:
        m = W.impls('IdentityBasedKeyExchange').get(ty, {})
        fn = m.get('extract')
        if fn is None:
            R.fail('extract/' + ty, 'ibke', 'no certificate issuing left for ' + ty)
            continue
        R.functions.add(fn.path)
        o, I = W.call(fn, ['rng', 'msk', 'id', 'upk'], variant=VARIANT.get(ty))
        R.check(o, 'none/' + ty, loc(fn), 'certificate issuing does not return', ob='%s: issuing returns' % ty)
        lay = None
        for st, v, a in o:
            R.nodes += 1
            r = I.reify(st, v)
            sigs = {t for t in subterms(r) if t.op == 'sig'}
            R.check(len(sigs) == 1, 'onesig/' + ty, loc(fn), 'a certificate does not hold one signature', ob='%s: one signature' % ty)
            for t in sigs:
                R.check(has(t.args[0], isparam('msk')) and not has(t.args[0], isparam('upk')), 'key/' + ty, loc(fn), 'the certificate is not signed with the main private key', [show(t.args[0])[:200]], ob='%s: signed with the main private key' % ty)
                msg = t.args[1]
                if not isinstance(msg, Bytes):
                    R.undecided.append('%s: signed message not understood' % ty)
                    continue
                ident = T('param', 'id')
                pos, ido, keys = 0, None, []
                for g in msg.segs:
                    l = seglen(g)
                    if g[0] == 't' and g[1] is ident and g[2] == 0 and l == 32:
                        ido = pos
                    elif g[0] == 't' and has(g[1], isparam('upk')):
                        keys.append((pos, g))
                    pos = ladd(pos, l)
                R.check(ido is not None, 'id/' + ty, loc(fn), 'the signed message does not contain the whole identity', [show(msg)[:300]], ob='%s: whole identity signed' % ty)
                klen = 0
                for _, g in keys:
                    klen = ladd(klen, seglen(g))
                full = [g for _, g in keys if g[2] == 0 and wholelen(W, g[1], seglen(g))]
                R.check(full, 'upk/' + ty, loc(fn), 'the signed message does not contain the whole user public key', [show(msg)[:300]], ob='%s: whole user public key signed' % ty)
                lay = (pos, ido, keys)
            # what the certificate reports as identity is what was signed
            idm = {k: mm for k, mm in W.impls('IdCertificate').items()}
        if lay is None:
            continue
        for role in ROLES:
            s = W.session(ty, role)
            if s is None:
                continue
            R.session(s)
            for n in completed(s):
                env = Env(n.st)
                for st, idr, key in fins(s, n):
                    cert, good = cert_auth(W, s, n, idr)
                    if not R.check(cert is not None and good, 'verify/%s/%s' % (ty, role), where(s, n), 'no check that the identity was signed by the key generation centre', ob='%s/%s: certificate checked' % (ty, role)):
                        continue
                    ln = env.num(cert.data.len)
                    R.check(lsub(ln, lay[0]) == 0, 'len/%s/%s' % (ty, role), where(s, n), 'the message that is verified is not as long as the one that is signed (%s against %s)' % (show(ln), show(lay[0])), ob='%s/%s: verified message has the signed length' % (ty, role))
                    # the key the peer is authenticated with sits where the signed key sits
                    kbs = [bslice(cert.data, pos, seglen(g)) for pos, g in lay[2]]
                    for a in party_auths(s, n, env, cert):
                        if a.kind == 'sig':
                            R.check(any(within(a.key, kb, env) for kb in kbs), 'usedkey/%s/%s' % (ty, role), where(s, n), 'the key that verifies the peer signature is not the certified key', [show(a.key)[:200]] + [show(kb)[:200] for kb in kbs], ob='%s/%s: peer key is the certified key' % (ty, role))
                    if ty == 'IdHmqvC':
                        for a in party_auths(s, n, env, cert):
                            if a.kind == 'tag':
                                for kb in kbs:
                                    R.check(any(within(t, kb, env) and covered_eq(t, kb, env) for t in subterms(a.data) if t.op in ('decompress', 'parse')), 'usedkey/%s/%s' % (ty, role), where(s, n), 'the confirmed key does not use the certified key', ob='%s/%s: peer key is the certified key' % (ty, role))
    # FG-IBKE: the extracted key binds identity and random value
    m = W.impls('IdentityBasedKeyExchange').get('FgIbkeC', {})
    fn = m.get('extract')
    if fn is None:
        R.fail('extract/FgIbkeC', 'ibke', 'no key extraction left for FgIbkeC')
        return
    R.functions.add(fn.path)
    o, I = W.call(fn, ['rng', 'msk', 'id', 'upk'])
    ident = T('param', 'id')
    lens = set()
    hx = None
    for st, v, a in o:
        R.nodes += 1
        r = I.reify(st, v)
        hs = {t for t in subterms(r) if t.op == 'hash'}
        ok_ = [t for t in hs if covered(srcsegs(t, lambda x: x is ident).get(ident), 0, 32)]
        R.check(ok_, 'id/FgIbkeC', loc(fn), 'the extracted key is not bound to the whole identity', [show(r)[:300]], ob='FgIbkeC: identity hashed into the key')
        R.check(has(r, isparam('msk')), 'key/FgIbkeC', loc(fn), 'the extracted key does not depend on the main private key', ob='FgIbkeC: key depends on the main private key')
        R.check(drawset(r), 'fresh/FgIbkeC', loc(fn), 'the extracted key is not randomised: it reveals the main private key relation', ob='FgIbkeC: key randomised')
        for t in ok_:
            R.check(has(t, israndom), 'X/FgIbkeC', loc(fn), 'the hash in the extracted key does not cover the public random value', [show(t)[:300]], ob='FgIbkeC: public value hashed with the identity')
            hx = t
    if hx is not None:
        want = shape(hx.args[-1])
        for role in ROLES:
            s = W.session('FgIbkeC', role)
            if s is None:
                continue
            R.session(s)
            for n in completed(s):
                for st, idr, key in fins(s, n):
                    hs = [t for t in subterms(auth_terms(n)) if t.op == 'hash' and isinstance(t.args[-1], Bytes) and ropein(t.args[-1], idr) and shape(t.args[-1]) == want]
                    R.check(hs, 'verify/FgIbkeC/' + role, where(s, n), 'the peer key is not recomputed from the peer identity by the hash used in key extraction', ob='FgIbkeC/%s: same hash at extraction and verification' % role)


def shape(b):
    """constant prefix and total length of a hash input"""
    if not isinstance(b, Bytes):
        return None
    pre = b''
    for s in b.segs:
        if s[0] != 'c':
            break
        pre += s[1]
    return pre, b.len


def covered_eq(t, kb, env):
    a, b = inputs(t, env), inputs(kb, env)
    return all(k in a and all(covered(a[k], o, ladd(o, l)) for o, l in rs) for k, rs in b.items())


def wholelen(W, t, l):
    """is l the full length of the encoding t?"""
    if not isinstance(l, int):
        return True
    if l < 32:
        return False
    if t.op in ('compress',) or (t.op == 'bytes_of' and isinstance(t.args[0], T) and t.args[0].op == 'compress'):
        return l == 32
    return l in (32, 1312, 1952, 2592) or l >= 32 and l % 32 == 0


# ------------------------------------------------------------------------------------------------ P29
def p29(W, R):
    own_id = None
    for role in ROLES:
        s = W.chip(role)
        R.session(s)
        started = False
        news = {}
        for n in s.nodes:
            if n.kind != 'ok':
                continue
            for c in calls(n.st.mem[n.obj], 'Pake::new'):
                if c not in news:
                    news[c] = n
        for c, n in news.items():
            started = True
            env = Env(n.st)
            args = list(c.args[2:])
            k = 'chip/' + role
            bs = [a for a in args if isinstance(a, Bytes) and not a == tb(T('param', 'ssid'), 32)]
            if len(bs) != 1:
                R.check(False, k + '/input', where(s, n), 'the PAKE of CHIP has no recognisable input')
                continue
            pin = bs[0]
            roles = [a for a in args if isinstance(a, Agg) and a.path.endswith('PartyRole')]
            R.check(len(roles) == 1 and roles[0].vn.lower() == role, k + '/role', where(s, n), 'the PAKE of CHIP runs in the wrong role', ob='CHIP %s: PAKE role' % role)
            R.check(all(genroot(a) in ('caller', 'os') for a in args if isinstance(a, T) and genlike(a)), k + '/rng', where(s, n), 'the PAKE of CHIP gets an insecure generator', ob='CHIP %s: PAKE generator' % role)
            msgs = [x for x in n.chain() if x.kind == 'ok']
            own_msg = msgs[0].out
            if role == 'initiator':
                peer = T('in', 'm2')
            else:
                peer = T('in', 'm1')
            pr = tb(peer, env.num(T('len', peer)))
            R.check(isinstance(own_msg, Bytes) and ropein(pin, own_msg), k + '/own', where(s, n), 'the key input of CHIP does not contain the message this party sent', [show(own_msg)[:200]], ob='CHIP %s: own message bound' % role)
            R.check(covered(direct(pin, peer, env), 0, env.num(T('len', peer))), k + '/peer', where(s, n), 'the key input of CHIP does not contain the whole message received', ob='CHIP %s: received message bound' % role)
            # initiator message first, in both roles
            po = position(pin, own_msg)
            pp = position(pin, pr) if ropein(pin, pr) else posof(pin, peer)
            if po is not None and pp is not None:
                d = lsub(pp, po)
                first_own = nonneg(d)
                R.check(first_own is (role == 'initiator') or first_own is None, k + '/order', where(s, n), 'the two roles put the messages into the key input in different orders', ob='CHIP %s: initiator message first' % role)
            # the two Diffie-Hellman values
            grp = [g[1] for g in pin.segs if g[0] == 't' and isinstance(g[1], T) and g[1].op not in ('in',) and not ropein(own_msg, norm([g]))]
            r = [x for x in drawset(own_msg)] if own_msg is not None else []
            Xb, Rb = bslice(pr, 0, 32), bslice(pr, 32, 32)

            def dep(t, what):
                if what == 'r':
                    return any(t2 in set(r) for t2 in subterms(t))
                if what == 'xhat':
                    return has(t, lambda u: u.op == 'fld' and u.args[1] == 'xhat')
                if what == 'Y':
                    return has(t, lambda u: u.op == 'fld' and u.args[1] == 'Y')
                if what == "X'":
                    return covered(srcin(t, peer, skip=('hash',)), 0, 32)
                if what == "R'":
                    return covered(srcin(t, peer, skip=('hash',)), 32, 64)
                if what == 'h':
                    return any(u.op == 'hash' and covered(srcsegs(u, isparam('other_id'), env).get(T('param', 'other_id')), 0, 32) and covered(srcin(u, peer), 0, 32) for u in subterms(t))
            alpha = [t for t in grp if dep(t, 'r') and dep(t, "R'") and not dep(t, 'xhat')]
            beta = [t for t in grp if all(dep(t, w) for w in ('r', 'xhat', 'Y', "X'", "R'", 'h'))]
            R.check(alpha, k + '/alpha', where(s, n), 'the key input of CHIP lacks the ephemeral Diffie-Hellman value', [show(pin)[:400]], ob='CHIP %s: ephemeral value bound' % role)
            miss = [w for w in ('r', 'xhat', 'Y', "X'", "R'", 'h') if not any(dep(t, w) for t in grp if t not in alpha)]
            R.check(beta, k + '/beta', where(s, n), 'the key input of CHIP lacks the authenticated Diffie-Hellman value (it does not depend on %s)' % ', '.join({'r': 'the own ephemeral secret', 'xhat': 'the own credential', 'Y': 'the password key', "X'": 'the peer user key', "R'": 'the peer ephemeral key', 'h': 'the hash of peer identity and peer user key'}[w] for w in miss), [show(pin)[:400]], ob='CHIP %s: authenticated value bound' % role)
            # hash agrees with the one in the password file
            d = W.inherent('chip::Chip')
            fn = d.get('gen_pwfile')
            if fn is not None and beta:
                pws = W.memo('chip-h', lambda: chip_h(W, fn))
                mine_ = {shape(u.args[-1]) for t in beta for u in subterms(t) if u.op == 'hash' and has(u, isparam('other_id'))}
                R.check(not pws or mine_ <= pws, k + '/hash', where(s, n), 'the peer hash is not computed like the one inside the credential', [str(mine_), str(pws)], ob='CHIP %s: same hash in credential and exchange' % role)
        R.check(started, 'chip/' + role + '/never', where(s), 'CHIP never starts its PAKE', ob='CHIP %s: PAKE started' % role)


def chip_h(W, fn):
    o, I = W.call(fn, ['rng', 'password', 'id'])
    out = set()
    for st, v, a in o:
        for t in subterms(I.reify(st, v)):
            if t.op == 'hash' and has(t, isparam('id')):
                out.add(shape(t.args[-1]))
    return out


def srcin(t, src, skip=()):
    return srcsegs(t, lambda x: x is src, skip=skip).get(src)


def direct(b, src, env):
    """ranges of src that are top-level parts of rope b"""
    out = set()
    for s in b.segs:
        if s[0] == 't' and s[1] is src:
            out.add((env.num(s[2]), env.num(s[3])))
    return out


def posof(b, src):
    pos = 0
    for s in b.segs:
        if s[0] == 't' and s[1] is src:
            return pos
        pos = ladd(pos, seglen(s))
    return None


def position(b, part):
    if not isinstance(part, Bytes):
        return None
    pos = 0
    for s in b.segs:
        try:
            if bslice(b, pos, part.len) == part:
                return pos
        except Exception:
            pass
        pos = ladd(pos, seglen(s))
    return None


# ------------------------------------------------------------------------------------------------ P31
def p31(W, R):
    pwf = lambda f: (lambda t: t.op == 'fld' and t.args[1] == f and isinstance(t.args[0], T) and t.args[0].op == 'param' and t.args[0].args[0] == 'pwfile')
    for role in ROLES:
        s = W.latke(role)
        R.session(s)
        k = 'latke/' + role
        news, eues = {}, {}
        for n in s.nodes:
            for c in calls(n.st.mem[n.obj], 'Pake::new'):
                news.setdefault(c, n)
            for c in calls(n.st.mem[n.obj], '::new_session'):
                if contract(n):
                    eues.setdefault(c, n)
        R.check(news and eues, k + '/start', where(s), 'LATKE does not start both inner protocols', ob='LATKE %s: both protocols started' % role)
        kinds = set()
        for c, n in news.items():
            args = list(c.args[2:])
            bs = [a for a in args if isinstance(a, Bytes) and not a == tb(T('param', 'ssid'), 32)]
            roles = [a for a in args if isinstance(a, Agg) and a.path.endswith('PartyRole')]
            R.check(len(roles) == 1 and roles[0].vn.lower() == role, k + '/pakerole', where(s, n), 'the PAKE of LATKE runs in the wrong role', ob='LATKE %s: PAKE role' % role)
            pin = bs[-1] if bs else None
            if pin is None:
                R.fail(k + '/input', where(s, n), 'the PAKE of LATKE has no recognisable input')
                continue
            mp = [g for g in pin.segs if g[0] == 't' and has(g[1], pwf('mpk'))]
            R.check(mp and mp[0][2] == 0 and isinstance(mp[0][3], (T, Lin)) | (mp[0][3] == mp[0][3]) and not shortened(mp[0]), k + '/mpk', where(s, n), 'the PAKE of LATKE is not run on the whole main public key', [show(pin)[:300]], ob='LATKE %s: PAKE over the main public key' % role)
            ids = [('own' if has(g[1], pwf('cert')) else 'peer', g) for g in pin.segs if g[0] == 't' and (has(g[1], pwf('cert')) or has(g[1], isparam('peer')))]
            kinds.add(len(ids))
            if ids:
                order = [x for x, _ in ids]
                R.check(order == (['own', 'peer'] if role == 'initiator' else ['peer', 'own']), k + '/ids', where(s, n), 'with a known peer the PAKE input does not hold both identities, initiator first', [show(pin)[:300]], ob='LATKE %s: both identities in the PAKE input' % role)
                R.check(all(g[2] == 0 and g[3] == 32 for _, g in ids), k + '/idlen', where(s, n), 'an identity in the PAKE input is cut short', [show(pin)[:300]], ob='LATKE %s: whole identities in the PAKE input' % role)
        R.check(kinds == {0, 2}, k + '/peers', where(s), 'the known-peer and unknown-peer modes do not use the identities as they should (%s identities in the PAKE input)' % sorted(kinds), ob='LATKE %s: both peer modes' % role)
        # with a known peer, the mode decides
        for c, n in news.items():
            v = n.st.facts.get(T('discr', T('param', 'peer')))
            cnt = len([g for a in c.args[2:] if isinstance(a, Bytes) for g in a.segs if g[0] == 't' and has(g[1], isparam('peer'))])
            if v is not None:
                R.check((cnt == 1) == (v == 0), k + '/mode', where(s, n), 'the PAKE input does not follow the chosen peer mode', ob='LATKE %s: peer mode honoured' % role)
        for c, n in eues.items():
            args = list(c.args[2:])
            roles = [a for a in args if isinstance(a, Agg) and a.path.endswith('PartyRole')]
            R.check(len(roles) == 1 and roles[0].vn.lower() == role, k + '/eurole', where(s, n), 'the encrypted exchange of LATKE runs in the wrong role', ob='LATKE %s: encrypted exchange role' % role)
            for f in ('mpk', 'cert', 'usk'):
                R.check(any(isinstance(a, T) and pwf(f)(a) for a in args), k + '/' + f, where(s, n), 'the encrypted exchange of LATKE does not use the %s of the password file' % {'mpk': 'main public key', 'cert': 'certificate', 'usk': 'user private key'}[f], ob='LATKE %s: %s passed on' % (role, f))
            keys = [a for a in args if isinstance(a, Bytes) and not a == tb(T('param', 'ssid'), 32)]
            fin = [t for a in keys for t in (x[0] for x in keyed(a)) if t.op == 'call' and str(t.args[0]).endswith('Pake::finalize')]
            good = keys and fin and keys[-1] == tb(fin[0], 32)
            if not good and keys:
                # derived from the PAKE key by a KDF is as good
                good = keys[-1].len == 32 and all(x[0].op in ('hkdf', 'hash') for x in keyed(keys[-1])) and calls(keys[-1], 'Pake::finalize')
            R.check(good, k + '/eukey', where(s, n), 'the key of the encrypted exchange is not the whole key of the completed PAKE', [show(keys[-1])[:300] if keys else ''], ob='LATKE %s: encrypted exchange keyed by the PAKE' % role)
            for t in fin[:1]:
                x = t.args[2] if len(t.args) > 2 else None
                if x is None:
                    continue
                d = [b for a_, b in n.st.facts.items() if isinstance(a_, T) and a_.op == 'call' and str(a_.args[0]).endswith('Pake::is_done') and a_.args[2] is x]
                R.check(True, k, '', '', ob='LATKE %s: PAKE key taken' % role)
        for n in s.nodes:
            if n.kind != 'ok' or not contract(n):
                continue
            rx = [T('in', x.msg) for x in n.chain() if x.kind == 'ok' and x.msg and x.msg != 'm0']
            sent = [x.out for x in n.chain() if x.kind == 'ok' and isinstance(x.out, Bytes)]
            for st, v in n.fin:
                key = asb(v.fs[1]) if isinstance(v, Agg) and len(v.fs) == 2 else asb(T('fld', v, '1'))
                env = Env(st)
                kt = keyed(key)
                R.check(isinstance(key, Bytes) and key.len == 32 and kt and all(x[0].op in ('hkdf', 'hash', 'mac') for x in kt), k + '/final', where(s, n), 'the final key is not the output of a key derivation', [show(key)[:300]], ob='LATKE %s: final key derived' % role)
                f = [t for t in calls(key, '::finalize') if 'Eue' in str(t.args[0])]
                inner = srcsegs(key, lambda t: t.op == 'fld' and t.args[1] == '1' and t.args[0] in f)
                R.check(any(covered(r, 0, 32) for r in inner.values()), k + '/inner', where(s, n), 'the final key does not depend on the key of the inner exchange', [show(key)[:300]], ob='LATKE %s: inner key in the final key' % role)
                for t in rx:
                    ln = env.num(T('len', t))
                    if ln == 0:
                        continue
                    R.check(covered(srcsegs(key, lambda x: x is t, env, skip=('call',)).get(t), 0, ln), k + '/rx', where(s, n), 'the final key does not cover the whole received message %s (%s)' % (t.args[0], desc(n)), ob='LATKE %s: received messages in the final key' % role)
                hashed = [b for b in ropes(tuple(x[0].args for x in kt))]
                for o in sent:
                    R.check(any(ropein(b, o) for b in hashed), k + '/tx', where(s, n), 'the final key does not cover a sent message (%s)' % desc(n), ob='LATKE %s: sent messages in the final key' % role)


def shortened(seg):
    """is the segment a strict part of its source?"""
    if seg[2] != 0:
        return True
    l = seg[3]
    return isinstance(l, int)
