"""Rules on randomness, key ratcheting, unconditional execution, step order and leakage."""
from rules_crypt import *

OSRNG = ('thread_rng', 'from_entropy', 'from_os_rng', 'OsRng', 'rng', 'getrandom', 'default')


# ------------------------------------------------------------------------------------------------ generators
def genroot(a):
    """where a generator state comes from: 'caller', 'os', or the term that made it"""
    for _ in range(200):
        if not isinstance(a, T):
            return a
        if a.op == 'rngnext':
            a = a.args[0]
        elif a.op == 'param' and str(a.args[0]).startswith('rng'):
            return 'caller'
        elif a.op == 'mut':
            c = a.args[0]
            i = a.args[1] if len(a.args) > 1 else None
            src = None
            if isinstance(c, T):
                cand = [x for x in c.args[1:] if isinstance(x, T) and genlike(x)]
                src = cand[0] if cand else None
            if src is None:
                return a
            a = src
        elif a.op == 'fresh':
            n = str(a.args[0]).split('::')[-1]
            return 'os' if n in ('thread_rng', 'from_entropy', 'from_os_rng') or 'OsRng' in str(a.args[0]) else a
        elif a.op == 'call' and 'OsRng' in str(a.args[0]):
            return 'os'
        else:
            return a
    return a


def genlike(x):
    if x.op in ('rngnext',) or (x.op == 'param' and str(x.args[0]).startswith('rng')):
        return True
    if x.op == 'mut':
        return isinstance(x.args[0], T) and any(isinstance(y, T) and genlike(y) for y in x.args[0].args[1:])
    if x.op in ('fresh', 'call'):
        n = str(x.args[0])
        return n.split('::')[-1] in ('thread_rng', 'from_entropy', 'from_os_rng', 'from_seed', 'seed_from_u64', 'from_rng') or 'OsRng' in n
    return False


def genuses(events):
    """[(event, generator state)] of everything that draws from a generator"""
    out = []
    for e in events:
        if e.k == 'rng':
            out.append((e, e.d['rng']))
        elif e.k == 'call':
            for a in e.d['args']:
                if isinstance(a, T) and genlike(a):
                    out.append((e, a))
    return out


def ropes(v, seen=None):
    """every byte string inside a value"""
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Bytes):
            if x in seen:
                continue
            seen.add(x)
            yield x
            for s in x.segs:
                for u in s:
                    if isinstance(u, (T, Bytes)):
                        stack.append(u)
                    elif isinstance(u, frozenset):
                        for w in u:
                            stack.extend(z for z in w if isinstance(z, (T, Bytes)))
        elif isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.args)
        elif isinstance(x, Agg):
            stack.extend(x.fs)
        elif isinstance(x, Seq):
            stack.extend(x.vs)
        elif isinstance(x, (tuple, list, frozenset)):
            stack.extend(x)


def rruns(b):
    """maximal runs of directly random bytes in a rope: [(segments, length)]"""
    out, cur, ln = [], [], 0
    for s in b.segs:
        if s[0] == 't' and isinstance(s[1], T) and s[1].op == 'rng':
            cur.append(s)
            ln = ladd(ln, s[3])
        else:
            if cur:
                out.append((cur, ln))
            cur, ln = [], 0
    if cur:
        out.append((cur, ln))
    return out


def p08(W, R):
    for s in all_sessions(W, R) + [x for x in [W.eue(r) for r in ROLES] + [W.chip(r) for r in ROLES] if x is not None]:
        if s.kind in ('eue', 'chip'):
            R.session(s)
        for n in s.nodes:
            if n.kind != 'ok' and n.kind != 'ctor':
                continue
            seen = {}
            for e, g in genuses(n.allevents()):
                r = genroot(g)
                R.check(r in ('caller', 'os'), 'generator/' + tag(s), where(s, n), 'randomness is drawn from a generator that is neither the caller\'s nor the operating system\'s (%s)' % e.span, [show(r)[:300]], ob='%s: draws come from a secure generator' % tag(s))
                if g in seen and seen[g] is not e:
                    R.check(False, 'replayed/' + tag(s), where(s, n), 'two draws use the same generator state: they return the same bytes (%s and %s)' % (seen[g].span, e.span), [show(g)[:200]])
                seen[g] = e
            # encryption nonces
            nn = []
            for e in n.allevents():
                if e.k == 'keystream' and not received(e.d['data']):
                    nonce = e.d['nonce']
                    R.check(isinstance(nonce, Bytes) and fullrng(nonce, 12), 'nonce/' + tag(s), where(s, n), 'an encryption nonce is not 12 freshly drawn bytes (%s)' % e.span, [show(nonce)[:200]], ob='%s: encryption nonces fully random' % tag(s))
                    for k0, n0 in nn:
                        R.check(not (k0 == e.d['key'] and n0 == nonce), 'noncereuse/' + tag(s), where(s, n), 'two encryptions use the same key and nonce (%s)' % e.span, ob='%s: no nonce reuse' % tag(s))
                    nn.append((e.d['key'], nonce))
            if n.kind != 'ok':
                continue
            encn = {x for _, x in nn}
            vals = (n.out, n.st.mem.get(n.obj), tuple(v for _, v in n.fin))
            for b in ropes(vals):
                for segs, ln in rruns(b):
                    nb = norm(segs)
                    if ln == 12 and (nb in encn):
                        continue
                    if isinstance(ln, int) and any(tuple(x.segs) and ropein(x, nb) and x.len == 12 for x in encn):
                        continue
                    R.check(isinstance(ln, int) and ln >= 32 or not isinstance(ln, int), 'short/' + tag(s), where(s, n), 'a random value has only %s random bytes where at least 32 are needed' % show(ln), [show(b)[:300]], ob='%s: random values are at least 32 bytes' % tag(s))
        if s.kind in ('pake', 'ibke'):
            for n in completed(s):
                own_ = outs(n)
                R.check(own_ and any(drawn(o) for o in own_), 'freshmsg/' + tag(s), where(s, n), 'nothing this party sends depends on randomness drawn in the run', ob='%s: messages carry own fresh randomness' % tag(s))
                if own_:
                    R.check(drawn(own_[0]), 'freshfirst/' + tag(s), where(s, n), 'the first message of this party does not depend on randomness drawn in the run (%s)' % desc(n), [show(own_[0])[:300]], ob='%s: first message is fresh' % tag(s))
                for o in own_:
                    for run in construns(o):
                        R.check(run < 16, 'const/' + tag(s), where(s, n), 'a message contains %d constant bytes where key material or a nonce belongs' % run, [show(o)[:300]], ob='%s: no constant filler in messages' % tag(s))
                for st, idr, key in fins(s, n):
                    R.check(drawn(key), 'freshkey/' + tag(s), where(s, n), 'the session key does not depend on randomness this party drew in the run (%s)' % desc(n), ob='%s: session key depends on own draw' % tag(s))
        if s.kind == 'chip':
            for n in s.nodes:
                if n.kind == 'ok' and n.call == 1 and n.out is not None:
                    R.check(drawn(n.out), 'freshfirst/' + tag(s), where(s, n), 'the first message does not depend on randomness drawn in the run', ob='%s: first message is fresh' % tag(s))
    # key encapsulation and key generation inside the KEM: see the rules on the KEM itself
    import rules_saber
    rules_saber.randomness(W, R)


def construns(o):
    if not isinstance(o, Bytes):
        return
    for s in o.segs:
        if s[0] == 'c':
            yield len(s[1])


def drawn(v):
    """does v depend on a draw?"""
    return any(israndom(t) or t.op == 'fresh' for t in subterms(v))


# ------------------------------------------------------------------------------------------------ P12
def p12(W, R):
    """message keys of the encrypting layer: one per message, and gone after use"""
    got = False
    for role in ROLES:
        s = W.eue(role)
        if s is None:
            R.undecided.append('the encrypting wrapper was not found')
            continue
        R.session(s)
        for n in s.nodes:
            if n.kind != 'ok':
                continue
            used = []
            for x in n.chain():
                for e in x.events():
                    if e.k == 'keystream':
                        used.append((x.call, 'in' if received(e.d['data']) else 'out', e.d['key'], e))
                    elif e.k == 'macverify':
                        used.append((x.call, 'in', e.d['key'], e))
                    elif e.k == 'mac':
                        used.append((x.call, 'out', e.d['key'], e))
            for i in range(len(used)):
                got = True
                for j in range(i):
                    a, b = used[i], used[j]
                    if (a[0], a[1]) == (b[0], b[1]):
                        continue
                    for x in keyed(a[2]):
                        for y in keyed(b[2]):
                            R.check(tagsep(x, y), 'reuse/%s' % role, where(s, n), 'one message key protects two messages (call %s %s and call %s %s)' % (a[0], a[1], b[0], b[1]), [show(a[2])[:300]], ob='%s: one key per message' % tag(s))
                R.check(any(x[0].op == 'hkdf' for x in keyed(used[i][2])) and has(used[i][2], lambda t: t.op == 'param' and t.args[0] == 'initial_key'), 'derived/' + role, where(s, n), 'a message key is not derived from the key of the layer', [show(used[i][2])[:200]], ob='%s: message keys derived from the layer key' % tag(s))
                cov = srcsegs(used[i][2], isparam('initial_key')).get(T('param', 'initial_key'))
                R.check(covered(cov, 0, 32), 'fullkey/' + role, where(s, n), 'a message key does not depend on the whole key of the layer', ob='%s: message keys depend on the whole layer key' % tag(s))
            # key separation: neither the other key of the message nor a key that keys are derived from
            for i in range(len(used)):
                a = used[i]
                for x in keyed(a[2]):
                    for b in used[:i]:
                        if (a[0], a[1]) == (b[0], b[1]) and (a[3].k == 'keystream') != (b[3].k == 'keystream'):
                            for y in keyed(b[2]):
                                R.check(tagsep(x, y), 'encmac/' + role, where(s, n), 'the encryption key and the MAC key of a message overlap', [show(x[0])[:200]], ob='%s: encryption and MAC keys separate' % tag(s))
                    for b in used:
                        for y in parents(b[2]):
                            R.check(tagsep(x, y), 'chainsep/' + role, where(s, n), 'a message key overlaps with a chain key, from which the keys of other messages are derived', [show(x[0])[:200], show(y[0])[:200]], ob='%s: message keys separate from chain keys' % tag(s))
            # forward secrecy: the state after a call does not hold what earlier message keys came from
            stv = n.st.mem.get(n.obj)
            held = set()
            for b in topropes(stv):
                for t, o, l in keyed(b):
                    held.add(t)
            for c, d, k, e in used:
                for t, o, l in keyed(k):
                    R.check(t not in held, 'kept/' + role, where(s, n), 'a message key that was used is still held after the call', [show(t)[:200]], ob='%s: used message keys are gone' % tag(s))
                    if t.op == 'hkdf':
                        for t2, o2, l2 in keyed(t.args[0]):
                            R.check(t2 not in held, 'chain/' + role, where(s, n), 'the chain key that yields an already used message key is still held after the call', [show(t2)[:200]], ob='%s: chain key moves on' % tag(s))
    R.check(got, 'nothing', 'eue_transform', 'the encrypting layer encrypts nothing', ob='encrypted messages found')


def parents(k):
    """the keys from which a key is derived, step by step"""
    out, work = [], [k]
    while work:
        for t, o, l in keyed(work.pop()):
            if t.op == 'hkdf':
                for y in keyed(t.args[0]):
                    if y not in out:
                        out.append(y)
                        work.append(t.args[0])
    return out


def topropes(v):
    """byte strings that are fields of a value (not inside derived terms)"""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Bytes):
            yield x
        elif isinstance(x, Agg):
            stack.extend(x.fs)
        elif isinstance(x, Seq):
            stack.extend(x.vs)


# ------------------------------------------------------------------------------------------------ P13
def p13(W, R):
    for s in all_sessions(W, R):
        for n in s.nodes:
            if n.kind == 'ok':
                p = n.parent
                R.check(s.is_done(p) is not True, 'after/' + tag(s), where(s, n), 'a message is accepted although the run is already complete (%s)' % desc(n), ob='%s: nothing accepted after completion' % tag(s))
                d = s.is_done(n)
                if n.out is None:
                    R.check(d is True, 'silent/' + tag(s), where(s, n), 'a call returns no message although the run is not complete (%s)' % desc(n), ob='%s: no message means complete' % tag(s))
                if isinstance(n.out, Bytes) and n.out.len == 0:
                    R.check(False, 'empty/' + tag(s), where(s, n), 'a call returns an empty message (%s)' % desc(n))
                if d is True:
                    R.check(n.fin, 'nokey/' + tag(s), where(s, n), 'the run is complete but the session key is not available (%s)' % desc(n), ob='%s: complete means key available' % tag(s))
                # no step is skipped: the number of accepted messages is the length of the exchange
                if d is True:
                    R.info.setdefault('messages', {}).setdefault('%s/%s' % (s.ty, s.role), [])
                    l = R.info['messages']['%s/%s' % (s.ty, s.role)]
                    if len(oks(n)) not in l:
                        l.append(len(oks(n)))
        ls = {len(oks(n)) for n in completed(s)}
        R.check(len(ls) <= 1, 'length/' + tag(s), where(s), 'the run can complete after %s accepted messages: a step can be skipped or repeated' % sorted(ls), ob='%s: fixed number of steps' % tag(s))
    for ty in sorted({s.ty for s in W.sessions().values()}):
        a, b = W.session(ty, 'initiator'), W.session(ty, 'responder')
        if a is None or b is None or not completed(a) or not completed(b):
            continue
        la, lb = (max(len(oks(n)) for n in completed(x)) for x in (a, b))
        oa, ob_ = (max(len(outs(n)) for n in completed(x)) for x in (a, b))
        # the initiator starts with an empty message
        R.check(oa == lb and ob_ == la - 1, 'match/' + ty, where(a), 'the two roles do not exchange matching numbers of messages (initiator sends %d and takes %d, responder sends %d and takes %d)' % (oa, la - 1, ob_, lb), ob='%s: message counts match' % ty)


# ------------------------------------------------------------------------------------------------ P14
def secretuses(v):
    """rng draws that are used as secrets inside v: scalars, KDF keys, MAC and cipher keys"""
    out = set()
    for t in subterms(v):
        if t.op in ('call', 'fresh') and not str(t.args[0]).split('::')[-1] in ('sign', 'detached_sign', 'from_bytes'):
            for x in t.args[1:]:
                out |= {u for u in subterms(x) if u.op == 'rng'} if isinstance(x, (T, Bytes, Agg)) else set()
        elif t.op == 'hkdf':
            out |= {x[0] for x in keyed(t.args[0]) if x[0].op == 'rng'}
        elif t.op == 'extract':
            out |= {x[0] for x in keyed(t.args[1]) if x[0].op == 'rng'} if isinstance(t.args[1], Bytes) and t.args[1].len == 32 else set()
        elif t.op in ('mac', 'keystream', 'deck'):
            out |= {x[0] for x in keyed(t.args[0]) if x[0].op == 'rng'}
    return out


def p14(W, R):
    sec = secret_terms()
    for s in all_sessions(W, R) + [x for x in [W.chip(r) for r in ROLES] if x is not None]:
        if s.kind == 'chip':
            R.session(s)
        for n in s.nodes:
            if n.kind != 'ok' or not isinstance(n.out, Bytes):
                continue
            stv = n.st.mem.get(n.obj)
            su = secretuses((n.out, stv, tuple(v for _, v in n.fin)))
            keys = [x for st, idr, key in (fins(s, n) if s.kind != 'chip' else []) for x in keyed(key)]
            for seg in n.out.segs:
                what = show(norm([seg]))[:250]
                if seg[0] == 't' and isinstance(seg[1], T) and seg[1].op == 'rng':
                    R.check(seg[1] not in su, 'raw/%s' % tag(s, n), where(s, n), 'random bytes that serve as a secret are sent in the clear', [what], ob='%s: random bytes sent are not secrets' % tag(s, n))
                    continue
                if seg[0] == 't' and isinstance(seg[1], T) and seg[1].op == 'hkdf':
                    for x in keys:
                        R.check(tagsep(x, (seg[1], seg[2], seg[3])), 'tagkey/%s' % tag(s, n), where(s, n), 'the tag sent overlaps with the session key', [what], ob='%s: tag sent is not the session key' % tag(s, n))
                    continue
                R.check(not sec(norm([seg])), 'secret/%s' % tag(s, n), where(s, n), 'a secret value is sent without being encrypted or passed through a one-way function', [what], ob='%s: nothing secret in the message' % tag(s, n))
        # completed states: the key and what was sent
        for n in completed(s) if s.kind != 'chip' else []:
            eve = Eavesdropper(outs(n) + [a.data for a in auths(n.st.facts) if a.kind == 'tag'])
            for st, idr, key in fins(s, n):
                R.check(not eve.knows(key), 'computable/' + tag(s), where(s, n), 'the session key can be computed from what was sent and received in the clear', [show(key)[:300]], ob='%s: session key not computable from the transcript' % tag(s, n))
                for o in outs(n):
                    for seg in o.segs:
                        for x in keyed(key):
                            if seg[0] == 't' and isinstance(seg[1], T) and seg[1].op == x[0].op and x[0].op not in ('in',):
                                R.check(tagsep(x, (seg[1], seg[2], seg[3])), 'keysent/' + tag(s), where(s, n), 'part of the session key was sent in the clear', [show(norm([seg]))[:200]], ob='%s: session key not sent' % tag(s))


# ------------------------------------------------------------------------------------------------ P15
def p15(W, R):
    """authenticators are compared without early exit"""
    for s in all_sessions(W, R):
        seen = set()
        for n in s.nodes:
            for e in n.events():
                if e.k not in ('vareq', 'ct_eq', 'macverify'):
                    continue
                if e.k == 'vareq':
                    a, b = e.d['a'], e.d['b']
                    bad = (recv_part(a) and secretish(b)) or (recv_part(b) and secretish(a))
                    R.check(not bad, 'vartime/' + tag(s), '%s (%s)' % (where(s, n), e.span), 'a received authenticator is compared with the expected one by an operation that stops at the first difference', [show(a)[:200], show(b)[:200]], ob='%s: comparison at %s' % (tag(s), e.span))
                else:
                    R.check(True, '', '', '', ob='%s: constant-time comparison at %s' % (tag(s), e.span))
            for a, b in n.st.facts.items():
                if isinstance(a, T) and a.op in ('eq', 'vareq') and len(a.args) >= 2:
                    x, y = a.args[0], a.args[1]
                    bad = (recv_part(x) and secretish(y)) or (recv_part(y) and secretish(x))
                    R.check(not bad, 'vartime/' + tag(s), where(s, n), 'control flow depends on comparing received bytes with secret-derived bytes', [show(x)[:200], show(y)[:200]], ob='%s: branch does not compare authenticators' % tag(s))


def secretish(v):
    sec = secret_terms()
    return any(t.op in ('hkdf', 'mac') for t in topterms(v)) or sec(v)


def topterms(v):
    out = []
    if isinstance(v, Bytes):
        for s in v.segs:
            if s[0] == 't' and isinstance(s[1], T):
                out.append(s[1])
    elif isinstance(v, T):
        out.append(v)
        if v.op == 'byte' and isinstance(v.args[0], T):
            out.append(v.args[0])
    elif isinstance(v, BV):
        for b in v.bits:
            if isinstance(b, frozenset):
                for t, _ in b:
                    if isinstance(t, T):
                        out.append(t)
                        if t.op == 'byte':
                            out.append(t.args[0])
    return [t for t in out if isinstance(t, T)]
