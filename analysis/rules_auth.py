"""Rules on completed protocol runs: gating, authentication, identity and transcript binding, key separation."""
from world import *

SIGCERT = ('IdHmqvC', 'IdSigDh', 'IdSigmaREd25519', 'IdSigmaRDilithium2')
# protocols whose runs end with an explicit check of the peer; the others are implicitly authenticated PAKEs
CONFIRMED = SIGCERT + ('FgIbkeC', 'KcSpake2')
EXPECT = ('Cake', 'Cpace', 'KcSpake2', 'FgIbkeC', 'IdHmqvC', 'IdSigDh', 'IdSigmaREd25519', 'IdSigmaRDilithium2')


def where(s, n=None):
    return '%s as %s%s' % (loc(s.runfn), s.role, ', step %s' % n.step if n is not None and n.step is not None else '')


def tag(s, n=None):
    return '%s/%s%s' % (s.ty, s.role, '/%s%s' % (n.kind, '' if n.step is None else n.step) if n is not None else '')


def all_sessions(W, R):
    out = []
    for k, s in sorted(W.sessions().items()):
        R.session(s)
        out.append(s)
    have = {s.ty for s in out}
    for e in EXPECT:
        R.check(e in have, 'missing/' + e, 'latke', 'no implementation of the protocol %s is left to analyse' % e, ob='protocol %s present' % e)
    return out


def fins(s, n):
    """[(state, id rope or None, key rope)] of a node"""
    out = []
    for st, v in n.fin:
        if s.kind == 'pake':
            out.append((st, None, asb(v)))
        elif isinstance(v, Agg) and len(v.fs) == 2:
            out.append((st, asb(v.fs[0]), asb(v.fs[1])))
        else:
            out.append((st, asb(T('fld', v, '0')) if isinstance(v, T) else None, asb(T('fld', v, '1')) if isinstance(v, T) else None))
    return out


def asb(v):
    if isinstance(v, Bytes):
        return v
    if isinstance(v, T):
        return tb(v, 32)
    if isinstance(v, Seq):
        return norm([valseg(x) for x in v.vs])
    if isinstance(v, Agg) and len(v.fs) == 1:
        return asb(v.fs[0])
    return v


def oks(n):
    """the accepted calls that lead to node n, in order"""
    return [x for x in n.chain() if x.kind == 'ok']


def outs(n):
    return [x.out for x in n.chain() if x.kind == 'ok' and x.out is not None]


def mine(n):
    """checks passed during calls that were accepted or that belong to the accepted messages"""
    return auths(n.st.facts)


# ------------------------------------------------------------------------------------------------ P01
def p01(W, R):
    for s in all_sessions(W, R):
        for n in s.nodes:
            d = s.is_done(n)
            if d is True:
                if n.kind == 'err' and s.is_done(n.parent) is False:
                    R.check(not n.fin, 'rejected/' + tag(s), where(s, n), 'after a rejected message (%s) the run counts as complete and %s hands out a session key' % (desc(n), loc(s.m['finalize'])),
                            ob='%s: no output after %s' % (tag(s, n), desc(n)))
                continue
            R.check(d is False, 'done/' + tag(s, n), where(s, n), 'completion query has no definite answer for this state') if s.kind in ('pake', 'ibke') else None
            R.check(not n.fin, 'early/' + tag(s, n), where(s, n),
                    '%s hands out a session key%s although the run is not complete (state after %s)' % (loc(s.m['finalize']), '' if s.kind == 'pake' else ' and peer identity', desc(n)),
                    ob='%s: no output after %s' % (tag(s, n), desc(n)))
    for role in ROLES:
        s = W.eue(role)
        if s is None:
            R.undecided.append('the encrypting wrapper was not found')
            continue
        R.session(s)
        for n in s.nodes:
            if simulated(n):
                R.check(not n.fin, 'eue-sim/' + role, where(s, n), 'the encrypted session hands out a key after it left real mode (%s)' % desc(n), ob='%s: no output in simulated mode' % tag(s, n))
            else:
                for st, v in n.fin:
                    R.check(has(v, lambda t: t.op == 'call' and str(t.args[0]).endswith('::finalize')), 'eue-fin/' + role, where(s, n), 'output of the encrypted session does not come from the inner session', ob='%s: output taken from the inner session' % tag(s, n))
        s = W.latke(role)
        R.session(s)
        for n in s.nodes:
            if not contract(n):
                continue
            for st, v in n.fin:
                f = [t for t in subterms(v) if t.op == 'call' and str(t.args[0]).endswith('::finalize')]
                R.check(f, 'latke-fin/' + role, where(s, n), 'LATKE hands out a result that does not come from the inner exchange (%s)' % desc(n), ob='%s: result from inner exchange' % tag(s, n))
                R.check(any(has(t, lambda u: u.op == 'call' and str(u.args[0]).endswith(('::new_session',))) for t in f), 'latke-early/' + role, where(s, n), 'LATKE hands out a result before the inner exchange was started', ob='%s: inner exchange started' % tag(s, n))
            if n.kind == 'ctor':
                R.check(not n.fin, 'latke-ctor/' + role, where(s, n), 'LATKE hands out a key before any message', ob='%s: nothing at start' % tag(s, n))
        s = W.chip(role)
        R.session(s)
        for n in s.nodes:
            if n.kind == 'ctor' or n.call < 2:
                R.check(not n.fin, 'chip-early/%s' % role, where(s, n), 'CHIP hands out a key before the inner PAKE exists (%s)' % desc(n), ob='%s: nothing before the PAKE' % tag(s, n))
            for st, v in n.fin:
                R.check(has(v, lambda t: t.op == 'call' and str(t.args[0]).endswith('Pake::finalize')), 'chip-fin/' + role, where(s, n), 'CHIP key does not come from the PAKE', ob='%s: key from the PAKE' % tag(s, n))


def desc(n):
    return ' -> '.join((x.kind if x.kind != 'ok' else 'accepted') + ('' if x.msg is None else ' ' + x.msg) for x in n.chain())


def calls(v, suffix):
    return [t for t in subterms(v) if t.op == 'call' and str(t.args[0]).endswith(suffix)]


def simulated(n):
    v = n.st.mem.get(n.obj)
    return bool(calls(v, '::run_sim'))


def contract(n):
    """does the path respect the contract of the opaque PAKE: a new PAKE is not done; a run that returns no
    message leaves it done; after completion it is not run again"""
    for a, b in n.st.facts.items():
        if isinstance(a, T) and a.op == 'call' and str(a.args[0]).endswith('Pake::is_done'):
            x = a.args[2] if len(a.args) > 2 else None
            if isinstance(x, T) and x.op == 'call' and str(x.args[0]).endswith('Pake::new') and b == 1:
                return False
            if isinstance(x, T) and x.op == 'mut' and b == 0:
                r = x.args[0]
                # run returned Ok(None) and yet not done
                for c, d in n.st.facts.items():
                    if isinstance(c, T) and c.op == 'discr' and d == 0 and isinstance(c.args[0], T) and c.args[0].op == 'fld' and contains(c.args[0], r) and c.args[0].args[0].op == 'as' and c.args[0].args[0].args[0] is r:
                        return False
    return True


# ------------------------------------------------------------------------------------------------ certificates
def extract_layout(W, ty):
    """layout of the message the key generation centre signs: (total, id offset, [(offset, length) of key bytes], term)"""
    def go():
        m = W.impls('IdentityBasedKeyExchange').get(ty, {})
        fn = m.get('extract')
        if fn is None:
            return None
        o, I = W.call(fn, ['rng', 'msk', 'id', 'upk'], variant=VARIANT.get(ty))
        for st, v, args in o:
            r = I.reify(st, v)
            for t in subterms(r):
                if t.op == 'sig' and isinstance(t.args[1], Bytes):
                    pos = 0
                    ido = None
                    keys = []
                    for g in t.args[1].segs:
                        l = seglen(g)
                        if g[0] == 't' and g[1].op == 'param' and g[1].args[0] == 'id' and g[2] == 0 and l == 32:
                            ido = pos
                        else:
                            keys.append((pos, l, g))
                        pos = ladd(pos, l)
                    return pos, ido, keys, t, r
        return None
    return W.memo(('extract', ty), go)


def cert_auth(W, s, n, idr):
    """the certificate check that vouches for identity idr on this path"""
    lay = extract_layout(W, s.ty)
    best = None
    for a in auths(n.st.facts):
        if a.kind != 'sig' or a.weak:
            continue
        if not has(a.key, isparam('mpk')) or has(a.key, isin):
            continue
        if not received(a.data) or not has(a.tag, isin):
            continue
        if lay is not None and lay[1] is not None and idr is not None:
            if bslice(a.data, lay[1], 32) != idr:
                best = best or (a, False)
                continue
        return a, True
    return best or (None, False)


def within(v, data, env):
    """all received bytes of v occur among the received bytes of data"""
    iv, idt = inputs(v, env), inputs(data, env)
    for k, rs in iv.items():
        for o, l in rs:
            if l is None or not covered(idt.get(k), o, ladd(o, l)):
                return False
    return bool(iv)


# ------------------------------------------------------------------------------------------------ P02
def party_auths(s, n, env, cert):
    """checks on this path that prove the peer's participation"""
    sec = secret_terms()
    out = []
    for a in auths(n.st.facts):
        if a.weak or (cert is not None and a.term is cert.term):
            continue
        if a.kind == 'sig':
            # key must be the certified one
            if cert is not None and within(a.key, cert.data, env):
                out.append(a)
        elif a.kind in ('tag', 'mac'):
            exp = a.data if a.kind == 'tag' else a.key
            if not sec(exp) or recv_part(exp):
                continue
            if a.kind == 'tag':
                ln = env.num(a.data.len)
                if not (isinstance(ln, int) and ln >= 32):
                    continue
            out.append(a)
    return out


NEEDS = {'IdHmqvC': ('tag',), 'FgIbkeC': ('tag',), 'KcSpake2': ('tag',), 'IdSigDh': ('sig',),
         'IdSigmaREd25519': ('sig', 'mac'), 'IdSigmaRDilithium2': ('sig', 'mac')}


def completed(s):
    return [n for n in s.completed()]


def p02(W, R):
    for s in all_sessions(W, R):
        if s.ty not in CONFIRMED:
            continue
        cs = completed(s)
        R.check(cs or s.problems, 'complete/' + tag(s), where(s), 'no accepting path found for this protocol and role', ob='%s: accepting path exists' % tag(s))
        for n in cs:
            env = Env(n.st)
            for st, idr, key in fins(s, n) or [(None, None, None)]:
                cert = None
                if s.ty in SIGCERT:
                    cert, good = cert_auth(W, s, n, idr)
                    R.check(cert is not None, 'cert/' + tag(s), where(s, n), 'the run completes (%s) without a successful check of the peer certificate under the main public key given to the session' % desc(n), ob='%s %s: certificate verified' % (tag(s, n), desc(n)))
                    if cert is None:
                        continue
                pa = party_auths(s, n, env, cert)
                need = NEEDS[s.ty]
                for k in need:
                    got = [a for a in pa if a.kind == k or (k in ('tag', 'mac') and a.kind in ('tag', 'mac'))]
                    got = [a for a in got if k == 'sig' or s.ty not in ('IdSigmaREd25519', 'IdSigmaRDilithium2') or about_id(a, idr)]
                    R.check(got, 'peer/%s/%s' % (tag(s), k), where(s, n),
                            'the run completes (%s) without a successful full-length %s check that binds the peer: %s' % (desc(n), {'sig': 'signature', 'tag': 'confirmation tag', 'mac': 'MAC'}[k],
                                {'sig': 'signature by the certified key', 'tag': 'tag derived from the shared secret', 'mac': 'MAC under the derived key'}[k]),
                            ob='%s %s: peer %s verified' % (tag(s, n), desc(n), k))
                    # the check must speak about this run
                    for a in got[:1]:
                        fresh = random_leaves(a.whole()) or covered(srcsegs(a.whole(), isparam('ssid'), env).get(T('param', 'ssid')), 0, 32)
                        R.check(fresh, 'live/%s/%s' % (tag(s), k), where(s, n), 'the peer check does not depend on this run (neither own randomness nor the session identifier enters it)', ob='%s: peer %s is about this run' % (tag(s, n), k))
                if s.ty == 'IdHmqvC' and cert is not None:
                    for a in pa:
                        R.check(any(within(t, cert.data, env) for t in subterms(a.data) if t.op in ('decompress', 'parse')), 'certkey/' + tag(s), where(s, n), 'the confirmation tag does not depend on the certified key of the peer', ob='%s: tag depends on certified key' % tag(s, n))
                if s.ty == 'FgIbkeC':
                    for a in pa:
                        R.check(has(a.data, isparam('mpk')), 'mpk/' + tag(s), where(s, n), 'the confirmation tag does not depend on the main public key', ob='%s: tag depends on main public key' % tag(s, n))
                if s.ty == 'KcSpake2':
                    for a in pa:
                        R.check(has(a.data, isparam('password')), 'pw/' + tag(s), where(s, n), 'the confirmation tag does not depend on the password', ob='%s: tag depends on the password' % tag(s, n))


def about_id(a, idr):
    """a MAC over the identity"""
    if idr is None:
        return True
    return isinstance(a.data, Bytes) and ropein(a.data, idr)


def ropein(b, part):
    """does rope b contain rope part contiguously?"""
    if not isinstance(b, Bytes) or not isinstance(part, Bytes):
        return False
    n = part.len
    pos = 0
    cands = []
    for s in b.segs:
        cands.append(pos)
        # inside a longer received segment
        if s[0] in ('t', 'x') and part.segs:
            p0 = part.segs[0]
            if s[0] == 't' and p0[0] == 't' and s[1] is p0[1]:
                cands.append(ladd(pos, lsub(p0[2], s[2])))
            if s[0] == 'x' and p0[0] == 'x':
                for u in s[1]:
                    for w in p0[1]:
                        if u[0] == 't' and w[0] == 't' and u[1] is w[1]:
                            cands.append(ladd(pos, lsub(w[2], u[2])))
        pos = ladd(pos, seglen(s))
    for c in cands:
        try:
            if bslice(b, c, n) == part:
                return True
        except Exception:
            pass
    return False


# ------------------------------------------------------------------------------------------------ P03
def p03(W, R):
    for s in all_sessions(W, R):
        for n in s.nodes:
            if n.kind == 'err':
                R.check(s.is_done(n) is False or (n.parent and s.is_done(n.parent)), 'errdone/' + tag(s, n), where(s, n), 'a rejected message leaves the run marked complete (%s)' % desc(n), ob='%s: not complete after rejection' % tag(s, n))
                R.check(not n.fin, 'errfin/' + tag(s, n), where(s, n), 'a key is available after a rejected message (%s)' % desc(n), ob='%s: no key after rejection' % tag(s, n))
            elif n.kind == 'ok':
                before = set(failed_checks(n.parent.st.facts)) if n.parent else set()
                bad = [f for f in failed_checks(n.st.facts) if f not in before]
                R.check(not bad, 'accept/' + tag(s, n), where(s, n), 'a message is accepted although a check on it failed: %s' % (', '.join(f.op for f in bad)), [show(f)[:300] for f in bad], ob='%s: no failed check on the accepted path (%s)' % (tag(s, n), desc(n)))


# ------------------------------------------------------------------------------------------------ P04
def p04(W, R):
    for s in all_sessions(W, R):
        if s.kind != 'ibke':
            continue
        for n in completed(s):
            for st, idr, key in fins(s, n):
                ln = idr.len if isinstance(idr, Bytes) else None
                R.check(isinstance(idr, Bytes) and received(idr), 'idsrc/' + tag(s), where(s, n), 'the reported peer identity is not taken from what the peer sent: %s' % show(idr)[:200], ob='%s: identity received from the peer' % tag(s, n))
                if s.ty in SIGCERT:
                    cert, good = cert_auth(W, s, n, idr)
                    R.check(cert is not None and good, 'idcert/' + tag(s), where(s, n), 'the reported peer identity is not the identity inside the verified certificate (%s)' % desc(n), [show(idr)[:200], show(cert.data)[:300] if cert else ''], ob='%s: identity is the certified one (%s)' % (tag(s, n), desc(n)))
                else:
                    hit = [t for t in subterms(auth_terms(n)) if t.op == 'hash' and ropein(t.args[-1], idr)]
                    R.check(hit, 'idhash/' + tag(s), where(s, n), 'the reported peer identity does not enter the verified confirmation tag', ob='%s: identity hashed into the verified tag' % tag(s, n))
    for role in ROLES:
        s = W.eue(role)
        if s is not None:
            R.session(s)
            for n in s.nodes:
                for st, v in n.fin:
                    i = v.fs[0] if isinstance(v, Agg) and len(v.fs) == 2 else T('fld', v, '0') if isinstance(v, T) else v
                    c = calls(i, '::finalize')
                    R.check(len(c) >= 1 and passthru(i, c, '0'), 'eueid/' + role, where(s, n), 'the encrypted session alters the peer identity', ob='%s: identity passed through' % tag(s, n))
        s = W.latke(role)
        R.session(s)
        for n in s.nodes:
            for st, v in n.fin:
                i = v.fs[0] if isinstance(v, Agg) and len(v.fs) == 2 else T('fld', v, '0') if isinstance(v, T) else v
                c = calls(i, '::finalize')
                R.check(len(c) >= 1 and passthru(i, c, '0'), 'latkeid/' + role, where(s, n), 'LATKE alters the peer identity', ob='%s: identity passed through' % tag(s, n))


def passthru(v, cs, f):
    v = asb(v)
    return isinstance(v, Bytes) and len(v.segs) == 1 and v.segs[0][0] == 't' and any(v.segs[0][1] is T('fld', c, f) for c in cs) and v.segs[0][2] == 0


def auth_terms(n):
    return tuple(a.whole() for a in auths(n.st.facts) if not a.weak)


# ------------------------------------------------------------------------------------------------ P05
def produced(n):
    """authenticators this party sent: signatures and tags inside outgoing messages"""
    out = []
    for o in outs(n):
        for t in subterms(o):
            if t.op in ('sig', 'mac'):
                out.append(t)
        for t, off, ln in keyed(o):
            if t.op == 'hkdf':
                out.append(t)
    return out


def p05(W, R):
    ssid = T('param', 'ssid')
    for s in all_sessions(W, R):
        for n in completed(s):
            env = Env(n.st)
            for st, idr, key in fins(s, n):
                inkey = srcsegs(key, isparam('ssid'), env).get(ssid)
                inauth = srcsegs(auth_terms(n), isparam('ssid'), env).get(ssid)
                insent = srcsegs(tuple(produced(n)), isparam('ssid'), env).get(ssid)
                if s.ty == 'IdSigDh' or s.ty.startswith('IdSigmaR'):
                    # both what is checked and what is sent must name the session
                    R.check(covered(inauth, 0, 32), 'ssid-verify/' + tag(s), where(s, n), 'the peer signature that is accepted does not cover the whole session identifier', ob='%s: accepted authenticator covers the session identifier' % tag(s, n))
                    R.check(covered(insent, 0, 32), 'ssid-sign/' + tag(s), where(s, n), 'the signature sent does not cover the whole session identifier', ob='%s: sent authenticator covers the session identifier' % tag(s, n))
                else:
                    tot = union({ssid: inkey or set()})
                    R.check(covered(tot[ssid], 0, 32), 'ssid-key/' + tag(s), where(s, n), 'the session key does not depend on the whole session identifier (missing bytes %s)' % gaps(inkey, 0, 32), ob='%s: key depends on the session identifier' % tag(s, n))
                if s.ty == 'IdSigDh':
                    R.check(covered(inkey, 0, 32), 'ssid-key/' + tag(s), where(s, n), 'the session key does not depend on the whole session identifier', ob='%s: key depends on the session identifier' % tag(s, n))
    for role in ROLES:
        s = W.eue(role)
        if s is not None:
            R.session(s)
            for n in s.nodes:
                if n.kind != 'ok':
                    continue
                for e in n.events():
                    if e.k in ('keystream', 'macverify', 'mac'):
                        R.check(covered(srcsegs(e.d['key'], isparam('ssid')).get(ssid), 0, 32), 'eue-ssid/' + role, where(s, n), 'a message key of the encrypted session does not depend on the whole session identifier', ob='%s: message keys depend on the session identifier' % tag(s, n))
            for c in {c for n in s.nodes for c in calls(n.st.mem[n.obj], '::new_session')}:
                R.check(any(isinstance(a, Bytes) and a == tb(ssid, 32) for a in c.args), 'eue-inner/' + role, where(s), 'the inner exchange is not given the session identifier', ob='%s: inner session gets the identifier' % tag(s))
        s = W.latke(role)
        R.session(s)
        cs = {c for n in s.nodes for c in calls(n.st.mem[n.obj], 'Pake::new') + calls(n.st.mem[n.obj], '::new_session')}
        R.check(any(str(c.args[0]).endswith('Pake::new') for c in cs) and any(str(c.args[0]).endswith('::new_session') for c in cs), 'latke-calls/' + role, where(s), 'LATKE does not start both inner protocols', ob='%s: both inner protocols started' % tag(s))
        for c in cs:
            R.check(any(isinstance(a, Bytes) and a == tb(ssid, 32) for a in c.args), 'latke-ssid/%s/%s' % (role, str(c.args[0]).split('::')[-1]), where(s), '%s is not given the session identifier' % c.args[0], ob='%s: %s gets the identifier' % (tag(s), c.args[0]))
        s = W.chip(role)
        R.session(s)
        cs = {c for n in s.nodes for c in calls(n.st.mem[n.obj], 'Pake::new')}
        R.check(cs, 'chip-calls/' + role, where(s), 'CHIP never starts its PAKE', ob='%s: PAKE started' % tag(s))
        for c in cs:
            R.check(any(isinstance(a, Bytes) and a == tb(ssid, 32) for a in c.args), 'chip-ssid/' + role, where(s), 'the PAKE of CHIP is not given the session identifier', ob='%s: PAKE gets the identifier' % tag(s))


# ------------------------------------------------------------------------------------------------ P06
def p06(W, R):
    for s in all_sessions(W, R):
        for n in completed(s):
            env = Env(n.st)
            good = oks(n)
            names = [x.msg for x in good]
            for st, idr, key in fins(s, n):
                at = auth_terms(n)
                sent = tuple(produced(n))
                ink, ina, ins = inputs(key, env), inputs(at, env), inputs(sent, env)
                everything = union(ink, ina, ins)
                for m in names:
                    t = T('in', m)
                    ln = env.num(T('len', t))
                    if m == 'm0':
                        continue
                    R.check(covered(everything.get(t), 0, ln), 'bytes/%s/%s' % (tag(s), m[:2]), where(s, n), 'part of the received message %s (bytes %s) is in neither the session key nor an authenticator: it can be changed unnoticed' % (m, gaps(everything.get(t), 0, ln)), ob='%s: every byte of %s is bound' % (tag(s, n), m))
                if s.ty in CONFIRMED:
                    for t, rs in ink.items():
                        for o, l in rs:
                            R.check(l is not None and covered(ina.get(t), o, ladd(o, l)), 'unverified/%s/%s' % (tag(s), t.args[0][:2]), where(s, n), 'received bytes of %s enter the session key but no verified check covers them' % t.args[0], ob='%s: key input from %s verified' % (tag(s, n), t.args[0]))
                        R.check(t.args[0] in names, 'stale/%s' % tag(s), where(s, n), 'the session key depends on message %s, which was rejected' % t.args[0], ob='%s: only accepted messages in the key' % tag(s, n))
                R.check(ink, 'peerinput/' + tag(s), where(s, n), 'the session key does not depend on anything the peer sent', ob='%s: key depends on the peer' % tag(s, n))
                R.check(ephemeral(key), 'ownrandom/' + tag(s), where(s, n), 'the session key does not depend on randomness drawn in this run', ob='%s: key depends on own randomness' % tag(s, n))


def ephemeral(v):
    return bool(random_leaves(v))


# ------------------------------------------------------------------------------------------------ P07
def distinct(a, b):
    """can ropes a and b never hold equal bytes, whatever the symbolic parts are?"""
    if not isinstance(a, Bytes) or not isinstance(b, Bytes):
        return False
    d = lsub(a.len, b.len)
    if isinstance(d, int) and d != 0:
        return True

    def consts(x):
        out = {}
        pos = 0
        for s in x.segs:
            l = seglen(s)
            if s[0] == 'c':
                for i, c in enumerate(s[1]):
                    out[ladd(pos, i)] = c
            pos = ladd(pos, l)
        return out
    ca, cb = consts(a), consts(b)
    return any(k in cb and cb[k] != v for k, v in ca.items())


def tagsep(x, y):
    """can the two authenticator values never coincide by construction?  x, y: (term, off, len)"""
    (t1, o1, l1), (t2, o2, l2) = x, y
    if t1 is t2:
        return not overlap((o1, l1), (o2, l2))
    if t1.op == t2.op == 'hkdf':
        if t1.args[0] != t2.args[0]:
            return True
        return distinct(t1.args[1], t2.args[1])
    if t1.op == t2.op == 'mac':
        if t1.args[0] != t2.args[0]:
            return True
        return distinct(t1.args[1], t2.args[1])
    return True


def keyuses(n):
    """{kind: [(term, off, len)]} of derived key material used on this path"""
    u = {'enc': [], 'mac': []}
    for e in n.allevents():
        if e.k == 'keystream':
            u['enc'] += keyed(e.d['key'])
        elif e.k in ('mac', 'macverify'):
            u['mac'] += keyed(e.d['key'])
    return u


def p07(W, R):
    for s in all_sessions(W, R):
        for n in completed(s):
            sent = []
            for o in outs(n):
                sent += [x for x in keyed(o) if x[0].op in ('hkdf', 'mac')]
                for t in subterms(o):
                    if t.op == 'mac':
                        sent.append((t, 0, 32))
            checked = []
            for a in auths(n.st.facts):
                if a.kind == 'tag':
                    checked += [x for x in keyed(a.data) if x[0].op in ('hkdf', 'mac')]
                elif a.kind == 'mac' and isinstance(a.data, Bytes):
                    checked.append((T('mac', a.key, a.data), 0, 32))
            for x in sent:
                for y in checked:
                    R.check(tagsep(x, y), 'reflect/' + tag(s), where(s, n), 'the tag this party sends can be reflected: it equals the tag it expects from the peer', [show(x[0])[:300], show(y[0])[:300]], ob='%s: sent and expected tags differ' % tag(s, n))
            ss = [t for o in outs(n) for t in subterms(o) if t.op == 'sig' and own(t.args[0])]
            vs = [a for a in auths(n.st.facts) if a.kind == 'sig' and not has(a.key, isparam('mpk'))]
            for t in ss:
                for a in vs:
                    R.check(distinct(t.args[1], a.data), 'reflectsig/' + tag(s), where(s, n), 'the signature this party sends can be reflected: signed and expected messages are not distinguished by role', ob='%s: signed and expected messages differ by role' % tag(s, n))
            u = keyuses(n)
            eve = Eavesdropper(outs(n) + [Bytes([x]) for a in auths(n.st.facts) if a.kind == 'tag' and isinstance(a.data, Bytes) for x in a.data.segs])
            for st, idr, key in fins(s, n):
                R.check(not eve.knows(key), 'computable/' + tag(s), where(s, n), 'the session key can be computed from the public values and the tags of the run: it is not separated from what is transmitted', [show(key)[:300]], ob='%s: session key not computable from transmitted values' % tag(s, n))
                ks = [x for x in keyed(key)]
                for kind, us in (('tag', sent + checked), ('encryption key', u['enc']), ('MAC key', u['mac'])):
                    for y in us:
                        for x in ks:
                            R.check(tagsep(x, y), 'keysep/%s/%s' % (tag(s), kind), where(s, n), 'the session key overlaps with a %s of the same run' % kind, [show(x[0])[:300], show(y[0])[:300]], ob='%s: session key separate from %s' % (tag(s, n), kind))
            for x in u['enc']:
                for y in u['mac']:
                    R.check(tagsep(x, y), 'encmac/' + tag(s), where(s, n), 'an encryption key overlaps with a MAC key', ob='%s: encryption and MAC keys separate' % tag(s, n))
            for x in sent:
                for y in u['enc'] + u['mac']:
                    R.check(tagsep(x, y), 'tagkey/' + tag(s), where(s, n), 'a transmitted tag overlaps with a key of the same run', ob='%s: tags separate from keys' % tag(s, n))
            # two directions never share an encryption key
            es = [(e.d['key'], e.d['data']) for e in n.allevents() if e.k == 'keystream']
            o_ = [k for k, d in es if not has(d, isin)]
            i_ = [k for k, d in es if has(d, isin)]
            for k in o_:
                for k2 in i_:
                    for x in keyed(k):
                        for y in keyed(k2):
                            R.check(tagsep(x, y), 'direction/' + tag(s), where(s, n), 'both directions are encrypted under the same key', ob='%s: one encryption key per direction' % tag(s, n))
    # password-keyed permutation: one key per direction and one tweak per use
    for (ty, role), s in sorted(W.sessions().items()):
        if ty != 'Cake':
            continue
        for n in completed(s):
            keys = {}
            for x in n.chain():
                if x.kind != 'ok':
                    continue
                ds = {t.args[0] for t in subterms((x.out, n.st.mem[n.obj], tuple(v for _, v in n.fin))) if t.op == 'deck'}
            ks = list(ds)
            allk = {t.args[0] for v in [y.out for y in n.chain()] + [v for _, v in n.fin] for t in subterms(v) if t.op == 'deck'}
            R.check(len(allk) >= 2, 'cake-sep/' + tag(s), where(s, n), 'both messages are enciphered under the same key', ob='%s: two cipher keys' % tag(s, n))
            l = list(allk)
            for i in range(len(l)):
                for j in range(i):
                    xs, ys = keyed(l[i]), keyed(l[j])
                    R.check(xs and ys and all(tagsep(a, b) for a in xs for b in ys), 'cake-keys/' + tag(s), where(s, n), 'the cipher keys of the two messages are not separated by role', ob='%s: cipher keys separated' % tag(s, n))


def own(k):
    return not has(k, isin)
