"""P33: every copy of the Keccak permutation is Keccak-f[1600]"""
import multiprocessing
import os
import sys
import keccak as K
import cir
import rules_sponge
from rules_dil import Rep

KECCAK4X = {'common': 'pqcrypto/pqclean/common/keccak4x', 'internals': 'pqcrypto/pqcrypto-internals/cfiles/keccak4x'}
AVX = 'pqcrypto/pqclean/crypto_sign/%s/avx2/'


def fill(k, i):
    """the lane values of the constant state used when forms do not settle a copy"""
    x = ((k * 25 + i + 1) * 0x9E3779B97F4A7C15) & K.M64
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & K.M64
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & K.M64
    return x ^ (x >> 31)


def feasible(c, y, n):
    """a single condition that some state certainly satisfies: a lane, or an exclusive-or of lanes, (un)equal to a constant"""
    if n != 1 or c[1] not in ('eq', 'ne'):
        return False
    return all(len(m) <= 1 for m, _ in c[3])


def forced(c, y):
    """(instance, lane, value) when the condition fixes one lane of the input"""
    if (c[1] == 'eq') == y and len(c[3]) == 1:
        (m, v), = c[3]
        if len(m) == 1 and v == K.M64:
            a, = m
            if a >> 6 < 25:
                return c[2], a >> 6, K.rotm(c[4], 64 - (a & 63))
    return None


def under(w, i, c, y):
    """(same, differs): output lane i compared with the right one when the condition c came out as y"""
    d = K.xor(w, K.atom(w.k if isinstance(w, K.W) else 0, 24, i)) if isinstance(w, (K.W, int)) else None
    if d is None:
        return False, True
    if c is None or (c[1] == 'eq') != y or c[1] not in ('eq', 'ne'):
        return d == 0 and not isinstance(d, K.W), True
    if isinstance(d, int):
        return d == 0, True
    # the condition says: form == constant
    if frozenset((m, v) for m, v in d.d.items() if m) == c[3] and d.d.get(K.ONE, 0) == c[4]:
        return True, False
    if len(c[3]) == 1:
        (m, v), = c[3]
        if len(m) == 1 and v == K.M64:
            a, = m
            val = K.rotm(c[4], 64 - (a & 63))
            out = 0
            for mo, ma in d.d.items():
                t = ma
                rest = []
                for x in mo:
                    if x >> 6 == a >> 6:
                        t &= K.rotm(val, x & 63)
                    else:
                        rest.append(x)
                out = K.xor(out, K.norm(d.k, {frozenset(rest): t}) if t else 0)
            zero = isinstance(out, int) and out == 0
            return zero, not zero
    return False, False


def copy(rep, name, where, lanes, r0, go):
    """one copy: go(machine) runs the code over it"""
    n = 24 - r0
    title = '%s: %d rounds' % (name, n)
    work = [()]
    runs = 0
    while work:
        ch = work.pop()
        runs += 1
        if runs > 8:
            rep.undecided(title + ': more branches on the state than were followed')
            return
        x = K.Machine(lambda k, i: K.atom(k, r0, i), lanes, r0, ch)
        why = None
        try:
            go(x)
        except K.Stuck as e:
            why = str(e)
        except K.Bad as e:
            if len(x.conds) <= 1:
                rep.check(False, name + '/access', where, str(e), ob=title + ': stays inside the state and the tables')
                return
            why = str(e)
        for j in range(len(ch), len(x.taken)):
            work.append(tuple(x.taken[:j]) + (True,))
        rep.nodes += x.steps
        if why is None:
            bad = []
            odd = []
            for k, A in enumerate(x.final()):
                for i, w in enumerate(A):
                    c, y = x.conds[0] if len(x.conds) == 1 and x.conds[0][0][2] == k else (None, None)
                    good = isinstance(w, K.W) and w.k == k and w.d == {frozenset([(24 * 25 + i) << 6]): K.M64}
                    sure = True
                    if not good and not (isinstance(w, K.W) and w.k != k):
                        good, sure = under(w, i, c, y)
                    if not good:
                        bad.append((k, i, w))
                        rr = {(c >> 6) // 25 for m in w.d for c in m} if isinstance(w, K.W) else set()
                        # canonical over the lanes of one of the last two rounds: a different form is a different value
                        if not (rr <= {24} or rr <= {23}) or not sure:
                            odd.append(i)
            if not bad:
                for k in range(lanes):
                    for r in range(r0 + 1, 25):
                        rep.check(True, name, where, '', ob='%s: instance %d: the 25 lanes after round %d are those of Keccak-f' % (title, k, r))
                continue
            if not odd and (not x.conds or feasible(x.conds[0][0], x.conds[0][1], len(x.conds))):
                k, i, w = bad[0]
                rep.check(False, name + '/lane', where, 'the permutation is not Keccak-f[1600]: lane %d of the output%s is wrong%s' % (i, ' of instance %d' % k if lanes > 1 else '', ' for a state that meets a condition the code tests' if x.conds else ''), ob=title,
                          detail=['wrong lanes: %s' % [(k, i) for k, i, _ in bad][:12], 'lane = ' + (w.show() if isinstance(w, K.W) else hex(w) if isinstance(w, int) else 'the input')])
                return
            why = 'the output has a form that was not recognised'
        # constants through the same code: a wrong result for one state is a wrong permutation
        fix = {}
        if x.conds:
            f = forced(*x.conds[0]) if len(x.conds) == 1 else None
            if f is None:
                rep.undecided('%s: %s, after a branch on the state' % (title, why))
                continue
            fix[f[0], f[1]] = f[2]
        init = lambda k, i: fix.get((k, i), fill(k, i))
        y = K.Machine(init, lanes, r0)
        try:
            go(y)
        except (K.Stuck, K.Bad) as e:
            rep.undecided('%s: %s' % (title, why))
            continue
        got = y.final()
        want = [K.permute([init(k, i) for i in range(25)], r0, 24) for k in range(lanes)]
        if got != want:
            met = {}
            for (k, r), s in x.rounds.met.items():
                met[r] = max(met.get(r, 0), len(s))
            last = max([r for r, c in met.items() if c == 25], default=r0)
            rep.check(False, name + '/round', where, 'the permutation is not Keccak-f[1600]: round %d is wrong (%d of its 25 lanes are those of Keccak-f)' % (last + 1, met.get(last + 1, 0)), ob=title, detail=[why])
            return
        rep.undecided('%s: %s' % (title, why))


def scalar(rep, which):
    m = cir.load_common(which)
    ps = [k for k, n in rules_sponge.perms(m).items() if n == 1]
    where = cir.SHARED[which] + '/fips202.c'
    if not ps:
        rep.undecided('the permutation was not found')
        return
    for key in ps:
        f = m.fns[key]
        rep.fns.add('%s/%s' % (which, f.name))
        copy(rep, '%s/%s' % (which, f.name), where, 1, 0, lambda x: K.CRun(m, x).run(f, [('ptr', 'state', 0)] + [None] * (len(f.params) - 1)))


def times4(rep, which):
    d = os.path.join(cir.REPO, KECCAK4X[which])
    files = [f for f in sorted(os.listdir(d)) if f.endswith('.c')]
    sys.setrecursionlimit(20000)
    m = cir.Mod()
    for f, t in cir.compile_dir(d, 'k4-%s-' % which, files).items():
        cir.parse(t, m, f)
    for n, r0 in (('KeccakP1600times4_PermuteAll_24rounds', 0), ('KeccakP1600times4_PermuteAll_12rounds', 12)):
        f = m.fns.get(n)
        if f is None:
            rep.undecided(n + ' was not found')
            continue
        rep.fns.add('%s/keccak4x/%s' % (which, n))
        copy(rep, '%s/keccak4x/%s' % (which, n), KECCAK4X[which], 4, r0, lambda x: K.CRun(m, x).run(f, [('ptr', 'state', 0)]))


def asm(rep, scheme):
    d = AVX % scheme
    m = cir.load(scheme, 'avx2', only=('fips202x4.c',))
    tabs = {}
    for key, f in m.fns.items():
        for b in f.blocks.values():
            for i in b:
                if i[0] == 'call' and i[4][0] == '@' and str(i[4][1]).endswith('f1600x4'):
                    tabs.setdefault(i[4][1], []).append((f.name, i[1], i[5][1][1] if len(i[5]) > 1 else None))
    if not tabs:
        rep.undecided('no call of the assembly permutation was found')
        return
    src = [f for f in sorted(os.listdir(os.path.join(cir.REPO, d))) if f.endswith('.S')]
    for entry, calls in tabs.items():
        for f in src:
            A = K.Asm(open(os.path.join(cir.REPO, d, f)).read())
            if entry in A.labels:
                break
        else:
            rep.undecided('%s was not found in the assembly files' % entry)
            continue
        rep.fns.add('%s/avx2/%s' % (scheme, entry))
        ops = {c[2] for c in calls}
        for op in ops:
            g = K.CRun(m, None)
            try:
                p = g.const(('p',), op) if op and op[0] != '%' else None
            except K.Stuck:
                p = None
            if p is None or p[2] != 0:
                rep.undecided('%s: the round constants it is called with were not found' % entry)
                continue
            k = next((x for x in m.globals if x == p[1][1] or isinstance(x, tuple) and x[1] == p[1][1]), None)
            try:
                t = g.flat(m.globals[k][0], m.globals[k][1])
            except (KeyError, K.Stuck):
                rep.undecided('%s: the round constants it is called with were not found' % entry)
                continue
            copy(rep, '%s/avx2/%s' % (scheme, f), d + f, 4, 0, lambda x: A.run(x, entry, t))


JOBS = [('scalar', 'common'), ('scalar', 'internals'), ('times4', 'common'), ('times4', 'internals'), ('asm', 'dilithium2'), ('asm', 'dilithium3'), ('asm', 'dilithium5')]


def worker(job):
    kind, which = job
    rep = Rep('')
    box = []
    try:
        {'scalar': scalar, 'times4': times4, 'asm': asm}[kind](rep, which)
    except (K.Stuck, K.Bad, cir.IRError, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rep.undecided('%s/%s: the analysis could not follow the code: %s: %s (%s:%d)' % (kind, which, type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except cir.Broken as e:
        box.append(str(e))
    return rep, box


def p33(W, R):
    from world import BuildFailed, Violation
    with multiprocessing.get_context('fork').Pool(7) as pool:
        for rep, broken in pool.imap(worker, JOBS, 1):
            if broken:
                raise BuildFailed(broken[0])
            R.obligations += rep.ob
            R.undecided += [u for u in rep.und if u not in R.undecided]
            R.functions |= rep.fns
            R.nodes += rep.nodes
            for k, w, m, dt in rep.viol:
                if not any(v.key == k for v in R.violations):
                    R.violations.append(Violation(k, w, m, dt))


if __name__ == '__main__':
    import time
    for j in JOBS:
        if len(sys.argv) > 1 and '/'.join(j) not in sys.argv[1:]:
            continue
        t = time.time()
        rep, box = worker(j)
        print('==', j, '%.1fs' % (time.time() - t), len(rep.ob), sum(1 for _, ok in rep.ob if not ok), rep.nodes, box)
        for x in rep.viol:
            print('  V', x[0], x[2][:200], x[3])
        for x in rep.und[:8]:
            print('  U', x[:300])
