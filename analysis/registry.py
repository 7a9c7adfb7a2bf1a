"""The rules, by property."""
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = ['rustc (type checking and MIR construction)', 'the MIR extraction driver in /verif/driver', 'the transfer functions for std and the cryptographic crates in /verif/analysis/models.py']
ASSUMPTIONS = ['cryptographic primitives are ideal: the value of a hash, KDF, MAC or signature is determined by, and only by, its inputs',
               'a panic ends the session: state after unwinding is not used again',
               'library functions without a model return a value that depends on all their arguments and on nothing else']
RULES = {}


def rule(pid, level='other', needs='rust', text=''):
    def d(f):
        RULES[pid] = {'fn': f, 'level': level, 'needs': needs, 'rule': text}
        return f
    return d


def c_rule(rule):
    def f(W, R):
        rd.each(R, rule)
    f.__doc__ = rule.__doc__
    return f


def world(r, tier):
    if r.get('needs') == 'c':
        return None
    from world import World
    W = World()
    W.tier = tier
    return W


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                out[key.replace('key=', '')] = what
    return out


import rules_auth as ra
import rules_crypt as rc
import rules_state as rs
import rules_comp as ro
import rules_saber as rk
import rules_dil as rd
import rules_samp as rs_
import rules_bind as rb
import rules_sponge as rp
import rules_perm as rq

for pid, fn in (('P01', ra.p01), ('P02', ra.p02), ('P03', ra.p03), ('P04', ra.p04), ('P05', ra.p05), ('P06', ra.p06), ('P07', ra.p07),
                ('P10', rc.p10), ('P16', rc.p16),
                ('P08', rs.p08), ('P12', rs.p12), ('P13', rs.p13), ('P14', rs.p14), ('P15', rs.p15),
                ('P11', ro.p11), ('P09', ro.p09),
                ('P19', rk.p19), ('P20', rk.p20), ('P21', rk.p21), ('P22', rk.p22), ('P23', rk.p23),
                ('P17', ro.p17), ('P24', rb.p24), ('P29', ro.p29), ('P31', ro.p31)):
    RULES[pid] = {'fn': fn, 'level': 'other'}

C_TRUSTED = ['clang (parsing, type checking and lowering of the C sources to LLVM IR)', 'the interpreter of LLVM IR in /verif/analysis/cint.py and its vector operations in cvec.py',
             'the summaries in /verif/analysis/csum.py of fips202 and of the NTT functions']
C_ASSUMPTIONS = ['SHAKE is ideal: its output is determined by, and only by, its input', 'the NTT functions compute the negacyclic NTT within their documented ranges',
                 'the C sources are built with the flags of pqcrypto-dilithium/build.rs']
for pid, fn in (('P25', rd.p25), ('P26', rd.p26), ('P27', rd.p27), ('P28', rd.p28), ('P30', rs_.p30)):
    RULES[pid] = {'fn': c_rule(fn), 'level': 'other', 'needs': 'c', 'trusted': C_TRUSTED, 'assumptions': C_ASSUMPTIONS}

RULES['P32'] = {'fn': rp.p32, 'level': 'other', 'needs': 'c',
                'trusted': ['clang (parsing, type checking and lowering of the C sources to LLVM IR)', 'the interpreter of LLVM IR in /verif/analysis/sponge.py', 'the Keccak permutation (C and AVX2 assembly) computes Keccak-f[1600]'],
                'assumptions': ['allocation succeeds or the program exits', 'a length is below 2^62', 'the C sources are built with the flags of pqcrypto-internals/build.rs']}

RULES['P33'] = {'fn': rq.p33, 'level': 'other', 'needs': 'c',
                'trusted': ['clang (parsing, type checking and lowering of the C sources to LLVM IR)', 'the readers of LLVM IR and of AT&T assembly and the word forms in /verif/analysis/keccak.py'],
                'assumptions': ['the C sources are built with the flags of pqcrypto-dilithium/build.rs']}

import sys
sys.path.insert(0, VERIF)
import spec
for _k in RULES:
    RULES[_k].setdefault('rule', RULES[_k]['fn'].__doc__ or _k)
for _p in spec.PROPS:
    if _p['id'] in RULES:
        RULES[_p['id']]['rule'] = _p['rule'] or _p['statement']
