"""Builds the extraction driver and extracts the MIR facts of /repo's current tree.
Results are cached by the hash of the sources; a check therefore never uses facts of another tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
CRATES = 'latke,saber,pqcrypto_dilithium,pqcrypto_traits,pqcrypto_internals'


class BuildFailed(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def hashfiles(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        try:
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(b'missing')
    return h.hexdigest()[:24]


def rust_sources():
    out = []
    for top in ('latke', 'saber-rust', 'pqcrypto/pqcrypto-dilithium', 'pqcrypto/pqcrypto-traits', 'pqcrypto/pqcrypto-internals'):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            dn[:] = [d for d in dn if d not in ('target', '.git', 'pqclean', 'cfiles')]
            for f in fn:
                if f.endswith('.rs') or f.endswith('.toml'):
                    out.append(os.path.join(dp, f))
    for f in ('Cargo.toml', 'Cargo.lock', 'pqcrypto/Cargo.toml'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def lock(name):
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()


def driver():
    src = os.path.join(VERIF, 'driver/src/main.rs')
    h = hashfiles([src])
    out = os.path.join(CACHE, 'mirfacts-' + h)
    if os.path.exists(out):
        return out
    with lock('driver'):
        if os.path.exists(out):
            return out
        tmp = out + '.%d' % os.getpid()
        r = sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp])
        if r.returncode:
            raise BuildFailed('driver: ' + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


def rust_facts(quiet=True):
    """directory with the facts of the current tree"""
    drv = driver()
    h = hashfiles(rust_sources() + [os.path.join(VERIF, 'driver/src/main.rs')])
    out = os.path.join(CACHE, 'facts-' + h)
    if os.path.exists(os.path.join(out, 'ok')):
        return out
    with lock('facts'):
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(CACHE, 'target')
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
            env.pop(k, None)
        env.update(LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'), MIRFACTS_OUT=out, MIRFACTS_CRATES=CRATES,
                   RUSTC_WRAPPER=drv, CARGO_TARGET_DIR=tgt, CC='true', AR='true', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
        made = None
        lockfile = os.path.join(REPO, 'Cargo.lock')
        if not os.path.exists(lockfile):
            # ignored by git; put the recorded resolution in place for the run
            shutil.copy(os.path.join(VERIF, 'driver/Cargo.lock.repo'), lockfile)
            made = lockfile
        try:
            # a warm target directory would skip the wrapper for the crates under analysis
            own = ('latke', 'saber', 'pqcrypto-dilithium', 'pqcrypto-traits', 'pqcrypto-internals')
            for dp, dn, fn in os.walk(tgt):
                base = os.path.basename(dp)
                for d in list(dn):
                    if (base == 'build' and d in own) or (base == '.fingerprint' and d.rsplit('-', 1)[0] in own):
                        shutil.rmtree(os.path.join(dp, d), ignore_errors=True)
                        dn.remove(d)
                if base in ('build', '.fingerprint'):
                    dn[:] = []
            r = sh(['cargo', '+nightly', 'check', '--offline', '-p', 'latke'], cwd=REPO, env=env)
        finally:
            if made:
                os.unlink(made)
        if r.returncode:
            shutil.rmtree(out, ignore_errors=True)
            raise BuildFailed('cargo check: ' + r.stdout[-4000:])
        for c in CRATES.split(','):
            if not os.path.exists(os.path.join(out, c + '.json')):
                shutil.rmtree(out, ignore_errors=True)
                raise BuildFailed('no facts for crate ' + c + '\n' + r.stdout[-2000:])
        open(os.path.join(out, 'ok'), 'w').write(h)
        # keep the cache small
        ds = sorted((d for d in os.listdir(CACHE) if d.startswith('facts-')), key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
        for d in ds[:-6]:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    return out


if __name__ == '__main__':
    print(rust_facts())
