"""Build the MIR of the two contracts from /repo's current working tree, in a scratch copy of its sources."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
WORK = os.environ.get('SA_BUILD', os.path.join(VERIF, '.build'))
CRATES = {'exchange': ('ref-exchange', 'ref-exchange'), 'farming': ('ref-farming', 'ref_farming')}
MEMBERS = ['ref-exchange', 'ref-farming', 'test-token', 'test-rated-token', 'mock-boost-farming', 'mock-price-oracle', 'mock-wnear', 'mock-pyth']
TOP = ['Cargo.toml', 'Cargo.lock', 'rust-toolchain', 'rust-toolchain.toml', '.cargo/config', '.cargo/config.toml']


class BuildError(Exception):
    pass


def source_files(repo):
    out = [f for f in TOP if os.path.isfile(os.path.join(repo, f))]
    for m in sorted(os.listdir(repo)):
        d = os.path.join(repo, m)
        if not os.path.isfile(os.path.join(d, 'Cargo.toml')):
            continue
        for root, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if x not in ('target', 'node_modules', '.git', 'tests', 'fuzz', 'examples', 'benches'))
            for f in sorted(files):
                if f.endswith(('.rs', '.toml', '.json', '.txt', '.md')) or f == 'Cargo.toml':
                    out.append(os.path.relpath(os.path.join(root, f), repo))
    return out


def tree_hash(repo, files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        with open(os.path.join(repo, f), 'rb') as fh:
            b = fh.read()
        h.update(str(len(b)).encode() + b'\0' + b)
    with open(os.path.abspath(__file__), 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


def warm(repo, tgt):
    """Seed a fresh target directory with the dependency artefacts /repo has already built, when it has."""
    mine = tuple(m.replace('-', '_') for m in MEMBERS)
    for sub in ('release', 'wasm32-unknown-unknown/release'):
        src = os.path.join(repo, 'target', sub)
        dst = os.path.join(tgt, sub)
        if os.path.isdir(dst) or not os.path.isdir(src):
            continue
        for d in ('deps', 'build', '.fingerprint'):
            s = os.path.join(src, d)
            if not os.path.isdir(s):
                continue
            os.makedirs(os.path.join(dst, d), exist_ok=True)
            for e in os.listdir(s):
                n = e[3:] if e.startswith('lib') else e
                if n.replace('-', '_').startswith(mine):
                    continue
                a, b = os.path.join(s, e), os.path.join(dst, d, e)
                try:
                    if os.path.isdir(a):
                        shutil.copytree(a, b, symlinks=True)
                    else:
                        shutil.copy2(a, b)
                except OSError:
                    pass


def build(crate, repo=None, log=sys.stderr):
    """-> (path of the MIR dump, root the spans are relative to, tree hash)"""
    repo = repo or REPO
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        files = source_files(repo)
        h = tree_hash(repo, files)
        d = os.path.join(WORK, 'trees', h)
        out = os.path.join(d, crate + '.mir')
        src = os.path.join(d, 'src')
        if os.path.exists(out):
            os.utime(d)
            return out, src, h
        prune(os.path.join(WORK, 'trees'), keep=6)
        if not os.path.isdir(src):
            tmp = src + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            for f in files:
                p = os.path.join(tmp, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                shutil.copyfile(os.path.join(repo, f), p)
            os.rename(tmp, src)
        tgt = os.path.join(WORK, 'target')
        warm(repo, tgt)
        pkg = CRATES[crate][1]
        t = time.time()
        script = ('. /opt/vp/env.sh; export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$1" RUSTC_BOOTSTRAP=1; cd "$2" && '
                  'exec cargo rustc --offline --locked -p "$3" --lib --target wasm32-unknown-unknown --release '
                  '-- -Zunpretty=mir -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no')
        # the source copy sits at one fixed path, so that cargo's fingerprints of the members stay comparable
        with open(out + ".tmp", "wb") as o, open(out + '.err', 'wb') as e:
            rc = subprocess.call(['bash', '-c', script, 'sh', tgt, src, pkg], stdout=o, stderr=e)
        if rc != 0 or os.path.getsize(out + '.tmp') < 1000000:
            with open(out + '.err', errors='replace') as e:
                raise BuildError('building the MIR of %s failed (rc %d):\n%s' % (pkg, rc, e.read()[-3000:]))
        os.rename(out + '.tmp', out)
        print('built %s MIR in %.1fs' % (pkg, time.time() - t), file=log)
        return out, src, h


def prune(d, keep):
    try:
        es = sorted((os.path.join(d, x) for x in os.listdir(d)), key=os.path.getmtime)
    except OSError:
        return
    for e in es[:-keep] if keep else es:
        shutil.rmtree(e, ignore_errors=True)


if __name__ == '__main__':
    for c in sys.argv[1:] or CRATES:
        print(*build(c))
