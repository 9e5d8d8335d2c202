"""Builds the MIR extractor and the extracts the checks work on.

  driver      /verif/driver/mirdump.rs  -> .build/<key>/mirdump     (rustc +nightly, rustc_private)
  shims       /verif/driver/shims.rs    -> .build/<key>/shims/*.json (bodies of core functions the analysis steps into)
  repository  the workspace in /repo    -> .build/<key>/repo-<srckey>/*.json

The repository extract is made by running `cargo check` in /repo itself with the extractor as rustc wrapper and a
target directory of its own under .build; it is reused only for a byte-identical source tree.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e['PATH'] = '/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin:' + e.get('PATH', '')
    e.setdefault('HOME', '/root')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['RUSTC_WRAPPER'] = ''
    e['CARGO_INCREMENTAL'] = '0'
    for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC'):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s failed (%d):\n%s' % (' '.join(cmd), r.returncode, r.stdout[-4000:]))
    return r.stdout


def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as x:
            h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()[:20]


def repo_sources(repo):
    out = []
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'target', 'node_modules'))
        for f in fs:
            if f.endswith(('.rs', '.toml', '.laps', '.alaps', '.lock')):
                out.append(os.path.join(d, f))
    return out


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def tools():
    """(driver binary, shims directory, sysroot)"""
    e = env()
    sysroot = run(['rustc', '+nightly', '--print', 'sysroot'], env=e, cwd='/').strip()
    ver = run(['rustc', '+nightly', '-V'], env=e, cwd='/')
    src = [os.path.join(ROOT, 'driver', x) for x in ('mirdump.rs', 'shims.rs')]
    key = hashlib.sha256((ver + digest(src)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, 'tools-' + key)
    drv = os.path.join(d, 'mirdump')
    sh = os.path.join(d, 'shims')
    if not os.path.exists(os.path.join(d, 'done')):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(sh)
        run(['rustc', '+nightly', '-O', src[0], '-o', drv], env=e, cwd=d)
        e2 = dict(e, MIRDUMP_OUT=sh, LD_LIBRARY_PATH=sysroot + '/lib')
        run([drv, src[1], '--crate-name', 'shims', '--crate-type', 'lib', '--edition', '2021', '--emit', 'metadata',
             '-o', os.path.join(d, 'libshims.rmeta'), '--sysroot', sysroot], env=e2, cwd=d)
        open(os.path.join(d, 'done'), 'w').close()
    return drv, sh, sysroot


def extract(repo=REPO):
    """directory with the MIR extract of the repository's current source"""
    with Lock():
        drv, sh, sysroot = tools()
        key = digest(repo_sources(repo))
        out = os.path.join(os.path.dirname(drv), 'repo-' + key)
        if os.path.exists(os.path.join(out, 'done')):
            return out, sh, True
        for old in glob.glob(os.path.join(os.path.dirname(drv), 'repo-*')):
            # another run may still be reading a recent one
            if time.time() - os.path.getmtime(old) > 600 or not os.path.exists(os.path.join(old, 'done')):
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        target = os.path.join(BUILD, 'target-%d' % os.getpid())
        # the libraries' build scripts would overwrite tracked files if these exist (as in /opt/vp/env.sh)
        for g in ('lalr1_gen', 'alalr1_gen'):
            p = os.path.join(repo, 'target', 'debug', g)
            if os.path.exists(p):
                os.remove(p)
        lock = os.path.join(repo, 'Cargo.lock')
        saved = open(lock, 'rb').read() if os.path.exists(lock) else None
        e = env()
        e.update(MIRDUMP_OUT=out, LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=drv,
                 CARGO_TARGET_DIR=target)
        try:
            run(['cargo', '+nightly', 'check', '--workspace', '--offline'], env=e, cwd=repo)
        finally:
            shutil.rmtree(target, ignore_errors=True)
            if saved is not None and open(lock, 'rb').read() != saved:
                with open(lock, 'wb') as h:
                    h.write(saved)
        if not glob.glob(os.path.join(out, 'lexan-*.json')):
            raise BuildError('no extract was produced')
        open(os.path.join(out, 'done'), 'w').close()
        return out, sh, False


if __name__ == '__main__':
    try:
        print(extract(*(sys.argv[1:2])))
    except BuildError as x:
        print(x, file=sys.stderr)
        sys.exit(3)
