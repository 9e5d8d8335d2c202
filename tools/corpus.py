#!/usr/bin/env python3
"""Development tool: applies each patch to a scratch copy of /repo and prints which properties the analysis reports.
usage: corpus.py [-j N] [-v] patch...        (patches: *.diff files, or seeded/<id> directories)"""
import glob, json, multiprocessing, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.setrecursionlimit(20000)
import build, check, mir, reconcile, rules, scope, tree


def dump(repo, out, target, log, drv, sysroot):
    e = build.env()
    e.update(MIRDUMP_OUT=out, LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=target)
    with open(log, 'w') as h:
        return subprocess.run(['cargo', '+nightly', 'check', '--workspace', '--offline'], env=e, cwd=repo,
                              stdout=h, stderr=h).returncode == 0


def judge(out, sh, seconds, props=None, verbose=False):
    SH = mir.Program.load_dir(sh, 's')
    R = tree.Tree(mir.Program.load_gz(ROOT + '/ref/reference.json.gz', 'r'), SH)
    C = tree.Tree(reconcile.load(out, 'c', R.prog), SH, 1000000)
    voc = set(json.load(open(ROOT + '/ref/vocabulary.json'))['vocabulary'])
    X = tree.Compare(R, C, voc)
    J = check.Judge(X, seconds)
    sc = {q: set(scope.functions(q, X)) for q in sorted({q for _, ps in scope.RULES for q in ps})}

    def carried(p):
        return [q for q in sc if p in sc[q]]
    res = {}
    lines = []
    for p, b in sorted(R.prog.bodies.items()):
        if b.kind != 'fn':
            continue
        t = time.time()
        r = J.final(p)
        if r['verdict'] != 'eq' or r.get('note') or time.time() - t > 10:
            lines.append('   %s %s %.1fs %s' % (r['verdict'], p[-110:], time.time() - t, r.get('why') or r.get('note') or ''))
            for f in r['findings'][:2]:
                lines.append('        %s %s: %s' % (f.how, f.what, f.detail[:1500 if verbose else 260]))
        if r['verdict'] == 'ne':
            for q in carried(p):
                res.setdefault(q, []).append(p)
    for prop, fs in rules.RULES.items():
        rep = check.Report(prop, 'quick', 1)
        for f in fs:
            f(X, J, rep)
        for v in rep.viol:
            res.setdefault(prop, []).append('rule: ' + v['key'])
            lines.append('   rule %s %s %s' % (prop, v['key'], v['what'][:200]))
    return res, lines


def worker(a):
    wid, jobs, q, verbose = a
    drv, sh, sysroot = build.tools()
    base = '/tmp/corp/%d' % wid
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    repo = base + '/repo'
    subprocess.run('git -C /repo archive --prefix=repo/ HEAD | tar x -C %s && cp /repo/Cargo.lock %s 2>/dev/null; cd %s && git init -q . ' % (base, repo, repo), shell=True, check=True)
    out = base + '/out'
    os.makedirs(out)
    dump(repo, out, base + '/target', base + '/log', drv, sysroot)
    for name, patch in jobs:
        t = time.time()
        r = subprocess.run(['git', 'apply', '--whitespace=nowarn', patch], cwd=repo, capture_output=True, text=True)
        if r.returncode:
            q.put((name, 'NOAPPLY ' + r.stderr[:300], {}, [], 0))
            continue
        if not dump(repo, out, base + '/target', base + '/log', drv, sysroot):
            q.put((name, 'NOBUILD', {}, ['    ' + l for l in open(base + '/log').read().split('\n') if l.startswith('error')][:3], 0))
        else:
            try:
                res, lines = judge(out, sh, 420, verbose=verbose)
                q.put((name, 'ok', res, lines, time.time() - t))
            except Exception as e:
                import traceback
                q.put((name, 'CRASH ' + traceback.format_exc(limit=-6), {}, [], time.time() - t))
        subprocess.run(['git', 'apply', '-R', '--whitespace=nowarn', patch], cwd=repo, check=True)
    shutil.rmtree(base, ignore_errors=True)
    q.put(None)


def main():
    a = sys.argv[1:]
    n = 7
    verbose = '-v' in a
    if '-v' in a:
        a.remove('-v')
    if '-j' in a:
        i = a.index('-j')
        n = int(a[i + 1])
        del a[i:i + 2]
    with build.Lock():
        build.tools()
    jobs = []
    for x in a:
        if os.path.isdir(x):
            jobs.append((os.path.basename(x.rstrip('/')), os.path.abspath(x + '/patch.diff')))
        else:
            jobs.append((os.path.basename(x)[:-5], os.path.abspath(x)))
    n = min(n, len(jobs))
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=worker, args=((w, jobs[w::n], q, verbose),)) for w in range(n)]
    for p in ps:
        p.start()
    live = n
    while live:
        x = q.get()
        if x is None:
            live -= 1
            continue
        name, st, res, lines, dt = x
        print('== %-28s %s %s (%.0fs)' % (name, st, ' '.join(sorted(res)) if st == 'ok' else '', dt), flush=True)
        for l in lines:
            print(l)


if __name__ == '__main__':
    main()
