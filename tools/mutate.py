"""Development tool: many small random changes to a scratch copy of the repository, and what the
comparison engine says about each.  usage: mutate.py <ref dump dir> <shim dump dir> <count> <seed> [file substring]"""
import glob, hashlib, json, multiprocessing, os, random, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
sys.setrecursionlimit(20000)
import mir, tree

DRIVER = os.environ.get('MIRDUMP', '/tmp/mirdump')
SYS = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
WHERE = re.compile(r'"[\w/\.\-]+\.rs:\d+"')

OPS = [
    (r' == ', [' != ']), (r' != ', [' == ']), (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']),
    (r' && ', [' || ']), (r' \|\| ', [' && ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \+= ', [' -= ', ' = ']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'if !', ['if ']), (r'\bif (?!let|!)', ['if !']),
    (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']), (r'\.is_empty\(\)', ['.len() > 1']),
    (r'\.iter\(\)', ['.iter().skip(1)', '.iter().rev()', '.iter().take(1)']), (r'\.keys\(\)', ['.keys().skip(1)', '.keys().take(2)']), (r'\.values\(\)', ['.values().skip(1)', '.values().take(2)']),
    (r'Ordering::Less', ['Ordering::Greater', 'Ordering::Equal']), (r'Ordering::Greater', ['Ordering::Less', 'Ordering::Equal']),
    (r'\bbreak;', ['continue;', '']), (r'\bcontinue;', ['break;', '']), (r'return (?!;)', ['']), (r'\.insert\(', ['.remove(&']), (r'\.max\(', ['.min(']), (r'\.min\(', ['.max(']),
    (r'Associativity::Left', ['Associativity::Right', 'Associativity::NonAssoc']), (r'Associativity::Right', ['Associativity::Left', 'Associativity::NonAssoc']),
    (r'Associativity::NonAssoc', ['Associativity::Left']), (r'ProcessedState::Unprocessed', ['ProcessedState::Processed']), (r'ProcessedState::NeedsReprocessing', ['ProcessedState::Processed']),
    (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()']), (r'\.push\(', ['.insert(0, ']), (r'\.is_subset\(', ['.is_superset(']), (r'\.extend\(', ['.retain(|_| true); (']),
    (r'else if ', ['if ']), (r'\.0\b', ['.1']), (r'\.1\b', ['.0']), (r'\?;', [';']),
    (r'\.contains\(', ['.is_empty() || !x.contains(']), (r'warning\(', ['error(']), (r'\berror\(', ['warning(']), (r'precedence\(\)', ['precedence() + 1']),
    (r'\bas usize\b', ['as u8 as usize']), (r'\bas u16\b', ['as u8 as u16']), (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'\.filter\(', ['.skip_while(']),
    (r'skip_rules', ['skip_rules']), (r'"([^"\\{}]{3,})"', ['"x"']),
]


def candidates(repo, pat):
    out = []
    for f in sorted(glob.glob(repo + '/*/src/**/*.rs', recursive=True)):
        rel = os.path.relpath(f, repo)
        if pat not in rel or rel.endswith('tests.rs') or rel.startswith(('lap_gen', 'alap_gen')) or rel.endswith('/parser.rs') and 'lib' in rel:
            continue
        src = open(f).read()
        cut = src.find('#[cfg(test)]')
        if cut < 0:
            cut = len(src)
        lines = src[:cut].split('\n')
        for i, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith(('//', '#', 'use ', 'pub use', 'fn ', 'pub fn', 'impl', '}', 'mod ', 'pub mod')):
                continue
            for rx, reps in OPS:
                for m in re.finditer(rx, l):
                    for rep in reps:
                        n = l[:m.start()] + rep + l[m.end():]
                        if n != l:
                            out.append((rel, i, l, n))
            if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'type ', 'static', 'const')):
                out.append((rel, i, l, ''))
    return out


def norm(j):
    return hashlib.sha1(WHERE.sub('""', json.dumps(j, sort_keys=True)).encode()).hexdigest()


def dump(repo, out, target, log):
    env = dict(os.environ, LD_LIBRARY_PATH=SYS + '/lib', MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=DRIVER,
               CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', VERIF_MUT='1')
    for g in ('lalr1_gen', 'alalr1_gen'):
        p = os.path.join(repo, 'target/debug', g)
        if os.path.exists(p):
            os.remove(p)
    r = subprocess.run(['cargo', '+nightly', 'check', '--workspace', '--offline'], cwd=repo, env=env, capture_output=True, text=True)
    open(log, 'w').write(r.stderr)
    return r.returncode == 0


def hashes(prog):
    return {p: norm(b.j) for p, b in prog.bodies.items()}


def interesting(b):
    return b.kind == 'fn' and 'structopt' not in b.path


def affected(R, C, hr):
    hc = hashes(C.prog)
    changed = {p for p in hr if hc.get(p) != hr[p]} | {p for p in hc if p not in hr}
    ch = True
    aff = set(changed)
    # callers through non-boundary functions
    while ch:
        ch = False
        for t in (R, C):
            for p, s in t.calls.items():
                if p not in aff and s & aff:
                    aff.add(p)
                    ch = True
    return changed, aff


def check(R, SH, vocab, hr, out):
    C = tree.Tree(mir.Program.load_dir(out, 'c'), SH, 1000000)
    X = tree.Compare(R, C, vocab)
    changed, aff = affected(R, C, hr)
    res = []
    for p in sorted(aff):
        b = R.prog.bodies.get(p)
        if b is None or not interesting(b):
            continue
        if p not in C.prog.bodies:
            res.append((p, 'missing', '', 0))
            continue
        # only those whose inlined closure changed
        if not inl_changed(R, X, p, changed) and not inl_changed(C, X, p, changed):
            continue
        t = time.time()
        try:
            r = X.compare(p, p, X.boundary)
        except Exception as e:
            import traceback
            res.append((p, 'CRASH', traceback.format_exc()[-700:], time.time() - t))
            continue
        f = r['findings'][0] if r['findings'] else None
        res.append((p, r['verdict'], (f.how + ': ' + f.what + ' ' + f.detail[:200]) if f else str(r.get('why', '')), time.time() - t))
    return changed, res


def inl_changed(T, X, p, changed):
    seen = {p}
    w = [p]
    while w:
        q = w.pop()
        if q in changed:
            return True
        for c in T.calls.get(q, ()):
            if c in T.prog.bodies and c not in seen and c not in X.boundary:
                seen.add(c)
                w.append(c)
    return False


def worker(a):
    wid, muts, refd, shimd, q = a
    SH = mir.Program.load_dir(shimd, 's')
    R = tree.Tree(mir.Program.load_dir(refd, 'r'), SH)
    X = tree.Compare(R, R)
    voc = set()
    for p, b in R.prog.bodies.items():
        if interesting(b):
            ex, root, e, t = X.summary(R, p, X.boundary)
            if root:
                tree.vocabulary(root, voc)
    hr = hashes(R.prog)
    base = '/tmp/mutw/%d' % wid
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    repo = base + '/repo'
    subprocess.run('git -C /repo archive --prefix=repo/ HEAD | tar x -C %s' % base, shell=True, check=True)
    out = base + '/out'
    os.makedirs(out)
    dump(repo, out, base + '/target', base + '/log')
    for k, m in muts:
        rel, i, old, new = m
        f = repo + '/' + rel
        src = open(f).read()
        ls = src.split('\n')
        assert ls[i] == old
        ls[i] = new
        open(f, 'w').write('\n'.join(ls))
        okb = dump(repo, out, base + '/target', base + '/log')
        if okb:
            t = time.time()
            changed, res = check(R, SH, voc, hr, out)
            q.put((k, m, changed, res, time.time() - t))
        else:
            q.put((k, m, None, None, 0))
        time.sleep(0.01)
        open(f, 'w').write(src)
        # restore the dump as well on the next build; force it now so that the output is of the mutant only
        os.utime(f)
    shutil.rmtree(base, ignore_errors=True)
    q.put(None)


def main():
    refd, shimd, count, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    pat = sys.argv[5] if len(sys.argv) > 5 else ''
    cs = candidates('/repo', pat)
    random.Random(seed).shuffle(cs)
    cs = list(enumerate(cs[:count]))
    n = 7
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=worker, args=((w, cs[w::n], refd, shimd, q),)) for w in range(n)]
    for p in ps:
        p.start()
    live = n
    stat = {}
    while live:
        x = q.get()
        if x is None:
            live -= 1
            continue
        k, m, changed, res, dt = x
        if res is None:
            stat['nobuild'] = stat.get('nobuild', 0) + 1
            continue
        vs = [r[1] for r in res]
        v = 'ne' if 'ne' in vs else 'missing' if 'missing' in vs else 'same' if not changed else 'CRASH' if 'CRASH' in vs else 'unk' if ('unk' in vs or 'undecided' in vs) else 'eq'
        stat[v] = stat.get(v, 0) + 1
        print('%s #%d %s:%d  %s  ->  %s   (%.1fs)' % (v.upper(), k, m[0], m[1] + 1, m[2].strip(), m[3].strip(), dt), flush=True)
        for r in res:
            if (v != 'ne' or r[1] == 'ne') and (r[1] != 'eq' or v == 'eq'):
                print('      ', r[1], r[0][-90:], '%.1f' % r[3], r[2][:260] if v != 'ne' else r[2][:160])
    print(stat)


if __name__ == '__main__':
    main()
