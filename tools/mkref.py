#!/usr/bin/env python3
"""Writes /verif/ref: the reviewed reference specification (MIR extract of the reviewed tree) and its vocabulary.

Run by hand on a tree that has been reviewed against properties.jsonl; the checks never run it."""
import glob, gzip, json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.setrecursionlimit(20000)
import build, mir, tree

def main():
    out, sh, _ = build.extract()
    js = []
    for f in sorted(glob.glob(out + '/*.json')):
        j = json.load(open(f))
        if j['crate'] != 'build_script_build':
            js.append(j)
    os.makedirs(ROOT + '/ref', exist_ok=True)
    with open(ROOT + '/ref/reference.json.gz', 'wb') as h:
        with gzip.GzipFile(fileobj=h, mode='wb', mtime=0, filename='') as g:
            g.write(json.dumps(js, separators=(',', ':'), sort_keys=True).encode())
    import laps
    arms = {}
    for c, f in (('lalr1_lib', 'parser.laps'), ('alalr1_lib', 'parser.alaps')):
        sp = laps.read_spec('%s/%s/src/%s' % (build.REPO, c, f))
        arms[c] = {str(q.idx): [q.lhs] + list(q.rhs) for q in sp.prods}
    json.dump(arms, open(ROOT + '/ref/arms.json', 'w'), indent=0)
    SH = mir.Program.load_dir(sh, 's')
    R = tree.Tree(mir.Program.load_gz(ROOT + '/ref/reference.json.gz', 'r'), SH)
    X = tree.Compare(R, R)
    voc = set()
    n = 0
    for p, b in sorted(R.prog.bodies.items()):
        if b.kind != 'fn':
            continue
        ex, root, err, t = X.summary(R, p, X.boundary)
        if root is None:
            print('undecided', p, err)
            continue
        tree.vocabulary(root, voc)
        n += 1
    head = subprocess.run(['git', '-C', build.REPO, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    json.dump({'commit': head, 'functions': n, 'vocabulary': sorted(map(str, voc))}, open(ROOT + '/ref/vocabulary.json', 'w'), indent=0)
    print(n, 'functions', len(voc), 'names')

main()
