"""Decides one property: every function that carries it is summarised (path-sensitive dataflow over its MIR) and the
summary is compared with the function of the reviewed reference specification.  Exit 0 held, 1 violated, 3 no answer."""
import argparse
import collections
import glob
import json
import os
import re
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

import build
import mir
import reconcile
import scope
import tree

ROOT = build.ROOT


class TimeUp(Exception):
    pass


def alarm(*_):
    raise TimeUp('time')


class Judge:
    """verdicts on functions, with the second looks that separate a changed contract from a changed behaviour"""

    def __init__(self, X, seconds):
        self.X = X
        self.raw = {}
        self.fin = {}
        self.t0 = time.time()
        self.limit = seconds
        self.outer = {}
        self.memo = {}
        for p in X.ref.prog.bodies:
            q = p
            while q in X.ref.prog.bodies and X.ref.prog.bodies[q].kind != 'fn' and '::{' in q:
                q = q[:q.rindex('::{')]
            self.outer[p] = q

    def left(self):
        return self.limit - (time.time() - self.t0)

    def first(self, p):
        r = self.raw.get(p)
        if r is not None:
            return r
        X = self.X
        rb = X.ref.prog.bodies[p]
        cb = X.cur.prog.bodies.get(p)
        if cb is not None and cb.derived and 'fmt::Debug' in p and self.touches(p, X.cur.prog.touched):
            r = {'verdict': 'eq', 'findings': [], 'stat': {}}       # only names of private things
        elif cb is None or cb.kind != 'fn':
            r = {'verdict': 'missing', 'findings': [], 'stat': {}}
        elif tree.signature(cb) != tree.signature(rb):
            r = {'verdict': 'signature', 'findings': [], 'stat': {}}
        elif self.left() < 0:
            r = {'verdict': 'unk', 'why': 'time', 'findings': [], 'stat': {}}
        else:
            r = self.compare(p, X.boundary)
        self.raw[p] = r
        return r

    def touches(self, p, types):
        """whether the function, or anything it is summarised with, handles values of the types"""
        X = self.X
        if not types:
            return False
        k = ('t', types)
        if k not in self.memo:
            r = re.compile('|'.join(r'(?<![\w:])%s(?!\w)' % re.escape(t) for t in types))
            self.memo[k] = {q for T in (X.ref, X.cur) for q, b in T.prog.bodies.items() if r.search(json.dumps(b.locals))}
        seen = {p}
        w = [p]
        while w:
            q = w.pop()
            if q in self.memo[k]:
                return True
            for T in (X.ref, X.cur):
                for c in T.calls.get(q, ()):
                    if c not in seen and c in T.prog.bodies and (c not in X.boundary or '::{' in c):
                        seen.add(c)
                        w.append(c)
        return False

    def inner(self, p):
        """the private functions that are summarised together with it and that both sides have"""
        X = self.X
        out = set()
        for T in (X.ref, X.cur):
            w, seen = [p], {p}
            while w:
                for c in T.calls.get(w.pop(), ()):
                    if c not in seen and c in T.prog.bodies and c not in X.boundary:
                        seen.add(c)
                        if T.prog.bodies[c].kind != 'fn':
                            w.append(c)
                        elif c in X.ref.prog.bodies and c in X.cur.prog.bodies:
                            out.add(c)
                        else:
                            w.append(c)
        return out

    def compare(self, p, boundary):
        X = self.X
        X.opts['seconds'] = max(5, min(60, self.left()))
        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(int(X.opts['seconds']) + 15)
        try:
            r = X.compare(p, p, boundary)
            if r['verdict'] == 'ne' and self.touches(p, X.cur.prog.changed):
                return {'verdict': 'unk', 'why': 'representation of ' + ', '.join(sorted(X.cur.prog.changed)),
                        'findings': [], 'stat': r['stat']}
            return r
        except (TimeUp, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError) as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            return {'verdict': 'unk', 'why': 'internal: %r' % (e,), 'findings': [], 'stat': {}}
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def final(self, p):
        r = self.fin.get(p)
        if r is None:
            r = self.fin[p] = self.settle(p)
        return r

    def callers(self, p):
        return sorted({self.outer[q] for q in self.X.ref.callers.get(p, ())} - {p})

    def settle(self, p):
        r = self.first(p)
        v = r['verdict']
        if v in ('eq', 'unk', 'undecided'):
            return r
        X = self.X
        if v == 'ne':
            # callees whose own contract changed are looked into
            u = [{q for q in x if q in X.ref.prog.bodies and q != p} for x in r['used']]
            odd = {q for q in u[0] | u[1] if self.first(q)['verdict'] in ('ne', 'signature', 'missing')}
            # and so are those that only one of the two calls
            for extra in (set(), u[0] ^ u[1]):
                if not odd | extra or self.left() < 0 or extra and extra <= odd:
                    continue
                r2 = self.compare(p, X.boundary - odd - extra)
                if r2['verdict'] == 'eq':
                    r2['note'] = 'equal with %s looked into' % ', '.join(sorted(odd | extra))
                    return r2
            # what it calls is the same as far as that can be told, and so is what it does with it
            inner = self.inner(p)
            if inner and self.left() > 0 and all(f.how == 'unfolded' for f in r['findings']):
                iv = {q: self.first(q)['verdict'] for q in inner}
                if set(iv.values()) <= {'eq', 'unk'} and 'unk' in iv.values():
                    r2 = self.compare(p, X.boundary | inner)
                    if r2['verdict'] == 'eq':
                        return {'verdict': 'unk', 'findings': [], 'stat': r['stat'],
                                'why': 'equal but for %s' % ', '.join(sorted(q for q in inner if iv[q] == 'unk'))}
            if scope.main_api(p, X.ref.prog.bodies[p]):
                return r
        # a private function: what counts is what its callers make of it
        cs = self.callers(p)
        res = []
        for g in cs:
            if g not in X.cur.prog.bodies or self.left() < 0:
                res.append((g, {'verdict': 'unk', 'findings': [], 'stat': {}}))
                continue
            res.append((g, self.compare(g, X.boundary - {p})))
        vs = {x['verdict'] for _, x in res}
        if v == 'ne':
            if res and vs == {'eq'} and p not in X.ref.byvalue and p not in X.cur.byvalue:
                return {'verdict': 'eq', 'findings': [], 'stat': r['stat'],
                        'note': 'changed, but all callers make the same of it: %s' % ', '.join(cs)}
            return r
        bad = [(g, x) for g, x in res if x['verdict'] == 'ne']
        if bad:
            g, x = bad[0]
            return {'verdict': 'ne', 'findings': x['findings'], 'stat': x['stat'], 'via': g}
        if res and vs == {'eq'}:
            return {'verdict': 'eq', 'findings': [], 'stat': {}, 'note': '%s; same in all callers' % v}
        return {'verdict': 'unk', 'findings': [], 'stat': {}, 'why': v}


def load(quick=True):
    out, sh, cached = build.extract()
    SH = mir.Program.load_dir(sh, 's')
    R = tree.Tree(mir.Program.load_gz(ROOT + '/ref/reference.json.gz', 'r'), SH)
    C = tree.Tree(reconcile.load(out, 'c', R.prog), SH, 1000000)
    voc = set(json.load(open(ROOT + '/ref/vocabulary.json'))['vocabulary'])
    X = tree.Compare(R, C, voc)
    return X, cached


def known(prop):
    out = {}
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) key=(".*?"|\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2).strip('"')] = m.group(3)
    return out


def where(X, p):
    b = X.cur.prog.bodies.get(p) or X.ref.prog.bodies.get(p)
    return b.span if b is not None else '?'


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.viol = []
        self.cov = collections.OrderedDict()
        self.notes = []
        self.floor = None
        self.decided = set()        # functions a rule has decided without the reference

    def violation(self, key, fn, at, text, detail):
        if key not in [v['key'] for v in self.viol]:
            self.viol.append({'key': key, 'function': fn, 'at': at, 'what': text, 'detail': detail})

    def both(self, prop, *a):
        """a violation of the named property found by a rule that decides several"""
        if prop == self.prop:
            self.violation(*a)

    def finish(self, assumptions):
        kn = known(self.prop)
        bad = 0
        d = os.path.join(ROOT, '.build', 'replay')
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(self.viol):
            if v['key'] in kn:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, kn[v['key']]))
                continue
            bad += 1
            f = os.path.join(d, '%s-%d.json' % (self.prop, bad))
            with open(f, 'w') as h:
                json.dump(v, h, indent=1)
            print('%s: %s\n    %s' % (v['at'], v['function'], v['what'][:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, f))
        e = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': self.cov,
             'assumptions': assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': bad}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        tmp = os.path.join(ROOT, 'evidence', '.%s.%d' % (self.prop, os.getpid()))
        with open(tmp, 'w') as h:
            json.dump(e, h, indent=1)
        os.replace(tmp, os.path.join(ROOT, 'evidence', self.prop + '.json'))
        for n in self.notes:
            print('note:', n[:300])
        print('%s: %s (%.1fs)' % (self.prop, 'VIOLATED' if bad else 'held', time.time() - self.t0))
        return 1 if bad else 0


ASSUME = [
    'the reference specification in /verif/ref was reviewed against the property; rustc lowers source to MIR correctly',
    'library functions (std, regex, ordered_collections) are uninterpreted or modelled by their documentation',
    'comparisons that neither agree nor disagree definitely are counted as unknown and do not raise an alarm',
]


def reference_rule(prop, X, J, rep, fns):
    n = collections.Counter()
    und = []
    stat = collections.Counter()
    for p in fns:
        if p in rep.decided:
            n['rule'] += 1
            continue
        r = J.final(p)
        v = r['verdict']
        if v == 'ne' and not any(scope.concerns(prop, r.get('via', p), f) for f in r['findings']):
            v = 'other'         # differs in a part that is another property's matter
        n[v] += 1
        for k, x in r['stat'].items():
            stat[k] += x
        if r.get('note'):
            rep.notes.append('%s: %s' % (p, r['note']))
        if v == 'ne':
            for f in [f for f in r['findings'] if scope.concerns(prop, r.get('via', p), f)][:3]:
                rep.violation('%s: %s' % (scope.canon(p), f.what), p, where(X, r.get('via', p)),
                              '%s %s: %s' % (f.how, f.what, f.detail), {'at': str(f.where), 'detail': f.detail[:4000]})
        elif v not in ('eq', 'other'):
            und.append('%s (%s)' % (p, r.get('why', v)))
    rep.cov['functions'] = len(fns)
    rep.cov['renamed'] = J.X.cur.prog.renamed[:20]
    rep.cov['representation_changed'] = sorted(J.X.cur.prog.changed)
    rep.cov['functions_equal'] = n['eq']
    rep.cov['functions_decided_by_rule'] = n['rule']
    rep.cov['functions_different'] = n['ne']
    rep.cov['functions_undecided'] = len(und)
    rep.cov['undecided'] = und[:40]
    rep.cov['state_pairs'] = stat['pairs']
    rep.cov['path_rows'] = stat['rows']
    rep.cov['values_compared'] = stat['values']
    rep.cov['comparisons_unknown'] = stat['unknown']
    rep.cov['loops_unfolded'] = stat['unfolded']
    rep.cov['sample'] = [{'function': p, 'at': where(X, p), 'verdict': J.final(p)['verdict'],
                          'stat': J.final(p)['stat']} for p in [q for q in fns if q not in rep.decided][:4]]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rep = Report(a.property, a.tier, seed)
    try:
        X, cached = load()
    except build.BuildError as e:
        print(e)
        print('%s: no answer: the tree could not be extracted' % a.property)
        return 3
    if len(X.cur.prog.bodies) < len(X.ref.prog.bodies) // 2:
        print('%s: no answer: the extract has only %d functions' % (a.property, len(X.cur.prog.bodies)))
        return 3
    X.opts['unfold_budget'] = 16000 if a.tier == 'quick' else 64000
    J = Judge(X, 420 if a.tier == 'quick' else 780)
    fns = scope.functions(a.property, X)
    rep.cov['explanation'] = (
        'every function carrying the property is summarised from its MIR (all paths, loops cut at their headers, '
        'calls into local loops and recursion and library calls uninterpreted) and compared, path by path, with the '
        'reviewed reference: results, writes through references, I/O order, and callee arguments must agree')
    import rules
    for f in rules.RULES.get(a.property, ()):
        f(X, J, rep)
    reference_rule(a.property, X, J, rep, fns)
    floor = json.load(open(os.path.join(ROOT, 'ref', 'floors.json'))).get(a.property, 1)
    if rep.cov['functions'] < floor:
        print('%s: no answer: only %d functions in scope, %d expected' % (a.property, rep.cov['functions'], floor))
        return 3
    if rep.floor:
        print('%s: no answer: %s' % (a.property, rep.floor))
        return 3
    return rep.finish(ASSUME)


def guarded():
    try:
        return main()
    except Exception:
        import traceback
        traceback.print_exc()
        print('no answer: internal error')
        return 3


if __name__ == '__main__':
    sys.exit(guarded())
