"""A source tree under analysis: its bodies, call graph and effect classes, and the comparison of
one function of it with the function of the reference specification."""
import collections
import hashlib
import json
import re
import time

import compare
from compare import Ctx, Finding, fn_names
from interp import Explorer, Undecided
from mir import Program, strip_generics, key_of
from terms import T, Term

WHERE = re.compile(r'"[\w/\.\-]+\.rs:\d+"')
INTERIOR = {'RefCell::borrow_mut', 'RefCell::replace', 'RefCell::try_borrow_mut', 'Cell::set', 'Cell::replace',
            'Cell::take', 'RefCell::take', 'RefCell::swap'}
IO = {'std::io::', 'std::fs::', 'std::process::', 'std::env::', 'std::time::'}


def body_callees(b):
    """(resolved local or foreign callee, operand facts) of every call and function constant"""
    for blk in b.blocks:
        if blk.get('u'):
            continue
        t = blk['t']
        if t[0] == 'call':
            yield t[1], t[2]
        for s in blk['s']:
            for o in fn_consts(s[1]):
                yield o, None
        if t[0] == 'call':
            for o in t[2]:
                if isinstance(o, dict) and o.get('c') == 'fn':
                    yield o, None


def fn_consts(x):
    if isinstance(x, dict):
        if x.get('c') == 'fn':
            yield x
    elif isinstance(x, list):
        for y in x:
            yield from fn_consts(y)


class Tree:
    def __init__(self, prog, shims, idbase=0):
        self.prog = prog
        self.shims = shims
        self.idbase = idbase
        for k, v in shims.adts.items():
            prog.adts.setdefault(k, v)
        self.calls = {}
        self.callers = collections.defaultdict(set)
        self.byvalue = set()
        self.closures = {}
        for p, b in prog.bodies.items():
            s = set()
            for o, a in body_callees(b):
                if o.get('c') == 'fn':
                    q = o.get('res') or o.get('fn')
                    s.add(q)
                    if a is None:
                        self.byvalue.add(q)
                    if o.get('fn') != q and o.get('fn'):
                        s.add(o['fn'])
            for q in closures_of(b):
                s.add(q)
            self.calls[p] = s
        for p, s in self.calls.items():
            for q in s:
                if q in prog.bodies:
                    self.callers[q].add(p)
        self._reach = {}
        self._hash = None
        self.interior = self.closure_of(lambda b: any(
            o.get('c') == 'fn' and key_of(o['fn'], o['trait'], o['name']) in INTERIOR for o, _ in body_callees(b)))
        self.effects = self.arg_effects()
        self.io = self.closure_of(lambda b: any(
            o.get('c') == 'fn' and any(i in (o.get('res') or o.get('fn')) or i in o.get('fn', '') for i in IO)
            for o, _ in body_callees(b)))

    def hashes(self):
        if self._hash is None:
            self._hash = {p: hashlib.sha1(WHERE.sub('""', json.dumps(b.j, sort_keys=True)).encode()).hexdigest()
                          for p, b in self.prog.bodies.items()}
        return self._hash

    def closure_of(self, pred):
        base = {p for p, b in self.prog.bodies.items() if pred(b)}
        work = list(base)
        while work:
            q = work.pop()
            for p in self.callers.get(q, ()):
                if p not in base:
                    base.add(p)
                    work.append(p)
        return base

    def arg_effects(self):
        """interior-mutating function -> the arguments through which it may do so"""
        eff = {p: frozenset() for p in self.interior}
        flow = {p: arg_flow(self.prog.bodies[p]) for p in self.interior}
        ch = True
        while ch:
            ch = False
            for p in sorted(self.interior):
                b = self.prog.bodies[p]
                taint, clos = flow[p]
                s = set(eff[p])
                for o, args in body_callees(b):
                    if args is None or o.get('c') != 'fn':
                        continue
                    q = o.get('res') or o.get('fn')
                    if key_of(o['fn'], o['trait'], o['name']) in INTERIOR:
                        idx = (0,)
                    else:
                        idx = eff.get(q, ())
                    for i in idx:
                        if i < len(args) and 'p' in args[i]:
                            s |= taint[args[i]['p'][0]]
                for l, q in clos:
                    if eff.get(q):
                        s |= taint[l]
                if s != eff[p]:
                    eff[p] = frozenset(s)
                    ch = True
        return eff

    def loopy(self, p):
        b = self.prog.bodies[p]
        b.analyse()
        return bool(b.headers)

    def recursive(self, p):
        r = self._reach.get(p)
        if r is None:
            seen = set()
            work = [p]
            while work:
                q = work.pop()
                for c in self.calls.get(q, ()):
                    if c in self.prog.bodies and c not in seen:
                        seen.add(c)
                        work.append(c)
            r = self._reach[p] = p in seen
        return r


def arg_flow(b):
    """local -> arguments its value may be (part of), and the closures made"""
    n = len(b.locals)
    taint = [set() for _ in range(n)]
    for i in range(b.nargs):
        taint[i + 1].add(i)
    edges = set()
    clos = []

    def places(x):
        if isinstance(x, dict):
            if 'p' in x and 'c' not in x and isinstance(x['p'], list):
                yield x['p'][0]
        elif isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                yield x[0]
            else:
                for y in x:
                    yield from places(y)
    for i, t in enumerate(b.locals):
        if t['k'] == 'closure':
            clos.append((i, t['p']))
    for blk in b.blocks:
        if blk.get('u'):
            continue
        for d, rv in [(s[0], s[1]) for s in blk['s']]:
            for p in places(rv):
                edges.add((p, d[0]))
                if rv[0] in ('ref', 'reborrow'):
                    edges.add((d[0], p))
        t = blk['t']
        if t[0] == 'call':
            ps = [o['p'][0] for o in t[2] if 'p' in o]
            k = b.locals[t[3][0]]['k']
            for p in ps:
                if k not in ('int', 'uint', 'bool', 'char'):
                    edges.add((p, t[3][0]))
                for q in ps:
                    if p != q and b.locals[q]['k'] == 'ref' and b.locals[q].get('mut'):
                        edges.add((p, q))
    ch = True
    while ch:
        ch = False
        for x, y in edges:
            if not taint[x] <= taint[y]:
                taint[y] |= taint[x]
                ch = True
    return taint, clos


def settled(t, seen=None):
    """no part of t is something only the comparison it comes from knows about"""
    seen = set() if seen is None else seen
    w = [t]
    while w:
        x = w.pop()
        if isinstance(x, (tuple, list)):
            w.extend(x)
        elif isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ('mu', 'K', 'cyc', 'opaque', 'ref', 'glob'):
                return False
            w.extend(x.args)
    return True


def closures_of(b):
    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'closure' and 'p' in x:
                yield x['p']
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, list):
            for y in x:
                yield from walk(y)
    for l in b.locals:
        yield from walk(l)


def adt_sets(*progs):
    """variant names of an enum -> (enum, its variants without fields); None where two enums share them"""
    m = {}
    for p in progs:
        for path, a in p.adts.items():
            if a['kind'] != 'enum':
                continue
            k = tuple(v['name'] for v in a['variants'])
            v = (path, frozenset(v['name'] for v in a['variants'] if not v['fields']))
            if k in m and m[k] != v:
                m[k] = None
            else:
                m[k] = v
    return {k: v for k, v in m.items() if v is not None}


def signature(b):
    return [strip_sig(b.locals[i]) for i in range(b.nargs + 1)]


def strip_sig(t):
    return t


def vocabulary(root, acc):
    seen = set()
    st = [root]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        for r in n.rows:
            for l in r.lits:
                acc |= fn_names(l)
            if r.val is not None:
                acc |= fn_names(r.val)
            for v in (r.eff or {}).values():
                acc |= fn_names(v)
            if r.node is not None:
                st.append(r.node)
                for v in r.st.mem.values():
                    acc |= fn_names(v)
    return acc


class Compare:
    def __init__(self, ref, cur, vocab=None, opts=None):
        self.ref = ref
        self.cur = cur
        self.vocab = vocab if vocab is not None else set()
        self.opts = opts or {}
        self.adts = adt_sets(ref.prog, cur.prog)
        self.memo = {}
        self.sums = {}
        self.closmemo = {}
        self.boundary = self.base_boundary()
        if ref is not cur:
            cur.prog.altered = self.altered_closures()

    def base_boundary(self):
        out = set()
        for p, b in self.ref.prog.bodies.items():
            if b.kind != 'fn':
                continue
            if self.ref.loopy(p) or self.ref.recursive(p):
                c = self.cur.prog.bodies.get(p)
                if c is not None and signature(c) == signature(b):
                    out.add(p)
        # a loop that the current tree moved into a helper of its own stays visible
        return frozenset(out)

    def altered_closures(self):
        """closures of the current tree whose code (helpers included) differs from the reference"""
        out = set()
        hr, hc = self.ref.hashes(), self.cur.hashes()
        for p, b in self.cur.prog.bodies.items():
            if b.kind != 'closure':
                continue
            seen = {p}
            w = [p]
            while w:
                q = w.pop()
                if hr.get(q) != hc.get(q):
                    out.add(p)
                    break
                for x in self.cur.calls.get(q, ()):
                    if x in self.cur.prog.bodies and x not in seen and x not in self.boundary:
                        seen.add(x)
                        w.append(x)
        return frozenset(out)

    def summary(self, tree, path, boundary, turns=True, env=None):
        key = (tree, path, boundary, turns, env)
        r = self.sums.get(key)
        if r is None:
            t = time.time()
            ex = Explorer(tree.prog, tree.shims, boundary=boundary - {path}, idbase=tree.idbase,
                          effects_of=lambda p: tree.effects.get(p, ()), io_of=lambda p: p in tree.io)
            ex.turns = turns
            ex.keep = self.vocab
            try:
                b = tree.prog.bodies[path]
                args = None
                if env is not None:
                    # parameters of a closure are not those of the function that makes it
                    args = [env] + [T('arg', 100 + i) for i in range(1, b.nargs)]
                root = ex.run(b, args)
                r = (ex, root, None, time.time() - t)
            except Undecided as e:
                r = (ex, None, str(e) or 'undecided', time.time() - t)
            except RecursionError:
                r = (ex, None, 'recursion', time.time() - t)
            self.sums[key] = r
        return r

    def closure_eq(self, pr, pc, er=None, ec=None):
        """are two closures equal: whatever they capture, or (er, ec given) with what they capture"""
        k = (pr, pc, er, ec)
        if k not in self.closmemo:
            self.closmemo[k] = compare.UNK
            if pr in self.ref.prog.bodies and pc in self.cur.prog.bodies:
                if er is not None:
                    br, bc = self.ref.prog.bodies[pr], self.cur.prog.bodies[pc]
                    if br.nargs != bc.nargs or any(b.locals[1]['k'] == 'ref' and b.locals[1].get('mut') for b in (br, bc)):
                        return compare.UNK
                    r = self.compare(pr, pc, self.boundary, (er, ec))
                    v = {'eq': compare.EQ, 'ne': compare.NE}.get(r['verdict'], compare.UNK)
                    if v == compare.NE and not (settled(er) and settled(ec)):
                        v = compare.UNK
                    self.closmemo[k] = v
                    return v
                r = self.compare(pr, pc, self.boundary)
                self.closmemo[k] = {'eq': compare.EQ, 'ne': compare.NE}.get(r['verdict'], compare.UNK)
        return self.closmemo[k]

    def compare(self, pr, pc, boundary, envs=(None, None)):
        exr, R, er, tr = self.summary(self.ref, pr, boundary, True, envs[0])
        exc, C, ec, tc = self.summary(self.cur, pc, boundary, True, envs[1])
        if (er or ec) and (exr.turned or exc.turned):
            # taking the turns over spelled-out elements one by one was too much
            exr, R, er, tr = self.summary(self.ref, pr, boundary, False, envs[0])
            exc, C, ec, tc = self.summary(self.cur, pc, boundary, False, envs[1])
        out = {'ref': pr, 'cur': pc, 'time': [tr, tc], 'findings': [], 'stat': {}}
        if er or ec:
            out['verdict'] = 'undecided'
            out['why'] = er or ec
            return out
        opts = dict(self.opts)
        opts['closures'] = self.closure_eq
        ctx = Ctx(pr, exr, exc, self.vocab, self.adts, opts)
        t = time.time()
        fs = ctx.run(R, C)
        out['time'].append(time.time() - t)
        out['stat'] = ctx.stat
        out['findings'] = fs
        out['over'] = ctx.over
        out['used'] = (exr.used_boundary, exc.used_boundary)
        out['verdict'] = 'ne' if fs else ('unk' if ctx.over or ctx.stat['unknown'] else 'eq')
        return out
