"""Comparison of two function summaries (reference specification against current source).

Both summaries are transition systems over value terms whose cut points are loop headers.
They are related pair by pair of cut points: what the loops carry is matched, every pair of
rows whose conditions can hold together has to do the same, and the argument is closed
coinductively over the back edges.  Where no matching of the carried values works, both
sides are unfolded a bounded number of turns from the entry of the loop instead.
"""
import itertools
import json
import re
import time

import feas
from interp import Explorer, Undecided, has_ref
from terms import *

EQ, NE, UNK = 'EQ', 'NE', 'UNK'

# operations whose meaning is not the identity on anything: they count as known even when the
# reference does not use them
KNOWN_FUNCS = re.compile(
    r'::(trim\w*|to_lowercase|to_uppercase|to_ascii_\w+case|replace\w*|saturating_\w+|wrapping_\w+|repeat|sort\w*|dedup\w*|'
    r'truncate|reverse|rev|max|min|abs|pow|escape_\w+|is_ascii\w*|is_alpha\w*|is_numeric|is_char_boundary|is_uppercase|'
    r'is_lowercase|is_whitespace|is_digit)$')

SETS = ('sadd', 'union', 'setof', 'sinter', 'sdiff')
WHOLE = ('union', 'setof', 'sinter', 'sdiff', 'sdel')
FACTS = ('bool', 'ge0', 'eq0', 'not', 'and', 'or', 'has', 'isvar')
BULK = ('union', 'rev', 'wins', 'sorted', 'elems', 'pairs', 'keys', 'vals', 'range', 'inter', 'minus', 'chars', 'charidx')


class Finding:
    def __init__(self, fn, what, detail, where, how):
        self.fn = fn
        self.what = what
        self.detail = detail
        self.where = where
        self.how = how

    def key(self):
        return '%s: %s' % (self.fn, self.what)


def fn_names(t, memo={}):
    """names of the uninterpreted functions in a term"""
    r = memo.get(t)
    if r is None:
        s = set()
        if t.op in ('call', 'app'):
            s.add(str(t.args[0]))
        elif t.op in ('opaque', 'callptr'):
            s.add(t.op + ':' + str(t.args[0]))
        elif t.op == 'fn':
            try:
                j = json.loads(t.args[0])
                s.add('fn:' + str(j.get('res') or j.get('fn')))
            except ValueError:
                pass
        elif t.op in ('agg',) and isinstance(t.args[0], str) and t.args[0].startswith('closure:'):
            s.add('closure')
        _fn_args(t.args, s)
        r = memo[t] = frozenset(s)
    return r


def _fn_args(a, s):
    for x in a:
        if isinstance(x, Term):
            s |= fn_names(x)
        elif isinstance(x, tuple):
            _fn_args(x, s)


def loop_syms(t, memo={}):
    r = memo.get(t)
    if r is None:
        s = set()
        if t.op in ('mu', 'K', 'unk'):
            s.add(t)
        _ls_args(t.args, s)
        r = memo[t] = frozenset(s)
    return r


def _ls_args(a, s):
    for x in a:
        if isinstance(x, Term):
            s |= loop_syms(x)
        elif isinstance(x, tuple):
            _ls_args(x, s)


class Norm:
    """normal forms under the facts of one path"""

    def __init__(self, pc, adts):
        self.pc = pc
        self.memo = {}
        # facts that only the extension knows do not change terms that they are not about
        self.up = pc.up.nm if pc.up is not None else None
        self.dm = pc.dm
        up = pc.up
        if up is None:
            m = {}
            ls, bs, vs = pc.l.items(), pc.b.items(), pc.v.items()
        else:
            m = self.up.m
            ls = ((k, v) for k, v in pc.l.items() if up.l.get(k) is not v) if pc.l is not up.l else ()
            bs = ((k, v) for k, v in pc.b.items() if up.b.get(k) is not v) if pc.b is not up.b else ()
            vs = ((k, v) for k, v in pc.v.items() if up.v.get(k) is not v) if pc.v is not up.v else ()
        n = {}
        for vec, (lo, hi, ex) in ls:
            if lo is None or lo != hi:
                continue
            if len(vec) == 1:
                k, c = vec[0]
                if c == 1:
                    n[k] = I(lo)
            elif len(vec) == 2:
                (a, ca), (b, cb) = vec
                if abs(ca) == 1 and abs(cb) == 1:
                    if a.uid < b.uid:
                        (a, ca), (b, cb) = (b, cb), (a, ca)
                    # ca*a + cb*b = lo  ->  a = ca*(lo - cb*b)
                    if a.op not in ('int',) and a not in m and a not in n:
                        n[a] = add(I(ca * lo), scale(b, -ca * cb))
        for b, v in bs:
            if b.op == 'eq' and v:
                x, y = b.args
                if x.op in ('str', 'char', 'int', 'agg'):
                    x, y = y, x
                if y.op in ('str', 'char', 'int') or (y.op == 'agg' and y.uid < x.uid):
                    n[x] = y
                elif x.op not in ('agg',):
                    if x.uid < y.uid:
                        x, y = y, x
                    if x.op not in ('agg', 'str', 'char', 'int') and x not in m:
                        n.setdefault(x, y)
            elif b.op in ('mu', 'fld', 'idx', 'arg', 'call', 'app', 'out') and b not in m:
                n.setdefault(b, B(v))
        for x, vs_ in vs:
            if len(vs_) == 1:
                v = next(iter(vs_))
                allv = pc_allv.get(x)
                if allv is not None:
                    ad = adts.get(allv)
                    if ad is not None and v in ad[1]:
                        n[x] = T('agg', ad[0], v, ())
        if n:
            m = dict(m)
            m.update(n)
        self.m = m

    def __call__(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        if self.up is not None and not mask(t) & self.dm:
            r = self.up(t)
            if not mask(r) & self.dm:
                self.memo[t] = r
                return r
        x = self.m.get(t)
        if x is not None:
            self.memo[t] = t      # cycles
            r = self(x)
        else:
            if t.op == 'out' and t.args[1].op == 'call':
                # what a call leaves behind is not told by what it returns
                c = t.args[1]
                a = map_args(c.args, self)
                a = t.args if a is c.args else (t.args[0], rebuild('call', a))
            else:
                a = map_args(t.args, self)
            r = t if a is t.args else rebuild(t.op, a)
            if r is not t and r in self.m and self.m[r] is not t:
                self.memo[t] = r
                r = self(self.m[r])
            o = r.op
            if o in ('not', 'and', 'or', 'ge0', 'eq0', 'isvar', 'eq', 'has'):
                d = self.pc.decide(r)
                if d is not None:
                    r = B(d)
            elif o == 'agg':
                r = self.contract(r)
            elif o == 'with':
                # an update that is known to change nothing
                base, fs = r.args
                if base.op != 'with':
                    keep = tuple((n, v) for n, v in fs if self(fld(base, n)) is not v)
                    if len(keep) < len(fs):
                        r = T('with', base, keep) if keep else base
            elif o == 'seq':
                r = self.expand(r)
            elif o == 'idx' and r.args[0].op == 'seq':
                r = self.part(r)
            elif o == 'setof':
                if r.args[0].op == 'elems':
                    self.memo[t] = r.args[0].args[0]
                    return r.args[0].args[0]
                q = self.expand(T('seq', r.args[0])) if r.args[0].op != 'seq' else r.args[0]
                if q is EMPTYSEQ:
                    r = EMPTYSET
                elif q.op == 'seq' and q is not r.args[0]:
                    r = T('setof', q)
            elif o in ('keys', 'vals', 'pairs', 'elems') and self.pc.decide(eq0(length(r))) is True:
                r = EMPTYSEQ
            elif o == 'union':
                q = [x for x in r.args if not self.empty(x)]
                if len(q) < len(r.args):
                    r = union(*q)
            elif o == 'sinter':
                if any(self.empty(x) for x in r.args):
                    r = EMPTYSET
            elif o == 'sdiff':
                r = EMPTYSET if self.empty(r.args[0]) else r.args[0] if self.empty(r.args[1]) else r
        self.memo[t] = r
        return r

    def empty(self, s):
        return s.op in ('emptyset', 'emptymap') or self.pc.decide(eq0(length(s))) is True

    def contract(self, r):
        adt, v, fs = r.args
        if v is None or not fs:
            return r
        f0 = fs[0][1]
        if f0.op == 'fld' and f0.args[1] == v + '.' + fs[0][0]:
            b = f0.args[0]
            if all(x.op == 'fld' and x.args[0] is b and x.args[1] == v + '.' + n for n, x in fs):
                if self.pc.v.get(unwith(b)) == frozenset((v,)):
                    return b
        return r

    def part(self, r):
        """the element of the part of a concatenation the index is known to fall into"""
        s, i = r.args
        for p in s.args:
            n = I(len(p.args)) if p.op == 'el' else length(p)
            d = self.pc.decide(ge0(sub(sub(n, i), I(1))))
            if d is True:
                x = index(T('seq', p), i) if p.op == 'el' else index(p, i)
                return x if x is r else self(x)
            if d is not False:
                return r
            i = sub(i, n)
        return r

    def expand(self, r):
        parts = []
        ch = False
        for p in r.args:
            if p.op != 'el':
                n = length(p)
                lo, hi, _ = self.pc.lin_bounds(n)
                if lo is not None and lo == hi and lo <= 4:
                    parts.append(T('el', *[index(p, I(i)) for i in range(lo)]))
                    ch = True
                    continue
            parts.append(p)
        return seqcat(*parts) if ch else r


# which enum a variant test was about (variants -> (adt, fieldless variants)); filled while reading programs
pc_allv = {}
_orig_assume = PC.assume


def note_allv(b):
    if b.op == 'isvar':
        pc_allv[b.args[0]] = b.args[2]
    elif b.op in ('not', 'and', 'or'):
        for x in b.args:
            note_allv(x)


def shape(t):
    """what two terms for the same thing have in common"""
    if t.op == 'fld':
        return ('fld', t.args[1])
    if t.op in ('call', 'app'):
        return (t.op, str(t.args[0]))
    return (t.op,)


def quick(lits):
    """what a cheap contradiction test needs to know of a conjunction"""
    pos = set(lits)
    ng = {neg(l) for l in lits}
    eqs = {}
    for l in lits:
        if l.op == 'eq0':
            c, d = lin_of(l.args[0])
            if len(d) == 1:
                (k, f), = d.items()
                if abs(f) == 1:
                    eqs[k] = -c * f
        elif l.op == 'isvar':
            o = eqs.get(l.args[0])
            eqs[l.args[0]] = l.args[1] if o is None else tuple(x for x in o if x in l.args[1])
        elif l.op == 'not' and l.args[0].op == 'isvar':
            t, vs, al = l.args[0].args
            o = eqs.get(t, al)
            eqs[t] = tuple(x for x in o if x not in vs)
    return pos, ng, eqs


def clash(a, b):
    if not a[0].isdisjoint(b[1]):
        return True
    ea, eb = a[2], b[2]
    if len(eb) < len(ea):
        ea, eb = eb, ea
    for k, v in ea.items():
        w = eb.get(k)
        if w is None:
            continue
        if type(w) is tuple and type(v) is tuple:
            if not any(x in w for x in v):
                return True
        elif type(w) is type(v) and w != v:
            return True
    return False


class Active:
    __slots__ = ('R', 'C', 'm', 'eff', 'lmap', 'taint', 'pc', 'er', 'ec')


class Budget(Exception):
    pass


class Ctx:
    """comparison of one function"""

    def __init__(self, fn, ex_r, ex_c, vocab, adts, opts=None):
        self.fn = fn
        self.exr = ex_r
        self.exc = ex_c
        self.ewmemo = None
        self.vocab = vocab
        self.adts = adts
        self.opts = opts or {}
        self.findings = []
        self.taint = set()
        self.stat = {'pairs': 0, 'rows': 0, 'values': 0, 'unknown': 0, 'unfolded': 0}
        self.unkmemo = {}
        self.forcedmemo = {}
        self.aliasmemo = {}
        self.factmemo = {}
        self.trial = 0
        self.used = 0
        self.budget = self.opts.get('budget', 60000)
        self.deadline = time.time() + self.opts.get('seconds', 60)
        self.closures = self.opts.get('closures')

    # -------------------------------------------------------- terms
    def norm(self, pc):
        n = pc.nm
        if n is None:
            todo = []
            q = pc
            while q is not None and q.nm is None:
                todo.append(q)
                q = q.up
            for q in reversed(todo):
                n = q.nm = Norm(q, self.adts)
        return n

    def unknown(self, t):
        """mentions something the specification vocabulary does not have, or an unmatched loop value"""
        for f in fn_names(t):
            if f not in self.vocab and not KNOWN_FUNCS.search(f) and f not in self.ownnames():
                return True
        if self.taint and (loop_syms(t) & self.taint):
            return True
        return False

    own = None

    def ownnames(self):
        """the names the specification of this very function uses"""
        if self.own is None:
            self.own = set()
            for n in self.exr.nodes:
                for r in n.rows:
                    for l in r.lits:
                        self.own |= fn_names(l)
        return self.own

    def tainted(self, t):
        return bool(self.taint and (loop_syms(t) & self.taint))

    def eq3(self, a, b, pc):
        if a is b:
            return EQ
        n = self.norm(pc)
        a, b = n(a), n(b)
        r = self.eqt(a, b, pc, 0)
        return r

    def eqt(self, a, b, pc, d):
        if a is b:
            return EQ
        if d > 60:
            return UNK
        ao, bo = a.op, b.op
        if ao == 'agg' and bo == 'agg':
            if a.args[0] == b.args[0]:
                if a.args[1] != b.args[1]:
                    return NE
                fa, fb = dict(a.args[2]), dict(b.args[2])
                if set(fa) == set(fb):
                    return self.conj([(fa[n], fb[n]) for n in sorted(fa)], pc, d)
            if str(a.args[0]).startswith('closure:') and str(b.args[0]).startswith('closure:'):
                if self.closures is None:
                    return UNK
                if len(a.args[2]) == len(b.args[2]):
                    r = self.conj([(x[1], y[1]) for x, y in zip(a.args[2], b.args[2])], pc, d)
                    if r == EQ:
                        r = self.closures(a.args[0][8:].lstrip('~'), b.args[0][8:].lstrip('~'))
                        if r != UNK:
                            return r
                return self.closures(a.args[0][8:].lstrip('~'), b.args[0][8:].lstrip('~'), a, b)
        if ao == 'agg' or bo == 'agg':
            x, y = (a, b) if ao == 'agg' else (b, a)
            v = x.args[1]
            if v is not None and y.op != 'agg':
                vs = pc.v.get(unwith(y))
                if vs is not None and v not in vs:
                    return NE
                if vs == frozenset((v,)):
                    return self.conj([(f, fld(y, v + '.' + nm)) for nm, f in x.args[2]], pc, d)
            elif v is None and y.op in ('with', 'fld', 'arg', 'mu', 'idx', 'mget', 'out', 'call') and '::' in str(x.args[0]):
                return self.conj([(f, fld(y, nm)) for nm, f in x.args[2]], pc, d)
        if (ao == 'bool') != (bo == 'bool'):
            x, y = (a, b) if ao == 'bool' else (b, a)
            k = pc.decide(y)
            if k is not None:
                return EQ if k == x.args[0] else NE
        if ao == 'with' or bo == 'with':
            ba = a.args[0] if ao == 'with' else a
            bb = b.args[0] if bo == 'with' else b
            names = set()
            if ao == 'with':
                names |= {n for n, _ in a.args[1]}
            if bo == 'with':
                names |= {n for n, _ in b.args[1]}
            if ba is bb or self.eqt(ba, bb, pc, d + 1) == EQ:
                return self.conj([(fld(a, n), fld(b, n)) for n in sorted(names)], pc, d)
        if (ao == 'mset') != (bo == 'mset'):
            # writing what is there already
            x, y = (a, b) if ao == 'mset' else (b, a)
            g = mget(x.args[0], x.args[1])
            if pc.v.get(unwith(g)) == frozenset(('Some',)) and self.eqt(x.args[0], y, pc, d + 1) == EQ:
                return self.eqt(x.args[2], fld(g, 'Some.0'), pc, d + 1)
        if ao in ('lin', 'int') or bo in ('lin', 'int'):
            if ao in ('str', 'seq', 'cat', 'agg', 'bool') or bo in ('str', 'seq', 'cat', 'agg', 'bool'):
                return self.verdict(a, b)
            df = sub(a, b)
            z = eq0(df)
            r = pc.decide(z)
            if r is None:
                # pair up equal-but-for-facts terms
                r2 = pc.decide(self.norm(pc)(z))
                r = r2
            if r is True:
                return EQ
            if self.unknown(df):
                return UNK
            if r is None and self.forced(z, pc):
                return EQ
            if r is None and d < 12 and not self.trial:
                es = self.alias(df, pc, d)
                if es and self.forced(z, pc, es):
                    return EQ
            return NE
        if ao in ('seq',) or bo in ('seq',):
            return self.eqseq(a, b, pc, d)
        if ao == 'cat' or bo == 'cat':
            return self.eqcat(a, b, pc, d)
        if ao in SETS or bo in SETS:
            fa, fb = self.setform(a, pc), self.setform(b, pc)
            if fa == fb:
                return EQ
            da, db = fa - fb, fb - fa
            bases = [x[1] for x in fa & fb if x[0] == 'b']
            if any(x[0] == 'b' for x in da | db):
                da, db = self.setparts(da, pc), self.setparts(db, pc)
                fa, fb = (fa & fb) | da, (fa & fb) | db
                da, db = fa - fb, fb - fa
                if not da and not db:
                    return EQ
            whole = {(a, b), (b, a)}

            def parts(x, y):
                if (x, y) not in whole:
                    return self.eqt(x, y, pc, d + 1)
                pr = []     # two sets that do not decompose further: by their own parts
                if x.op == y.op and self.zipargs(x.args, y.args, pr):
                    return self.conj(pr, pc, d)
                return self.verdict(x, y)
            if len(da) * len(db) <= 16:
                ea = {x for x in da if any(x[0] == y[0] and parts(x[1], y[1]) == EQ for y in fb)}
                eb = {y for y in db if any(x[0] == y[0] and parts(x[1], y[1]) == EQ for x in fa)}
                da, db = da - ea, db - eb
                if not da and not db:
                    return EQ
            # adding what is already there
            da = {x for x in da if not (x[0] == 'e' and any(pc.decide(has(s, x[1])) is True for s in bases))}
            db = {x for x in db if not (x[0] == 'e' and any(pc.decide(has(s, x[1])) is True for s in bases))}
            if not da and not db:
                return EQ
            if self.opts.get('bulk_unknown') and any(x[0] == 'b' and x[1].op in WHOLE for x in da | db):
                return UNK
            if len(da) == 1 and len(db) == 1:
                x, y = next(iter(da)), next(iter(db))
                if x[0] == y[0]:
                    return parts(x[1], y[1])
            un = [x[1] for x in da | db]
            if any(self.unknown(x) for x in un):
                return UNK
            if self.opts.get('bulk_unknown') and {x[0] for x in da | db} == {'b', 'e'}:
                return UNK
            return NE
        if ao == bo and ao in ('bool', 'str', 'char'):
            return NE
        for x, y in ((a, b), (b, a)):
            # all of a sequence is that sequence
            if x.op == 'slice' and y.op != 'slice' and x.args[0] is y and \
                    self.eqt(x.args[1], I(0), pc, d + 1) == EQ and self.eqt(x.args[2], length(y), pc, d + 1) == EQ:
                return EQ
        if ao == bo and len(a.args) == len(b.args):
            if ao == 'opaque':
                return UNK
            if ao == 'fn':
                return self.eqfn(a, b)
            if ao in ('call', 'app') and a.args[0] != b.args[0]:
                return self.verdict(a, b)
            if ao == 'mu' or ao == 'K':
                return self.verdict(a, b)
            pr = []
            if self.zipargs(a.args, b.args, pr):
                return self.conj(pr, pc, d)
        # empty things
        for x, y in ((a, b), (b, a)):
            if x is EMPTYSTR or x is EMPTYSEQ or x.op in ('emptymap', 'emptyset'):
                r = pc.decide(eq0(length(y)))
                if r is True:
                    return EQ
                if r is False:
                    return NE
        if (ao in BULK) != (bo in BULK) and self.opts.get('bulk_unknown'):
            return UNK
        r = self.verdict(a, b)
        if r == NE and (ao in FACTS or bo in FACTS) and self.same_fact(a, b, pc):
            return EQ
        return r

    def same_fact(self, a, b, pc):
        """neither truth value can go with the opposite one of the other"""
        if self.trial:
            return False
        k = (a, b, pc.lits)
        v = self.forcedmemo.get(k)
        if v is None:
            lits = self.facts(pc)
            v = self.forcedmemo[k] = lits is None or \
                feas.contradictory(lits + [a, neg(b)]) and feas.contradictory(lits + [neg(a), b])
        return v

    def forced(self, z, pc, more=()):
        """the facts leave no other value than equality"""
        if self.trial:
            return False
        k = (z, pc.lits, tuple(more))
        v = self.forcedmemo.get(k)
        if v is None:
            ats = set(lin_of(z.args[0])[1])
            seen = set()
            lits = self.facts(pc)
            if more and lits is not None:
                lits = lits + more
            for l in lits or ():
                for x in ([l] + list(l.args)):
                    if isinstance(x, Term) and x.op in ('ge0', 'eq0'):
                        seen |= set(lin_of(x.args[0])[1])
            v = self.forcedmemo[k] = lits is None or ats <= seen and feas.contradictory(lits + [neg(z)])
        return v

    def alias(self, t, pc, d):
        """terms of a sum and terms of the facts that are the same under the facts"""
        c, m = lin_of(t)
        if len(m) > 4:
            return ()
        k = (t, pc.lits)
        r = self.aliasmemo.get(k)
        if r is None:
            self.aliasmemo[k] = ()      # on the way
            seen = {}
            for l in self.facts(pc) or ():
                for x in ([l] + list(l.args)):
                    if isinstance(x, Term) and x.op in ('ge0', 'eq0'):
                        for y in lin_of(x.args[0])[1]:
                            seen.setdefault(shape(y), []).append(y)
            for y in m:
                seen.setdefault(shape(y), []).append(y)
            r = []
            for x in m:
                ys = [y for y in dict.fromkeys(seen.get(shape(x), ())) if y is not x]
                if len(ys) <= 12 and x.op in ('fld', 'idx', 'call', 'app', 'len'):
                    r += [eq0(sub(x, y)) for y in ys if self.eqt(x, y, pc, d + 4) == EQ]
            self.aliasmemo[k] = r
        return r

    def zipargs(self, x, y, out):
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if isinstance(p, Term) and isinstance(q, Term):
                out.append((p, q))
            elif isinstance(p, tuple) and isinstance(q, tuple):
                if not self.zipargs(p, q, out):
                    return False
            elif p != q:
                return False
        return True

    def verdict(self, a, b):
        return UNK if self.unknown(a) or self.unknown(b) else NE

    def conj(self, prs, pc, d):
        res = EQ
        for x, y in prs:
            r = self.eqt(x, y, pc, d + 1)
            if r == NE:
                return NE
            if r == UNK:
                res = UNK
        return res

    def eqfn(self, a, b):
        try:
            x, y = json.loads(a.args[0]), json.loads(b.args[0])
        except ValueError:
            return UNK
        fx, fy = x.get('res') or x.get('fn'), y.get('res') or y.get('fn')
        if fx == fy:
            return EQ
        return UNK if self.unknown(a) or self.unknown(b) else NE

    def setparts(self, xs, pc):
        """the parts of a set that are sets of their own, taken apart where the facts settle
        how many elements they have and which of them count"""
        out = set()
        todo = list(xs)
        n = 0
        while todo:
            n += 1
            k, x = todo.pop()
            if k == 'e' or n > 40:
                out.add((k, x))
                continue
            ln = self.known_len(x, pc)
            if ln == 0:
                continue
            if x.op in ('sinter', 'sdiff'):
                keep = []
                for s, o in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                    m = self.known_len(s, pc)
                    if m == 0 and x.op == 'sdiff' and s is x.args[1]:
                        keep = [('b', o)]
                        break
                    if m == 0:
                        keep = []
                        break
                    if m is None or (x.op == 'sdiff' and s is x.args[1]):
                        keep = None
                        continue
                    es = [index(T('elems', s), I(i)) for i in range(m)]
                    hs = [pc.decide(has(o, e)) for e in es]
                    if None in hs:
                        keep = None
                        continue
                    keep = [('e', e) for e, h in zip(es, hs) if h == (x.op == 'sinter')]
                    break
                if keep is None:
                    out.add((k, x))
                else:
                    todo.extend(keep)
            elif ln is not None and x.op not in WHOLE:
                out |= {('e', index(T('elems', x), I(i))) for i in range(ln)}
            else:
                out.add((k, x))
        return out

    def known_len(self, s, pc):
        ln = length(s)
        if ln.op == 'int':
            return ln.args[0]
        for i in range(4):
            if pc.decide(eq0(sub(ln, I(i)))) is True:
                return i
        return None

    def setform(self, t, pc):
        s = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.op == 'sadd':
                s.add(('e', x.args[1]))
                stack.append(x.args[0])
            elif x.op == 'union':
                stack.extend(x.args)
            elif x.op == 'setof' and x.args[0].op == 'seq':
                for p in x.args[0].args:
                    if p.op == 'el':
                        s |= {('e', y) for y in p.args}
                    elif p.op == 'elems':
                        stack.append(p.args[0])
                    else:
                        s.add(('b', T('setof', p)))
            elif x.op == 'setof' and x.args[0].op == 'elems':
                stack.append(x.args[0].args[0])
            elif x.op != 'emptyset':
                s.add(('b', x))
        # every element there is, one by one
        of = {}
        for k, x in s:
            if k == 'e' and x.op == 'idx' and x.args[0].op == 'elems' and x.args[1].op == 'int':
                of.setdefault(x.args[0], set()).add(x.args[1].args[0])
        for es, ix in of.items():
            if ix == set(range(len(ix))) and pc.decide(eq0(sub(length(es), I(len(ix))))) is True:
                s -= {('e', T('idx', es, I(i))) for i in ix}
                s.add(('b', es.args[0]))
        return s

    def eqseq(self, a, b, pc, d):
        pa = list(a.args) if a.op == 'seq' else [a]
        pb = list(b.args) if b.op == 'seq' else [b]
        if a.op == 'str' or b.op == 'str':
            return self.verdict(a, b)

        def flat(ps):
            o = []
            for p in ps:
                if p.op == 'el':
                    o.extend(('e', x) for x in p.args)
                else:
                    o.append(('b', p))
            return o
        fa, fb = flat(pa), flat(pb)
        # strip equal ends
        res = EQ
        while fa and fb and fa[0][0] == fb[0][0]:
            r = self.eqt(fa[0][1], fb[0][1], pc, d + 1)
            if r == EQ:
                fa.pop(0)
                fb.pop(0)
            else:
                break
        while fa and fb and fa[-1][0] == fb[-1][0]:
            r = self.eqt(fa[-1][1], fb[-1][1], pc, d + 1)
            if r == EQ:
                fa.pop()
                fb.pop()
            else:
                break
        if not fa and not fb:
            return EQ
        # leftovers that are empty under the facts
        fa = [x for x in fa if not (x[0] == 'b' and pc.decide(eq0(length(x[1]))) is True)]
        fb = [x for x in fb if not (x[0] == 'b' and pc.decide(eq0(length(x[1]))) is True)]
        if not fa and not fb:
            return EQ
        if len(fa) == len(fb) == 1 and fa[0][0] == fb[0][0]:
            return self.eqt(fa[0][1], fb[0][1], pc, d + 1)
        # one opaque run against elements
        for x, y in ((fa, fb), (fb, fa)):
            if len(x) == 1 and x[0][0] == 'b' and all(k == 'e' for k, _ in y):
                s = x[0][1]
                z = eq0(sub(length(s), I(len(y))))
                r = pc.decide(z)
                if r is True:
                    return self.conj([(index(s, I(i)), v) for i, (_, v) in enumerate(y)], pc, d)
                if r is False:
                    return UNK if self.unknown(s) else NE
        if all(k == 'e' for k, _ in fa + fb):
            if len(fa) != len(fb):
                return NE if not any(self.unknown(v) for _, v in fa + fb) or True else UNK
            return self.conj([(x[1], y[1]) for x, y in zip(fa, fb)], pc, d)
        if any(self.unknown(v) for _, v in fa + fb):
            return UNK
        if self.opts.get('bulk_unknown') and (any(k == 'b' and v.op in BULK for k, v in fa + fb)):
            return UNK
        return NE

    def eqcat(self, a, b, pc, d):
        pa = list(a.args) if a.op == 'cat' else [a]
        pb = list(b.args) if b.op == 'cat' else [b]
        if any(x.op in ('seq', 'agg', 'int', 'bool') for x in (a, b)):
            return self.verdict(a, b)
        drop = lambda ps: [p for p in ps if not (p.op not in ('str',) and pc.decide(eq0(length(p))) is True)]
        pa, pb = drop(pa), drop(pb)
        # strip equal ends, splitting literals
        for end in (0, -1):
            while pa and pb:
                x, y = pa[end], pb[end]
                if x.op == 'str' and y.op == 'str' and x is not y:
                    s, t = x.args[0], y.args[0]
                    n = 0
                    m = min(len(s), len(t))
                    if end == 0:
                        while n < m and s[n] == t[n]:
                            n += 1
                        s, t = s[n:], t[n:]
                    else:
                        while n < m and s[-1 - n] == t[-1 - n]:
                            n += 1
                        s, t = s[:len(s) - n], t[:len(t) - n]
                    if n == 0:
                        break
                    for ps, q in ((pa, s), (pb, t)):
                        if q:
                            ps[end] = S(q)
                        else:
                            ps.pop(end)
                    continue
                if self.eqt(x, y, pc, d + 1) == EQ:
                    pa.pop(end)
                    pb.pop(end)
                    continue
                break
        if not pa and not pb:
            return EQ
        if len(pa) == len(pb) == 1 and pa[0].op == pb[0].op and pa[0].op not in ('cat',):
            return self.eqt(pa[0], pb[0], pc, d + 1)
        if any(self.unknown(x) for x in pa + pb):
            return UNK
        return NE

    # -------------------------------------------------------- rows
    def assume(self, pc, lits, strict=True):
        """pc extended by the literals (normalised under what is known), None when contradictory"""
        for l in lits:
            note_allv(l)
            d = pc.decide(l)
            if d is True:
                continue
            if d is False:
                return None
            l2 = self.norm(pc)(l)
            if l2.op == 'bool':
                if l2 is FALSE:
                    return None
                # keep the literal itself as well: it may be a form other facts refer to
                p = pc.assume(l)
                if p is not None:
                    pc = p
                continue
            note_allv(l2)
            p = pc.assume(l2)
            if p is None:
                return None
            if l2 is not l:
                q = p.assume(l)
                if q is not None:
                    p = q
            pc = p
        return pc

    def soft(self, pc, soft, m=None):
        for l in soft:
            if m:
                l = subst(l, m)
            pc = self.assume(pc, [l])
            if pc is None:
                return None
        return pc

    def pinned(self, pc, soft, m):
        """a bound the source relies on leaves a quantity that is free here only one value"""
        for l in soft:
            l = subst(l, m)
            if l.op != 'ge0' or loop_syms(l):
                continue
            e = l.args[0]
            if pc.decide(l) is not None:
                continue
            if pc.decide(ge0(scale(e, -1))) is True and self.assume(pc, [neg(l)]) is not None:
                return True
        return False

    def spend(self, n=1):
        self.used += n
        if self.used > self.budget or (self.used & 31 == 0 and time.time() > self.deadline):
            raise Budget()

    def run(self, R, C):
        a = Active()
        a.R, a.C, a.m, a.eff, a.lmap, a.pc = R, C, {}, [], [], PC()
        a.er = a.ec = None
        try:
            self.findings, t = self.pair(a, [])
            if t:
                self.stat['unknown'] += 1
        except Budget:
            self.stat['unknown'] += 1
            self.over = True
        return self.findings

    over = False

    def pair(self, a, stack):
        """findings for one pair of cut points, after an attempt to confirm them by unfolding;
        and whether it stayed open because values of its own loops could not be related"""
        self.stat['pairs'] += 1
        stack = stack + [a]
        fs, tainted = self.rows(a, stack)
        if (fs or tainted) and a.er is not None:
            v, f2 = self.unfold_pair(a, stack[:-1])
            self.stat['unfolded'] += 1
            if v == 'ne':
                return f2, False
            if v == 'ok':
                return [f for f in fs if f.how in ('threshold', 'diverges')], False
            if tainted:
                return [f for f in fs if f.how in ('threshold', 'diverges')], True
        return fs, tainted

    def rows(self, a, stack):
        fs = []
        tainted = False
        m = a.m
        crow = []
        for c in a.C.rows:
            cl = [subst(l, m) for l in c.lits]
            crow.append((c, cl, quick(cl)))
        for r in a.R.rows:
            if r.kind == 'panic' or r.trace:
                continue
            p1 = self.assume(a.pc, r.lits)
            if p1 is None:
                continue
            p1 = self.soft(p1, r.soft)
            if p1 is None:
                continue
            if r.dom:
                p1 = p1.copy()
                p1.dom += r.dom
            qr = quick(r.lits)
            covered = False
            for c, cl, qc in crow:
                if c.trace:
                    continue
                if clash(qr, qc):
                    continue
                self.spend()
                p2 = self.assume(p1, cl)
                if p2 is None:
                    continue
                p3 = self.soft(p2, c.soft, m)
                covered = True
                if p3 is not None and c.soft and self.pinned(p2, c.soft, m):
                    p3 = None
                if p3 is None:
                    v, sub_ = self.panics(r, c, cl, p2, a)
                else:
                    p2 = p3
                    v, sub_ = self.rowpair(r, c, cl, p2, a, stack)
                self.stat['rows'] += 1
                if v == UNK:
                    self.stat['unknown'] += 1
                if v == 'TAINT':
                    tainted = True
                    fs.extend(sub_)
                    continue
                if v == NE and self.impossible(p2):
                    continue
                if v == NE:
                    ok = self.credible(r, c, cl, p2, a)
                    if sub_ and sub_[0].how == 'diverges' and not any(self.unknown(l) for l in cl):
                        ok = True
                    if ok == 'TAINT':
                        tainted = True
                    elif ok:
                        for f in sub_:
                            if f.how == 'rows' and self.threshold(cl, r):
                                f.how = 'threshold'
                        fs.extend(sub_)
                elif sub_:
                    fs.extend(sub_)
                if len(fs) > 6:
                    return fs, tainted
            if not covered:
                # no path of the source is possible here: each of them ends in a violated bound
                self.stat['uncovered'] = self.stat.get('uncovered', 0) + 1
                if any(self.tainted(l) for l in r.lits):
                    tainted = True
                elif not any(self.unknown(l) for l in r.lits) and not self.impossible(p1):
                    fs.append(self.f('no result', 'specification: [%s] %s; source: every path panics' % (
                        ' & '.join(show(l) for l in r.lits)[:700], r.kind), a.C.where if a.C.where else self.fn, 'uncovered'))
        return fs, tainted

    def threshold(self, cl, r):
        """the current row depends on an integer bound that bounded unfolding does not reach"""
        rl = set(r.lits)
        for l in cl:
            if l in rl:
                continue
            for x in ([l] + list(l.args)):
                if isinstance(x, Term) and x.op in ('ge0', 'eq0'):
                    c, dd = lin_of(x.args[0])
                    if abs(c) > 3:
                        return True
        return False

    def credible(self, r, c, cl, pc, a):
        """a difference counts when the current path is understood, or when it implies the reference path"""
        both = set(cl) & set(r.lits)
        bad = [l for l in cl if l not in both and self.unknown(l)]
        if not bad and not any(self.unknown(l) for l in r.lits if l not in both):
            return True
        if any(self.tainted(l) for l in cl) or any(self.tainted(l) for l in r.lits):
            return 'TAINT'
        p = self.assume(a.pc, [l for l in cl if l not in bad])
        if p is None:
            return False
        for l in r.lits:
            q = self.norm(p)(l)
            if q is not TRUE and p.decide(q) is not True:
                return False
        return True

    def impossible(self, pc, extra=()):
        """the facts of this path contradict each other once arithmetic and substring search are taken into account,
        or they speak of the same text in ways the reference does not and whose relation is not known here"""
        lits = self.facts(pc)
        if lits is None:
            self.stat['contradictory'] = self.stat.get('contradictory', 0) + 1
            return True
        if feas.contradictory(list(lits) + list(pc.dom), extra):
            self.stat['contradictory'] = self.stat.get('contradictory', 0) + 1
            return True
        if self.torn(lits, pc):
            self.stat['contradictory'] = self.stat.get('contradictory', 0) + 1
            return True
        if feas.searches(pc.lits):
            self.stat['unknown'] += 1
            return True
        k = feas.views(pc.lits)
        if len(k) > 1 and not k <= {'byte', 'find'}:
            if self.kinds is None:
                self.kinds = set()
                for n in self.exr.nodes:
                    for r in n.rows:
                        self.kinds |= feas.views(r.lits)
            if k - self.kinds:
                self.stat['unknown'] += 1
                return True
        return False

    kinds = None

    def torn(self, lits, pc):
        """opposite facts about two things that are the same under the facts"""
        vs, bs, ls = {}, {}, []
        for l in lits:
            n = l.op == 'not'
            x = l.args[0] if n else l
            if x.op == 'isvar':
                t, v, al = x.args
                v = frozenset(v)
                if n:
                    if not al:
                        continue
                    v = frozenset(al) - v
                vs[t] = v & vs.get(t, v)
            elif x.op in ('call', 'app', 'fld', 'idx', 'has', 'eq'):
                bs[x] = not n
        fuel = 60
        for d, opp in ((vs, lambda a, b: not a & b), (bs, lambda a, b: a is not b)):
            ts = list(d)
            for i, t in enumerate(ts):
                for u in ts[:i]:
                    if t.op != u.op or not opp(d[t], d[u]) or str(t.args[0]) != str(u.args[0]) and t.op in ('call', 'app') \
                            or t.op == 'fld' and t.args[1] != u.args[1]:
                        continue
                    fuel -= 1
                    if fuel < 0:
                        return False
                    if self.eqt(t, u, pc, 0) == EQ:
                        return True
        return False

    def facts(self, pc):
        """the facts of a path, each as it stands and in the form it takes under the others; None when one fails"""
        r = self.factmemo.get(pc.lits)
        if r is None:
            n = self.norm(pc)
            r = []
            for l in pc.lits:
                x = n(l)
                if x is FALSE:
                    r = False
                    break
                r.append(l)
                if x is not l and x is not TRUE:
                    r.append(x)
            self.factmemo[pc.lits] = r
        return None if r is False else r

    def f(self, what, detail, where, how='rows'):
        return Finding(self.fn, what, detail, where, how)

    def describe(self, r, c, pc, extra=''):
        return 'specification: [%s] %s; source: %s %s' % (
            ' & '.join(show(l) for l in r.lits)[:700], r.kind + ((' ' + show(r.val)[:300]) if r.val is not None else ''),
            c.kind + ((' ' + show(c.val)[:300]) if c.val is not None else ''), extra)

    def res(self, v, r, c, pc, what, extra):
        """turn a verdict about one compared value into a row verdict"""
        if v == NE:
            return NE, [self.f(what, self.describe(r, c, pc, extra), c.where)]
        return v, []

    def rowpair(self, r, c, cl, pc, a, stack):
        m = a.m
        k = (r.kind, c.kind)
        if k[0] == k[1] and k[0] in ('ret', 'exit'):
            v = self.eqv(r.val, subst(c.val, m) if c.val is not None else None, pc)
            if v == NE:
                return self.res(NE, r, c, pc, 'different result' if k[0] == 'ret' else 'different exit status',
                                'where %s instead of %s' % (show(subst(c.val, m))[:400], show(r.val)[:400]))
            v2, x = self.cmp_eff(r.eff, self.sub_eff(c.eff, m), pc)
            if v2 == NE:
                return self.res(NE, r, c, pc, 'different effect', x)
            out = UNK if UNK in (v, v2) else EQ
            return self.tv(out, v, v2, r, c, m), []
        if c.kind == 'panic':
            return self.panics(r, c, cl, pc, a)
        if k == ('enter', 'enter'):
            return self.enter(r, c, pc, a, stack)
        if k == ('back', 'back'):
            for s in reversed(stack):
                if s.R is r.node and s.C is c.node:
                    return self.back(s, r, c, pc, m)
        if r.kind in ('ret', 'exit') and c.kind in ('enter', 'back') and not self.can_end(c.node):
            return NE, [self.f('never ends', self.describe(r, c, pc), c.where, 'diverges')]
        # different shapes: unfold both from here
        v, f2 = self.unfold_rows(r, c, pc, a, stack)
        self.stat['unfolded'] += 1
        if v == 'ne':
            return NE, f2
        return 'TAINT', []

    @staticmethod
    def can_end(n):
        seen = set()
        w = [n]
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.incomplete:
                return True
            for r in x.rows:
                if r.kind in ('ret', 'exit', 'panic'):
                    return True
                if r.node is not None:
                    w.append(r.node)
        return False

    def tv(self, out, v1, v2, r, c, m):
        if out == UNK and self.taint:
            ts = [r.val] + ([subst(c.val, m)] if c.val is not None else []) + list(r.eff.values() if r.eff else []) + \
                list(self.sub_eff(c.eff, m).values() if c.eff else [])
            if any(t is not None and self.tainted(t) for t in ts):
                return 'TAINT'
        return out

    def eqv(self, x, y, pc):
        self.stat['values'] += 1
        if x is None or y is None:
            return EQ if x is y else UNK
        return self.eq3(x, y, pc)

    def panics(self, r, c, cl, pc, a):
        if self.panic_ok(r, cl, pc, a):
            return NE, [self.f('panics', self.describe(r, c, pc), c.where)]
        return UNK, []

    def panic_ok(self, r, cl, pc, a):
        """the new panic is inescapable for the row, or rests on conditions the reference also knows"""
        known = set()
        for q in a.R.rows:
            known.update(q.lits)
            known.update(neg(l) for l in q.lits)
        p = self.assume(a.pc, r.lits)
        p = self.soft(p, r.soft) if p is not None else None
        for l in cl:
            if l in known:
                continue
            if p is not None and (p.decide(l) is True or self.norm(p)(l) is TRUE):
                continue
            return False
        return True

    def sub_eff(self, eff, m):
        out = {}
        for root, v in (eff or {}).items():
            if root[0] == 'H':
                root = ('H', subst(root[1], m))
            out[root] = subst(v, m)
        return out

    def cmp_eff(self, er, ec, pc):
        res = EQ
        for root in sorted(set(er or {}) | set(ec or {}), key=str):
            x = (er or {}).get(root)
            y = (ec or {}).get(root)
            base = root[1] if root[0] == 'H' else T('glob', root[1])
            x = base if x is None else x
            y = base if y is None else y
            v = self.eqv(x, y, pc)
            if v == NE:
                return NE, 'on %s: %s instead of %s' % (show(base)[:80], show(y)[:500], show(x)[:500])
            if v == UNK:
                res = UNK
        return res, ''

    # -------------------------------------------------------- loops
    def rval(self, st, loc):
        return self.exr.deep(st, self.exr.load(st, loc))

    def cval(self, st, loc):
        return self.exc.deep(st, self.exc.load(st, loc))

    def header_state(self, ex, n):
        s = n.entry.copyframes()
        s.mem = dict(n.header_mem)
        return s

    def enter(self, r, c, pc, a, stack):
        R, C = r.node, c.node
        if R.incomplete or C.incomplete:
            return UNK, []
        key = (R.id, C.id)
        hr = self.header_state(self.exr, R)
        er, ec = r.st, c.st
        m = dict(a.m)
        m[C.k] = R.k
        # places both sides share
        ownr, ownc = set(R.leaves.values()), set(C.leaves.values())
        eff = self.shared(R, C, m, hr, ownr, ownc, False)
        for rl, cl in eff:
            v = self.loc_eq(rl, er, ec, a.m, pc)
            if v == NE and self.kept_back(self.rval(er, rl), self.c_at(rl, ec, a.m)):
                # one side has written what the other may still hold: what counts is what there is in the end
                v, f2 = self.unfold_rows(r, c, pc, a, stack)
                self.stat['unfolded'] += 1
                return (NE, f2) if v == 'ne' else ('TAINT', [])
            if v == NE:
                return NE, [self.f('different state on entry to a loop', self.describe(
                    r, c, pc, 'at %s: %s instead of %s' % (self.locname(rl), show(self.c_at(rl, ec, a.m))[:400],
                                                            show(self.rval(er, rl))[:400])), c.where)]
        locs_c = [l for l in C.leaves if l[0][0] in ('L', 'A')]
        locs_r = [l for l in list(R.leaves) + list(R.ind) if l[0][0] in ('L', 'A')]
        cands = []
        for lc in sorted(locs_c, key=str):
            vc = subst(self.cval(ec, lc), a.m)
            cs = []
            for lr in sorted(locs_r, key=str):
                vr = self.rval(er, lr)
                if self.eq3(vc, vr, pc) == EQ:
                    rank = 0
                    if lr in R.leaves:
                        rank -= 2
                    if self.vname(C, lc) == self.vname(R, lr):
                        rank -= 1
                    if lr == lc:
                        rank -= 1
                    cs.append((rank, lr))
            cs.sort(key=lambda x: x[0])
            cands.append((lc, [x[1] for x in cs]))
        combos = []
        for combo in itertools.product(*[(cs if cs else [None]) for _, cs in cands]):
            inj = len(set(x for x in combo if x)) == len([x for x in combo if x])
            combos.append((not inj, combo))
            if len(combos) >= 24:
                break
        combos.sort(key=lambda x: x[0])
        best = None
        left_open = False
        full = None
        for _, combo in combos[:8]:
            b = Active()
            b.R, b.C, b.eff, b.pc = R, C, eff, pc
            b.er, b.ec = er, ec
            b.m = dict(m)
            b.lmap = []
            taint = set()
            for (lc, cs), lr in zip(cands, combo):
                if lr is None:
                    taint.add(C.leaves[lc])
                else:
                    b.m[C.leaves[lc]] = self.rval(hr, lr)
                    b.lmap.append((lr, lc))
            img = set(combo)
            for lr in R.leaves:
                if lr[0][0] in ('L', 'A') and lr not in img:
                    taint.add(R.leaves[lr])
            b.eff = eff + self.shared(R, C, b.m, hr, ownr, ownc, True)
            b.pc = self.lemmas(b, pc)
            old = self.taint
            if full is not None and taint:
                continue
            self.taint = old | taint
            keep = self.opts.get('unfold', True)
            if full is not None:
                self.opts['unfold'] = False
            try:
                fs, t = self.pair(b, stack)
            finally:
                self.taint = old
                self.opts['unfold'] = keep
            if not fs and not t:
                return EQ, []
            if full is not None:
                continue
            if not taint and not t:
                # everything the loops carry is related, and the turns differ; look for another
                # way to relate them that works without unfolding
                full = fs
                continue
            left_open |= t
            if best is None and fs:
                best = fs
        if full is not None:
            return EQ, full
        if left_open:
            return 'TAINT', [f for f in best or [] if f.how in ('threshold', 'diverges')]
        return EQ, best or []

    @staticmethod
    def kept_back(x, y):
        a = x.args if x.op == 'cat' else (x,)
        b = y.args if y.op == 'cat' else (y,)
        n = min(len(a), len(b))
        return x is not y and (x.op == 'cat' or y.op == 'cat') and a[:n] == b[:n]

    def shared(self, R, C, m, hr, ownr, ownc, own):
        """heap and global places either side changes, in reference terms; own: only those named by
        values the loop itself carries"""
        eff = []
        seen = set()
        todo = [l for l in list(C.leaves) + list(C.ind) if l[0][0] in ('H', 'G')]
        todo = [l for l in todo if (l[0][0] == 'H' and bool(loop_syms(l[0][1]) & ownc)) == own]
        todo.sort(key=lambda l: (l[0][1].uid if l[0][0] == 'H' else 0, str(l[1])))
        for loc in todo:
            rl = self.sub_loc(loc, m)
            if rl not in seen:
                seen.add(rl)
                eff.append((rl, loc))
            if loc in C.leaves:
                m[C.leaves[loc]] = self.rval(hr, rl)
        for loc in list(R.leaves) + list(R.ind):
            if loc[0][0] not in ('H', 'G') or loc in seen:
                continue
            if (loc[0][0] == 'H' and bool(loop_syms(loc[0][1]) & ownr)) == own:
                seen.add(loc)
                eff.append((loc, None))
                # the source leaves it alone: what it had on entry stands for what the reference has now
                if loc[0][0] == 'G' and not loc[1]:
                    m[T('glob', loc[0][1])] = self.rval(hr, loc)
                else:
                    m[T('hyp', Explorer.locterm(loc))] = self.rval(hr, loc)
        return eff

    def lemmas(self, b, pc):
        """lengths of lists that every turn extends by a fixed number of elements"""
        R = b.R
        backs = [r for n in self.exr.nodes for r in n.rows if r.kind == 'back' and r.node is R]
        for loc, mu in R.leaves.items():
            n = None
            okk = True
            same = False
            for r in backs:
                v = self.exr.load(r.st, loc)
                k = None
                if v.op == 'seq' and len(v.args) == 2 and v.args[0] is mu and v.args[1].op == 'el':
                    k = len(v.args[1].args)
                elif v is mu or v.op == 'setidx' and length(v) is length(mu):
                    k = 0
                    same |= v is not mu
                if k is None or (n is not None and n != k):
                    okk = False
                    break
                n = k
            if okk and (n or same):
                init = self.exr.load_mem(R.entry_mem, loc)
                if n == 0:
                    init = self.exr.deep(R.entry, init)
                if n == 0 or init.op in ('seq',):
                    p = pc.assume(eq0(sub(length(mu), add(length(init), scale(R.k, n)))))
                    if p is not None:
                        pc = p
        return pc

    def vname(self, n, loc):
        root = loc[0]
        if root[0] != 'L':
            return None
        for fr in n.entry.frames:
            if fr.uid == root[1]:
                nm = fr.body.names.get(root[2])
                return (nm, loc[1]) if nm else None
        return None

    def sub_loc(self, loc, m):
        root, proj = loc
        if root[0] == 'H':
            root = ('H', subst(root[1], m))
        return root, tuple(tuple(subst(x, m) if isinstance(x, Term) else x for x in e) for e in proj)

    def locname(self, loc):
        return show(Explorer.locterm(loc))[:160]

    def c_at(self, rl, st, m):
        """value the current side has at a place named in reference terms"""
        root, proj = rl
        base = None
        if root[0] == 'H':
            for q in st.mem:
                if q[0] == 'H' and (q[1] is root[1] or subst(q[1], m) is root[1]):
                    base = subst(self.exc.deep(st, st.mem[q]), m)
                    break
            if base is None:
                h = m.get(T('hyp', Explorer.locterm(rl)))
                if h is not None:
                    return h
                base = root[1]
        else:
            v = st.mem.get(root)
            base = subst(self.exc.deep(st, v) if v is not None else self.exc.init(root), m)
        for e in proj:
            base = Explorer.step_in(base, e)
        return base

    def loc_eq(self, rl, sr, sc, m, pc):
        x = self.rval(sr, rl)
        y = self.c_at(rl, sc, m)
        return self.eqv(x, y, pc)

    def back(self, s, r, c, pc, m):
        """both sides close the loop of the active pair s"""
        res = EQ
        for rl, cl in s.eff:
            v = self.loc_eq(rl, r.st, c.st, m, pc)
            if v == NE:
                x, y = self.rval(r.st, rl), self.c_at(rl, c.st, m)
                return NE, [self.f('a loop turn changes state differently', self.describe(
                    r, c, pc, 'at %s: %s instead of %s' % (self.locname(rl), show(y)[:500], show(x)[:500])), c.where)]
            if v == UNK:
                res = 'TAINT' if self.tainted(self.rval(r.st, rl)) or self.tainted(self.c_at(rl, c.st, m)) else UNK
        for lr, lc in s.lmap:
            x = self.rval(r.st, lr)
            y = subst(self.cval(c.st, lc), m)
            v = self.eqv(x, y, pc)
            if v == NE:
                return NE, [self.f('a loop turn carries on a different value', self.describe(
                    r, c, pc, 'for %s: %s instead of %s' % (self.vname(s.R, lr) or self.locname(lr), show(y)[:500], show(x)[:500])), c.where)]
            if v == UNK:
                res = 'TAINT' if self.tainted(x) or self.tainted(y) else (UNK if res == EQ else res)
        return res, []

    # -------------------------------------------------------- unfolding
    @staticmethod
    def rowval(ex, row, loc):
        c = row.vals
        v = c.get(loc)
        if v is None:
            v = c[loc] = ex.deep(row.st, ex.load(row.st, loc))
        return v

    @staticmethod
    def own_places(ex, n, st, e):
        """places named by values the loop itself carries: untouched ones follow the new value"""
        own = set(n.leaves.values())
        ls = [l for l in n.leaves if l[0][0] == 'H' and loop_syms(l[0][1]) & own]
        for loc in sorted(ls, key=lambda l: len(loop_syms(l[0][1]))):
            v = ex.init(loc[0])
            for p in loc[1]:
                v = ex.step_in(v, p)
            if ex.load(st, loc) is v:
                e[n.leaves[loc]] = subst(v, {k: x for k, x in e.items() if k is not n.leaves[loc]})

    def arrive(self, ex, row, env, bump):
        """environment after following a row to its next cut point"""
        n = row.node
        e = dict(env)
        for loc, mu in n.leaves.items():
            e[mu] = subst(self.rowval(ex, row, loc), env)
        self.own_places(ex, n, row.st, e)
        if row.kind == 'enter':
            e[n.k] = I(0)
        else:
            e[n.k] = add(env.get(n.k, n.k), I(1))
        return Env(e)

    turns = None

    def finals(self, ex, node, env, pc, stop, bound, known=True):
        """ends of paths from a cut point, one by one: (pc, kind, payload, row, known)"""
        stack = [(node, env, pc, {node: 1}, known, True, 0)]
        while stack:
            n, e, p, vis, kn, free, tot = stack.pop()
            nxt = []
            for row in n.rows:
                if row.trace:
                    continue
                self.spend()
                lits = [subst(l, e) for l in row.lits]
                q = self.assume(p, lits)
                if q is None:
                    continue
                fr = free and (q is p or len(q.lits) == len(p.lits))
                k2 = kn and not any(self.unknown(l) for l in lits)
                q2 = self.soft(q, row.soft, e)
                if q2 is None:
                    yield (q, 'panic', (None, {}), row, k2, fr)
                    continue
                q = q2
                if ex is self.exr and row.dom:
                    q = q.copy()
                    q.dom += tuple(subst(l, e) for l in row.dom)
                if row.kind in ('ret', 'exit', 'panic'):
                    yield (q, row.kind, (subst(row.val, e) if row.val is not None else None, self.sub_eff(row.eff, e)),
                           row, k2, fr)
                    continue
                t = row.node
                if t in stop:
                    yield (q, 'at', (t, e, row), row, k2, fr)
                    continue
                v = vis.get(t, 0)
                if row.kind == 'back' and (v >= bound or self.turns is not None and tot >= self.turns):
                    self.cut = True
                    continue
                e2 = self.arrive(ex, row, e, 1)
                if row.kind == 'back' and not t.ind and e.get(t.k) is not None and \
                        all(e.get(mu) is e2[mu] for mu in t.leaves.values()):
                    # the same place in the same state: this path goes on for ever
                    yield (q, 'diverges', (None, {}), row, k2, fr)
                    continue
                vis2 = dict(vis)
                vis2[t] = v + 1 if row.kind == 'back' else 1
                nxt.append((t, e2, q, vis2, k2, fr, tot + (row.kind == 'back')))
            stack.extend(nxt)

    def unfold_pair(self, a, stack):
        """from the entry of the pair, with the values the loop starts with"""
        R, C = a.R, a.C
        envr = {}
        for loc, mu in R.leaves.items():
            envr[mu] = self.rval(a.er, loc)
        self.own_places(self.exr, R, a.er, envr)
        envr[R.k] = I(0)
        mo = stack[-1].m if stack else {}
        envc = dict(mo)
        for loc, mu in C.leaves.items():
            envc[mu] = subst(self.cval(a.ec, loc), mo)
        self.own_places(self.exc, C, a.ec, envc)
        envc[C.k] = I(0)
        base = stack[-1].pc if stack else PC()
        # facts of the row that led here
        pc = self.entry_pc(a)
        return self.unfold(('at', R, Env(envr)), ('at', C, Env(envc)), pc, stack)

    def entry_pc(self, a):
        return a.pc

    def unfold_rows(self, r, c, pc, a, stack):
        if r.kind in ('ret', 'exit'):
            lr = ('end', r.kind, (r.val, r.eff), r)
        else:
            lr = ('at', r.node, self.arrive(self.exr, r, {}, 1), (r.node, {}, r))
        if c.kind in ('ret', 'exit', 'panic'):
            lc = ('end', c.kind, (subst(c.val, a.m) if c.val is not None else None, self.sub_eff(c.eff, a.m)), c)
        else:
            lc = ('at', c.node, self.arrive(self.exc, c, a.m, 1), (c.node, a.m, c))
        known = not any(self.unknown(subst(l, a.m)) for l in c.lits)
        # when both stand at active cut points that are not paired, or one ended, go on from there
        return self.unfold(lr, lc, pc, stack, first=False, known=known, rows=(r, c))

    def unfold(self, left, right, pc, stack, first=True, known=True, rows=None):
        if not self.opts.get('unfold', True):
            return 'unknown', []
        saved = self.used
        lim = self.opts.get('unfold_budget', 16000)
        oldb = self.budget
        oldbulk = self.opts.get('bulk_unknown')
        self.opts['bulk_unknown'] = True
        got = 'unknown'
        try:
            # first few turns altogether, then more of each loop
            for bound, self.turns in ((2, 1), (2, 2), (2, None), (3, None), (4, None)):
                self.budget = min(oldb, self.used + lim)
                self.skipped = False
                self.compared = 0
                try:
                    f = self.unfold1(left, right, pc, stack, bound, known)
                    if f:
                        return 'ne', f
                    if bound >= 3:
                        got = 'unknown' if self.skipped or not self.compared else 'ok'
                except Budget:
                    if self.used > oldb:
                        self.budget = oldb
                        raise
                    break
        finally:
            self.budget = oldb
            self.opts['bulk_unknown'] = oldbulk
            self.used = saved + (self.used - saved) // 8
        return got, []

    def unfold1(self, left, right, pc, stack, bound, known):
        stopr = {s.R for s in stack}
        stopc = {s.C for s in stack}
        if left[0] == 'end':
            lf = [(pc, left[1], left[2], left[3], True, True)]
        elif left[1] in stopr:
            lf = [(pc, 'at', left[3], left[3][2], True, True) if len(left) > 3 else (pc, 'at0', left, None, True, True)]
        else:
            lf = self.finals(self.exr, left[1], left[2], pc, stopr, bound)
        for lp, lk, lv, lrow, lkn, _ in lf:
            if lk in ('panic', 'diverges'):
                continue
            if right[0] == 'end':
                rf = [(lp, right[1], right[2], right[3], known, False)]
            elif right[1] in stopc:
                rf = [(lp, 'at', right[3], right[3][2], known, False) if len(right) > 3 else (lp, 'at0', right, None, known, False)]
            else:
                rf = self.finals(self.exc, right[1], right[2], lp, stopc, bound, known=known)
            for p, rk, rv, rrow, kn, free in rf:
                self.spend()
                if not kn or not lkn:
                    self.skipped = True
                    continue
                if rk == 'panic':
                    if free and lk in ('ret', 'exit') and not self.impossible(p):
                        return [self.f('panics', self.pcs(p), rrow.where, 'unfolded')]
                    continue
                if rk == 'diverges':
                    if lk in ('ret', 'exit') and not self.impossible(p):
                        return [self.f('never ends', self.pcs(p), rrow.where, 'unfolded')]
                    continue
                f = self.ends(p, lk, lv, lrow, rk, rv, rrow, stack, bound)
                if f:
                    return f
        return None

    def ends(self, p, lk, lv, lrow, rk, rv, rrow, stack, bound):
        la, ra = lk in ('at', 'at0'), rk in ('at', 'at0')
        if la and ra:
            ln = lv[0] if lk == 'at' else lv[1]
            rn = rv[0] if rk == 'at' else rv[1]
            for s in reversed(stack):
                if s.R is ln and s.C is rn:
                    return self.ends_back(s, p, lk, lv, lrow, rk, rv, rrow)
        if la and ra:
            # the side that stands further in runs on to the loop the other one is back at
            for i, s in enumerate(reversed(stack)):
                if s.C is rn or s.R is ln:
                    if s.C is rn:
                        n, e = (lv[0], self.arrive(self.exr, lv[2], lv[1], 1)) if lk == 'at' else (lv[1], lv[2])
                        if rk == 'at0':
                            break
                        for lp, k1, v1, row1, kn1, _ in self.finals(self.exr, n, e, p, {s.R}, bound):
                            if k1 != 'at' or not kn1:
                                self.skipped |= not kn1
                                continue
                            f = self.ends_back(s, lp, k1, v1, row1, rk, rv, rrow)
                            if f:
                                return f
                    else:
                        n, e = (rv[0], self.arrive(self.exc, rv[2], rv[1], 1)) if rk == 'at' else (rv[1], rv[2])
                        if lk == 'at0':
                            break
                        for rp, k2, v2, row2, kn2, _ in self.finals(self.exc, n, e, p, {s.C}, bound):
                            if k2 != 'at' or not kn2:
                                self.skipped |= not kn2
                                continue
                            f = self.ends_back(s, rp, lk, lv, lrow, k2, v2, row2)
                            if f:
                                return f
                    return None
        if la or ra:
            # let the side that stands at an active header run on
            lf = [(p, lk, lv, lrow, True, True)]
            if la:
                n, e = (lv[0], self.arrive(self.exr, lv[2], lv[1], 1)) if lk == 'at' else (lv[1], lv[2])
                lf = self.finals(self.exr, n, e, p, set(), bound)
            for lp, k1, v1, row1, kn1, _ in lf:
                if k1 in ('panic', 'diverges'):
                    continue
                if not kn1:
                    self.skipped = True
                    continue
                rf = [(lp, rk, rv, rrow, True, False)]
                if ra:
                    n, e = (rv[0], self.arrive(self.exc, rv[2], rv[1], 1)) if rk == 'at' else (rv[1], rv[2])
                    rf = self.finals(self.exc, n, e, lp, set(), bound)
                for q, k2, v2, row2, kn2, free in rf:
                    if not kn2:
                        self.skipped = True
                        continue
                    if k2 == 'panic':
                        if free and k1 in ('ret', 'exit') and not self.impossible(q):
                            return [self.f('panics', self.pcs(q), row2.where, 'unfolded')]
                        continue
                    if k2 == 'diverges':
                        if k1 in ('ret', 'exit') and not self.impossible(q):
                            return [self.f('never ends', self.pcs(q), row2.where, 'unfolded')]
                        continue
                    f = self.ends_final(q, k1, v1, row1, k2, v2, row2)
                    if f:
                        return f
            return None
        return self.ends_final(p, lk, lv, lrow, rk, rv, rrow)

    def pcs(self, p):
        return ' & '.join(show(l) for l in p.lits)[-900:]

    def ends_final(self, *a):
        f = self.ends_final1(*a)
        # where a position the reference goes by lies outside of its sequence the reference panics
        v = a[2]
        if f and self.element_wise() and self.open_whole(a[0], (v[0], a[5][0]) + tuple((v[1] or {}).values()) + tuple((a[5][1] or {}).values())):
            return None
        return None if f and self.impossible(a[0], (v[0],) + tuple((v[1] or {}).values())) else f

    def ends_back(self, s, p, *a):
        f = self.ends_back1(s, p, *a)
        if f and self.element_wise():
            lv, rv = a[1], a[4]
            vs = [subst(self.rval(lv[2].st, l), lv[1]) for l in [x for x, _ in s.eff] + [x for x, _ in s.lmap]]
            vs += [self.c_at(l, rv[2].st, rv[1]) for _, l in s.eff] + [subst(self.cval(rv[2].st, l), rv[1]) for _, l in s.lmap]
            if self.open_whole(p, vs):
                return None
        return None if f and self.impossible(p) else f

    def element_wise(self):
        """one side treats sets as a whole (a union, an intersection, ...) where the other one has no such
        operation but loops of its own: what the first few turns give need not show that they agree"""
        n = (len(self.exr.nodes), len(self.exc.nodes))
        r = self.ewmemo
        if r is None or r[0] != n:
            x, y = self.wholes(self.exr), self.wholes(self.exc)
            r = self.ewmemo = (n, bool(x - y) and n[1] > n[0] or bool(y - x) and n[0] > n[1])
        return r[1]

    def open_whole(self, p, vals):
        nm = self.norm(p)
        seen = set()
        for t in list(p.lits) + [v for v in vals if isinstance(v, Term)]:
            subterms(nm(t), seen)
        r = any(x.op in WHOLE for x in seen)
        if r:
            self.skipped = True
        return r

    def wholes(self, ex):
        seen = set()
        for n in ex.nodes:
            for r in n.rows:
                for t in list(r.lits) + [v for v in ((r.val,) + tuple((r.eff or {}).values())) if isinstance(v, Term)]:
                    subterms(t, seen)
                if r.kind == 'back' and r.node is not None:
                    for loc in r.node.leaves:
                        v = ex.load(r.st, loc)
                        if isinstance(v, Term):
                            subterms(ex.deep(r.st, v), seen)
        return {x.op for x in seen if x.op in WHOLE and x.op != 'setof'}

    def ends_final1(self, p, lk, lv, lrow, rk, rv, rrow):
        where = rrow.where if rrow is not None else ''
        if rk == 'panic':
            return None
        self.compared += 1
        if lk != rk:
            return [self.f('ends differently', '%s instead of %s when %s' % (rk, lk, self.pcs(p)), where, 'unfolded')]
        v = self.eqv(lv[0], rv[0], p)
        if v == NE:
            return [self.f('different result', '%s instead of %s when %s' % (show(rv[0])[:400], show(lv[0])[:400], self.pcs(p)),
                           where, 'unfolded')]
        if v == UNK:
            self.skipped = True
        v, x = self.cmp_eff(lv[1], rv[1], p)
        if v == UNK:
            self.skipped = True
        if v == NE:
            return [self.f('different effect', '%s when %s' % (x, self.pcs(p)), where, 'unfolded')]
        return None

    def ends_back1(self, s, p, lk, lv, lrow, rk, rv, rrow):
        if lk == 'at0' or rk == 'at0':
            return None
        _, er, r = lv
        _, ec, c = rv
        self.compared += 1
        for rl, cl in s.eff:
            x = subst(self.rval(r.st, rl), er)
            y = self.c_at(rl, c.st, ec)
            v = self.eqv(x, y, p)
            self.skipped |= v == UNK
            if v == NE:
                return [self.f('a loop turn changes state differently', 'at %s: %s instead of %s when %s' % (
                    self.locname(rl), show(y)[:400], show(x)[:400], self.pcs(p)), c.where, 'unfolded')]
        for lr, lc in s.lmap:
            x = subst(self.rval(r.st, lr), er)
            y = subst(self.cval(c.st, lc), ec)
            v = self.eqv(x, y, p)
            self.skipped |= v == UNK
            if v == NE:
                return [self.f('a loop turn carries on a different value', 'for %s: %s instead of %s when %s' % (
                    self.vname(s.R, lr) or self.locname(lr), show(y)[:400], show(x)[:400], self.pcs(p)), c.where, 'unfolded')]
        return None
