"""Hash-consed value-number terms, their normal forms, and path facts.

A term is an interned node, so equality of normal forms is object identity.
Numbers are kept as linear forms, texts as concatenations, sequences as
concatenations of element runs and opaque parts.
"""

from math import gcd


class Term:
    __slots__ = ('op', 'args', 'uid', 'cache', 'sy', 'mk')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


_tab = {}


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.uid = len(_tab)
        t.cache = None
        t.sy = None
        t.mk = None
        _tab[k] = t
    return t


TRUE = T('bool', True)
FALSE = T('bool', False)
UNIT = T('unit')
EMPTYSTR = T('str', '')
EMPTYSEQ = T('seq')


def B(v):
    return TRUE if v else FALSE


# ---------------------------------------------------------------- integers
def I(n):
    return T('int', n)


def lin_of(t):
    """(const, {term: coef})"""
    if t.op == 'int':
        return t.args[0], {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mk_lin(c, d):
    items = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].uid))
    if not items:
        return T('int', c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return T('lin', c, items)


def add(a, b, s=1):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + s * v
    return mk_lin(ca + s * cb, da)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = lin_of(a)
    return mk_lin(c * n, {k: v * n for k, v in d.items()})


def mul(a, b):
    if a.op == 'int':
        return scale(b, a.args[0])
    if b.op == 'int':
        return scale(a, b.args[0])
    if b.uid < a.uid:
        a, b = b, a
    return T('mul', a, b)


def ge0(t):
    c, d = lin_of(t)
    if not d:
        return B(c >= 0)
    if len(d) % 2 == 0 and len(d) <= 8 and all(abs(p) == 1 and x.op == 'len' for x, p in d.items()):
        # sets against the same sets with something added
        ps = growths(d)
        if ps is not None:
            up, pairs = ps
            if up:
                if c >= 0:
                    return TRUE
                if c == -1:
                    return mk_or(*[neg(eq0(sub(b, a))) for a, b in pairs])
            elif c < 0:
                return FALSE
            elif c == 0:
                return mk_and(*[eq0(sub(b, a)) for a, b in pairs])
    return T('ge0', t)


def growths(d):
    """(True, [(set, the set grown)...]) of a sum of the growth of sets, (False, ...) of minus such a sum"""
    pos = [x for x, p in d.items() if p > 0]
    neg_ = [x for x, p in d.items() if p < 0]
    if len(pos) != len(neg_):
        return None
    for up, bigs, smalls in ((True, pos, neg_), (False, neg_, pos)):
        left = list(smalls)
        pairs = []
        for b in bigs:
            a = next((a for a in left if grown(a.args[0], b.args[0])), None)
            if a is None:
                break
            left.remove(a)
            pairs.append((a, b))
        else:
            return up, pairs
    return None


def grown(a, b):
    """is b the set a with something added to it?"""
    while b.op == 'sadd':
        b = b.args[0]
        if b is a:
            return True
    return b.op == 'union' and set(a.args if a.op == 'union' else (a,)) <= set(b.args)


def eq0(t):
    c, d = lin_of(t)
    if not d:
        return B(c == 0)
    first = min(d, key=lambda k: k.uid)
    if d[first] < 0:
        t = mk_lin(-c, {k: -v for k, v in d.items()})
    return T('eq0', t)


def lt(a, b):
    return ge0(sub(sub(b, a), I(1)))


def le(a, b):
    return ge0(sub(b, a))


# ---------------------------------------------------------------- booleans
def neg(b):
    if b.op == 'bool':
        return B(not b.args[0])
    if b.op == 'not':
        return b.args[0]
    if b.op == 'ge0':
        return ge0(sub(scale(b.args[0], -1), I(1)))
    if b.op == 'isvar':
        t, names, allv = b.args
        if allv:
            return isvar(t, tuple(sorted(set(allv) - set(names))), allv)
    if b.op == 'and':
        return mk_or(*[neg(x) for x in b.args])
    if b.op == 'or':
        return mk_and(*[neg(x) for x in b.args])
    return T('not', b)


def mk_and(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T('and', *out)


def mk_or(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        out.append(b)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T('or', *out)


MIRROR = {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}


def isvar(t, names, allv):
    while t.op == 'with':
        t = t.args[0]       # updating a field does not change the variant
    if t.op == 'agg' and t.args[1] is not None:
        return B(t.args[1] in names)
    if not names:
        return FALSE
    if allv and set(names) >= set(allv):
        return TRUE
    if t.op == 'cmp' and set(names) <= set(MIRROR):
        a, b = t.args
        if a is b:
            return B('Equal' in names)
        if b.uid < a.uid:
            t, names = T('cmp', b, a), [MIRROR[n] for n in names]
    return T('isvar', t, tuple(sorted(names)), tuple(sorted(allv)))


def mk_eq(a, b):
    if a is b:
        return TRUE
    if is_num(a) and is_num(b) and (a.op in ('int', 'lin', 'len') or b.op in ('int', 'lin', 'len')):
        return eq0(sub(a, b))
    if a.op == 'bool':
        return b if a.args[0] else neg(b)
    if b.op == 'bool':
        return a if b.args[0] else neg(a)
    if a.op == 'str' and b.op == 'str':
        return B(a.args[0] == b.args[0])
    for x, y in ((a, b), (b, a)):
        if x is EMPTYSTR or x is EMPTYSEQ:
            return eq0(length(y))
    if a.op == 'agg' and b.op == 'agg':
        if a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]:
                return FALSE
            if len(a.args[2]) == len(b.args[2]):
                return mk_and(*[mk_eq(x[1], y[1]) for x, y in zip(a.args[2], b.args[2])])
    if a.op == 'char' and b.op == 'char':
        return FALSE
    if b.uid < a.uid:
        a, b = b, a
    return T('eq', a, b)


def is_num(t):
    return t.op not in ('agg', 'str', 'seq', 'cat', 'bool', 'ref', 'char', 'unit', 'clo')


# ---------------------------------------------------------------- texts
def S(s):
    return T('str', s)


def strcat(*parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == 'cat' else (p,)):
            if q.op == 'str':
                if q.args[0] == '':
                    continue
                if out and out[-1].op == 'str':
                    out[-1] = S(out[-1].args[0] + q.args[0])
                    continue
            out.append(q)
    if not out:
        return EMPTYSTR
    if len(out) == 1:
        return out[0]
    return T('cat', *out)


# ---------------------------------------------------------------- sequences
# ('seq', part...) with parts ('el', e...) or any other term standing for a whole sequence
def seq(*elems):
    return seqcat(T('el', *elems)) if elems else EMPTYSEQ


def seqcat(*parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == 'seq' else (p,)):
            if q.op == 'el':
                if not q.args:
                    continue
                if out and out[-1].op == 'el':
                    out[-1] = T('el', *(out[-1].args + q.args))
                    continue
            out.append(q)
    if not out:
        return EMPTYSEQ
    if len(out) == 1 and out[0].op != 'el':
        return out[0]
    return T('seq', *out)


def length(s):
    if s.op == 'seq':
        n = I(0)
        for p in s.args:
            n = add(n, I(len(p.args)) if p.op == 'el' else length(p))
        return n
    if s.op == 'str':
        return I(len(s.args[0].encode('utf8', 'surrogateescape')))
    if s.op == 'cat':
        n = I(0)
        for p in s.args:
            n = add(n, length(p))
        return n
    if s.op == 'slice':
        return sub(s.args[2], s.args[1])
    if s.op == 'setidx':
        return length(s.args[0])
    if s.op in ('keys', 'vals', 'pairs', 'elems'):
        return length(s.args[0])
    if s.op == 'range':
        return sub(s.args[1], s.args[0])
    if s.op == 'emptyset':
        return I(0)
    if s.op == 'sadd' and s.args[0].op == 'emptyset':
        return I(1)
    if s.op == 'mset':
        g = mget(s.args[0], s.args[1])
        if g.op == 'agg':
            return add(length(s.args[0]), I(1 if g.args[1] == 'None' else 0))
        if s.args[1].op == 'idx' and s.args[1].args[0].op == 'keys':
            return length(s.args[0])
    if s.op == 'emptymap':
        return I(0)
    if s.op == 'rev':
        return length(s.args[0])
    if s.op in ('chars', 'charidx', 'lines') and s.args[0] in (EMPTYSEQ, EMPTYSTR):
        return I(0)
    if s.op == 'wins':
        return add(length(s.args[0]), I(1 - s.args[1].args[0]))
    return T('len', s)


def slice_(s, a, b):
    """elements a..b of s (b a term)"""
    if s.op == 'slice':
        return slice_(s.args[0], add(s.args[1], a), add(s.args[1], b))
    if a.op == 'int' and a.args[0] == 0 and b is length(s):
        return s
    if a is b:
        return EMPTYSTR if s.op in ('str', 'cat') else EMPTYSEQ
    if s.op == 'seq' and s.args and s.args[-1].op == 'el':
        # drop trailing elements
        k = sub(length(s), b)
        last = s.args[-1]
        if k.op == 'int' and 0 < k.args[0] <= len(last.args):
            return slice_(seqcat(*s.args[:-1], T('el', *last.args[:len(last.args) - k.args[0]])), a, b)
        if k.op == 'int' and k.args[0] == 0 and a.op != 'int':
            j = sub(b, a)
            if j.op == 'int' and 0 <= j.args[0] <= len(last.args):
                return seq(*last.args[len(last.args) - j.args[0]:])
    if s.op == 'seq' and s.args and s.args[0].op == 'el' and a.op == 'int' and b is length(s):
        f = s.args[0]
        if a.args[0] <= len(f.args):
            return seqcat(T('el', *f.args[a.args[0]:]), *s.args[1:])
    if s.op == 'str' and a.op == 'int' and b.op == 'int':
        bs = s.args[0].encode('utf8', 'surrogateescape')
        if 0 <= a.args[0] <= b.args[0] <= len(bs):
            return S(bs[a.args[0]:b.args[0]].decode('utf8', 'surrogateescape'))
    return T('slice', s, a, b)


def index(s, i):
    if s.op == 'slice':
        return index(s.args[0], add(s.args[1], i))
    if s.op == 'rev':
        return index(s.args[0], sub(sub(length(s.args[0]), I(1)), i))
    if s.op == 'pairs':
        m = s.args[0]
        return T('agg', 'tuple', None, (('0', index(T('keys', m), i)), ('1', index(T('vals', m), i))))
    if s.op == 'range':
        return add(s.args[0], i)
    if s.op == 'wins':
        return slice_(s.args[0], i, add(i, s.args[1]))
    if s.op == 'str' and i.op == 'int':
        bs = s.args[0].encode('utf8', 'surrogateescape')
        if 0 <= i.args[0] < len(bs):
            return I(bs[i.args[0]])
    if s.op == 'seq':
        off = i
        for p in s.args:
            if p.op == 'el':
                if off.op == 'int':
                    if 0 <= off.args[0] < len(p.args):
                        return p.args[off.args[0]]
                    if off.args[0] < 0:
                        break
                    off = I(off.args[0] - len(p.args))
                    continue
                off = sub(off, I(len(p.args)))
            else:
                d = sub(off, length(p))
                if d.op == 'int' and d.args[0] >= 0:
                    off = d
                    continue
                if len(s.args) == 1:
                    return index(p, off)
                break
        # from the end
        d = sub(length(s), i)
        if d.op == 'int' and d.args[0] > 0 and s.args and s.args[-1].op == 'el' and d.args[0] <= len(s.args[-1].args):
            return s.args[-1].args[-d.args[0]]
        return T('idx', s, i)
    if s.op == 'setidx':
        j = s.args[1]
        if j is i:
            return s.args[2]
        d = sub(i, j)
        if d.op == 'int':
            return index(s.args[0], i)
    return T('idx', s, i)


def setidx(s, i, v):
    if s.op == 'setidx' and s.args[1] is i:
        return setidx(s.args[0], i, v)
    if index(s, i) is v:
        return s
    if s.op == 'seq' and i.op == 'int':
        n = i.args[0]
        parts = list(s.args)
        for k, p in enumerate(parts):
            if p.op != 'el':
                break
            if n < len(p.args):
                parts[k] = T('el', *(p.args[:n] + (v,) + p.args[n + 1:]))
                return seqcat(*parts)
            n -= len(p.args)
    return T('setidx', s, i, v)


# ---------------------------------------------------------------- aggregates
def agg(adt, variant, fields):
    """fields: sequence of (name, term); eta-reduces copies of one value"""
    fields = tuple(fields)
    if fields and not (isinstance(adt, str) and adt.startswith('shims::')) and adt not in ('It',):
        f0 = fields[0][1]
        pre = (variant + '.') if variant else ''
        if f0.op == 'fld' and f0.args[1] == pre + fields[0][0]:
            base = f0.args[0]
            if all(v.op == 'fld' and v.args[0] is base and v.args[1] == pre + n for n, v in fields) \
                    and base.op not in ('K',):
                if variant is None and adt.find('::') >= 0 and not adt.startswith('closure:'):
                    return base
    return T('agg', adt, variant, fields)


def fld(t, name):
    """name is 'f' or 'Variant.f'"""
    if t.op == 'agg':
        v, f = t.args[1], name
        if v is not None:
            if not name.startswith(v + '.'):
                return T('bottom')
            f = name[len(v) + 1:]
        for n, x in t.args[2]:
            if n == f:
                return x
        return T('fld', t, name)
    if t.op == 'with':
        for n, x in t.args[1]:
            if n == name:
                return x
        return fld(t.args[0], name)
    if name == 'Ok.0' and t.op == 'app' and t.args[0] == 'read_to_string':
        return length(T('fld', t, 'Ok.text'))       # the number of bytes read
    return T('fld', t, name)


def with_(t, name, v):
    if t.op == 'agg':
        f = name
        if t.args[1] is not None:
            f = name[len(t.args[1]) + 1:] if name.startswith(t.args[1] + '.') else name
        fs = [(n, (v if n == f else x)) for n, x in t.args[2]]
        if all(n != f for n, _ in t.args[2]):
            fs.append((f, v))
        return T('agg', t.args[0], t.args[1], tuple(fs))
    if t.op == 'with':
        base = t.args[0]
        d = dict(t.args[1])
    else:
        base = t
        d = {}
    if fld(base, name) is v:
        d.pop(name, None)
    else:
        d[name] = v
    if not d:
        return base
    return T('with', base, tuple(sorted(d.items())))


# ---------------------------------------------------------------- rebuild / substitution
def unwith(t):
    while t.op == 'with':
        t = t.args[0]
    return t


def rebuild(op, args):
    if op == 'lin':
        r = I(args[0])
        for k, v in args[1]:
            r = add(r, scale(k, v))
        return r
    if op == 'mul':
        return mul(*args)
    if op == 'items' and args[0].op == 'agg' and args[0].args[0] == 'It':
        f = dict(args[0].args[2])
        return slice_(f['s'], f['p'], length(f['s']))
    if op == 'app' and isinstance(args[0], str) and args[0].startswith('cast:') and len(args) == 2 and args[1].op == 'int' \
            and args[0].split(':')[-1] in ('u8', 'u16', 'u32', 'u64', 'usize') and 0 <= args[1].args[0] < 256:
        return args[1]
    if op == 'ge0':
        return ge0(*args)
    if op == 'eq0':
        return eq0(*args)
    if op == 'not':
        return neg(*args)
    if op == 'and':
        return mk_and(*args)
    if op == 'or':
        return mk_or(*args)
    if op == 'isvar':
        return isvar(*args)
    if op == 'eq':
        return mk_eq(*args)
    if op == 'cat':
        return strcat(*args)
    if op == 'seq':
        return seqcat(*args)
    if op == 'len':
        return length(*args)
    if op == 'slice':
        return slice_(*args)
    if op == 'idx':
        return index(*args)
    if op == 'fld':
        return fld(*args)
    if op == 'union':
        return union(*args)
    if op == 'elems' and args[0].op == 'sadd' and args[0].args[0].op == 'emptyset':
        return seqcat(T('el', args[0].args[1]))
    if op == 'elems' and args[0].op == 'emptyset':
        return EMPTYSEQ
    if op == 'with':
        t = args[0]
        for n, v in args[1]:
            t = with_(t, n, v)
        return t
    if op == 'mget':
        return mget(*args)
    if op == 'has':
        return has(*args)
    if op == 'mset':
        return mset(*args)
    if op == 'sadd':
        return sadd(*args)
    if op == 'agg':
        return agg(*args)
    if op == 'setidx':
        return setidx(*args)
    return T(op, *args)


def map_args(args, f):
    out = []
    ch = False
    for a in args:
        if isinstance(a, Term):
            b = f(a)
        elif isinstance(a, tuple):
            b = map_args(a, f)
        else:
            b = a
        if b is not a:
            ch = True
        out.append(b)
    return tuple(out) if ch else args


_SYM = ('K', 'mu', 'glob', 'hyp')


def syms(t):
    """loop symbols, globals and hypotheses a term mentions (cached on the term)"""
    r = t.sy
    if r is not None:
        return r
    acc = set()
    if t.op in _SYM:
        acc.add(t)
    _syms_args(t.args, acc)
    r = t.sy = frozenset(acc)
    return r


def _syms_args(a, acc):
    for x in a:
        if isinstance(x, Term):
            acc |= x.sy if x.sy is not None else syms(x)
        elif isinstance(x, tuple):
            _syms_args(x, acc)


def bit(t):
    return 1 << (t.uid % 8191)


def mask(t):
    """which facts can bear on a term: a bit for each of its subterms and for the lengths its normal form asks about"""
    r = t.mk
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.mk is not None:
            stack.pop()
            continue
        need = []
        m = _mask_args(x.args, need)
        if need:
            stack.extend(need)
            continue
        m |= bit(x)
        lens = ()
        if x.op == 'seq':
            lens = [p for p in x.args if p.op != 'el']
        elif x.op == 'setof':
            lens = [x.args[0]]
        elif x.op in ('keys', 'vals', 'pairs', 'elems'):
            lens = [x]
        x.mk = m        # the length of something mentions parts of it only
        for p in lens:
            for k in lin_of(length(p))[1]:
                if k.mk is None:
                    mask(k)
                m |= k.mk
        if x.op == 'with':
            for n, _ in x.args[1]:
                m |= bit(fld(x.args[0], n))
        x.mk = m
        stack.pop()
    return t.mk


def _mask_args(a, need):
    m = 0
    for x in a:
        if isinstance(x, Term):
            if x.mk is None:
                need.append(x)
            else:
                m |= x.mk
        elif isinstance(x, tuple):
            m |= _mask_args(x, need)
    return m


class Env(dict):
    """a finished substitution, which keeps what it was applied to"""
    __slots__ = ('memo',)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.memo = {}


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = m.memo if type(m) is Env else {}
    keys = memo.get(None)
    if keys is None:
        keys = False
        if all(k.op in _SYM for k in m):
            keys = frozenset(m)
        memo[None] = keys

    def go(x):
        if keys is not False and keys.isdisjoint(x.sy if x.sy is not None else syms(x)):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = m.get(x)
        if r is not None:
            return r
        a = map_args(x.args, go)
        r = x if a is x.args else rebuild(x.op, a)
        memo[x] = r
        return r
    return go(t)


def subterms(t, seen=None):
    """all distinct subterms"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


# ---------------------------------------------------------------- maps and sets
# maps: ('emptymap',) | ('mset', m, k, v) | ('mdel', m, k) | opaque.  mget -> option-like opaque term
SOME = 'Some'


def opt_some(v):
    return T('agg', 'std::option::Option', 'Some', (('0', v),))


OPT_NONE = T('agg', 'std::option::Option', 'None', ())
EMPTYMAP = T('emptymap')
EMPTYSET = T('emptyset')


def mget(m, k):
    while True:
        if m.op == 'emptymap':
            return OPT_NONE
        if m.op == 'mset':
            if m.args[1] is k:
                return opt_some(m.args[2])
            if mk_eq(m.args[1], k) is FALSE:
                m = m.args[0]
                continue
        if m.op == 'mdel' and m.args[1] is k:
            return OPT_NONE
        break
    if k.op == 'idx' and k.args[0].op == 'keys' and k.args[0].args[0] is m:
        return opt_some(index(T('vals', m), k.args[1]))
    return T('mget', m, k)


def mset(m, k, v):
    if m.op == 'mset' and m.args[1] is k:
        return mset(m.args[0], k, v)
    g = mget(m, k)
    if g.op == 'agg' and g.args[1] == 'Some' and g.args[2][0][1] is v:
        return m
    if v.op == 'fld' and v.args[1] == 'Some.0' and v.args[0] is g:
        return m
    if v.op == 'agg' and v.args[1] is None and v.args[2]:
        w = fld(g, 'Some.0')
        if w.op == 'fld' and all(x is fld(w, n) for n, x in v.args[2]):
            return m
    return T('mset', m, k, v)


def has(s, x):
    if s.op == 'emptyset' or s.op == 'emptymap':
        return FALSE
    if s.op == 'sadd' and s.args[1] is x:
        return TRUE
    return T('has', s, x)


def sadd(s, x):
    if s.op == 'sadd' and s.args[1] is x:
        return s
    return T('sadd', s, x)


def union(*ss):
    out = []
    for s in ss:
        for q in (s.args if s.op == 'union' else (s,)):
            if q.op == 'emptyset':
                continue
            if q not in out:
                out.append(q)
    if not out:
        return EMPTYSET
    if len(out) == 1:
        return out[0]
    return T('union', *sorted(out, key=lambda t: t.uid))


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 14:
        return '…'
    o, a = t.op, t.args
    n = d + 1
    if o == 'int':
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'bool':
        return 'true' if a[0] else 'false'
    if o == 'unit':
        return '()'
    if o == 'arg':
        return 'arg%s' % a[0]
    if o == 'lin':
        s = ''
        for k, v in a[1]:
            s += ('+' if v > 0 else '-') + ('' if abs(v) == 1 else str(abs(v)) + '*') + show(k, n)
        if a[0]:
            s += '%+d' % a[0]
        return s.lstrip('+')
    if o == 'ge0':
        return show(a[0], n) + '>=0'
    if o == 'eq0':
        return show(a[0], n) + '==0'
    if o == 'eq':
        return '%s == %s' % (show(a[0], n), show(a[1], n))
    if o == 'not':
        return '!(' + show(a[0], n) + ')'
    if o == 'isvar':
        return '%s is %s' % (show(a[0], n), '|'.join(a[1]))
    if o == 'fld':
        return show(a[0], n) + '.' + a[1]
    if o == 'idx':
        return '%s[%s]' % (show(a[0], n), show(a[1], n))
    if o == 'slice':
        return '%s[%s..%s]' % (show(a[0], n), show(a[1], n), show(a[2], n))
    if o == 'len':
        return 'len(%s)' % show(a[0], n)
    if o == 'cat':
        return ' ++ '.join(show(x, n) for x in a)
    if o == 'seq':
        return '[' + ' ; '.join(show(x, n) for x in a) + ']'
    if o == 'el':
        return ', '.join(show(x, n) for x in a)
    if o == 'agg':
        nm = str(a[0]).split('::')[-1] if a[0] not in ('tuple', 'array') else ''
        if a[1]:
            nm += '::' + a[1]
        return nm + ('(' + ', '.join((f + ':' if not f.isdigit() else '') + show(v, n) for f, v in a[2]) + ')' if a[2] or not nm else '')
    if o == 'with':
        return show(a[0], n) + '{' + ', '.join('%s:=%s' % (f, show(v, n)) for f, v in a[1]) + '}'
    if o == 'ref':
        return '&' + show(a[0], n) + ''.join('.' + show(x, n) if isinstance(x, str) else '/' + show(x, n) for x in a[1])
    if o in ('app', 'call'):
        return '%s(%s)' % (str(a[0]).split('::')[-1] if o == 'call' else a[0], ', '.join(show(x, n) for x in a[1:]))
    if o == 'disp':
        return '{' + show(a[0], n) + '}'
    if o == 'mu':
        return 'μ%s.%s' % (a[0], show(a[1], n))
    if o == 'K':
        return 'K%s' % a[0]
    return o + '(' + ', '.join(show(x, n) for x in a) + ')'


# ---------------------------------------------------------------- path facts
def _norm_vec(d):
    """-> (vec, sign*gcd) with d == factor * vec"""
    if len(d) == 1:
        (k, v), = d.items()
        if v:
            return ((k, 1),), v
    items = sorted(((k, v) for k, v in d.items() if v), key=lambda kv: kv[0].uid)
    g = 0
    for _, v in items:
        g = gcd(g, abs(v))
    if items[0][1] < 0:
        g = -g
    return tuple((k, v // g) for k, v in items), g


SIGNED_OPS = ('signed',)


class PC:
    """a consistent set of facts collected along one path"""
    __slots__ = ('b', 'v', 'l', 'lits', 'dom', 'up', 'dm', 'nm')

    def __init__(self):
        self.b = {}
        self.v = {}
        self.l = {}
        self.lits = ()
        self.up = self.nm = None
        self.dm = 0
        self.dom = ()       # what the specification's subtractions need on this path

    def copy(self):
        p = PC.__new__(PC)
        p.b = self.b
        p.v = self.v
        p.l = self.l
        p.lits = self.lits
        p.dom = self.dom
        p.up = self         # what it extends, and which terms the additional fact is about
        p.dm = 0
        p.nm = None
        return p

    # -- queries
    def bounds(self, vec):
        r = self.l.get(vec)
        if r is not None:
            return r
        if len(vec) == 1:
            return (0, None, frozenset())
        # default bounds from the bounds of the single terms
        lo = hi = 0
        for k, c in vec:
            a, b, _ = self.l.get(((k, 1),), (0, None, None))
            if c < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
        return (lo, hi, frozenset())

    def lin_bounds(self, t):
        c, d = lin_of(t)
        if not d:
            return c, c, frozenset()
        vec, g = _norm_vec(d)
        lo, hi, ex = self.bounds(vec)
        if g > 0:
            return (None if lo is None else lo * g + c), (None if hi is None else hi * g + c), ex
        return (None if hi is None else hi * g + c), (None if lo is None else lo * g + c), ex

    def decide(self, b):
        o = b.op
        if o == 'bool':
            return b.args[0]
        if o == 'not':
            r = self.decide(b.args[0])
            return None if r is None else not r
        if o == 'ge0':
            lo, hi, _ = self.lin_bounds(b.args[0])
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            return None
        if o == 'eq0':
            t = b.args[0]
            lo, hi, ex = self.lin_bounds(t)
            if lo == 0 and hi == 0:
                return True
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            c, d = lin_of(t)
            vec, g = _norm_vec(d)
            if (-c) % g != 0 or (-c) // g in self.bounds(vec)[2]:
                return False
            return None
        if o == 'isvar':
            t, names, allv = b.args
            cur = self.v.get(t)
            if t.op == 'agg':
                return t.args[1] in names
            if cur is None:
                return None
            ns = frozenset(names)
            if cur <= ns:
                return True
            if not (cur & ns):
                return False
            return None
        if o == 'and':
            rs = [self.decide(x) for x in b.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if o == 'or':
            rs = [self.decide(x) for x in b.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        r = self.b.get(b)
        if r is None and o == 'eq':
            a0, a1 = b.args
            for x, y in ((a0, a1), (a1, a0)):
                if y.op in ('str', 'char', 'int'):
                    known = self.b.get(T('litof', x))
                    if known is not None and known is not y:
                        return False
        return r

    # -- extension; returns None when contradictory
    def assume(self, b, val=True):
        if not val:
            b = neg(b)
        r = self.decide(b)
        if r is True:
            return self
        if r is False:
            return None
        o = b.op
        if o == 'and':
            p = self
            for x in b.args:
                p = p.assume(x)
                if p is None:
                    return None
            return p
        if o == 'or':
            open_ = [x for x in b.args if self.decide(x) is not False]
            if not open_:
                return None
            if len(open_) == 1:
                return self.assume(open_[0])
            p = self.copy()
            p.b = dict(p.b)
            p.b[b] = True
            p.lits = p.lits + (b,)
            p.dm = bit(b)
            return p
        p = self.copy()
        p.lits = p.lits + (b,)
        a = b.args[0] if o == 'not' else b
        if a.op in ('ge0', 'eq0'):
            for k in lin_of(a.args[0])[1]:
                p.dm |= bit(k)
        else:
            p.dm = bit(a)
            for x in a.args:
                if isinstance(x, Term):
                    p.dm |= bit(x)
        if o == 'ge0':
            c, d = lin_of(b.args[0])
            vec, g = _norm_vec(d)
            lo, hi, ex = self.bounds(vec)
            if g > 0:   # g*S + c >= 0  ->  S >= ceil(-c/g)
                n = -((c) // g)
                lo = n if lo is None else max(lo, n)
            else:       # S <= floor(c/-g)
                n = c // (-g)
                hi = n if hi is None else min(hi, n)
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return None
            p.l = dict(p.l)
            p.l[vec] = (lo, hi, ex)
            return p._check_lin(vec)
        if o == 'eq0':
            c, d = lin_of(b.args[0])
            vec, g = _norm_vec(d)
            n = (-c) // g
            p.l = dict(p.l)
            p.l[vec] = (n, n, frozenset())
            return p._check_lin(vec)
        if o == 'not' and b.args[0].op == 'eq0':
            c, d = lin_of(b.args[0].args[0])
            vec, g = _norm_vec(d)
            if (-c) % g:
                return self
            n = (-c) // g
            lo, hi, ex = self.bounds(vec)
            ex = ex | {n}
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return None
            p.l = dict(p.l)
            p.l[vec] = (lo, hi, ex)
            return p._check_lin(vec)
        if o == 'isvar':
            t, names, allv = b.args
            cur = self.v.get(t)
            ns = frozenset(names)
            if cur is None and not allv:
                new = ns
            else:
                new = (cur if cur is not None else frozenset(allv)) & ns
            if not new:
                return None
            p.v = dict(p.v)
            p.v[t] = new
            return p
        p.b = dict(p.b)
        if o == 'not':
            p.b[b.args[0]] = False
            a = b.args[0]
            if a.op == 'has':
                pass
        else:
            p.b[b] = True
            if o == 'eq':
                for x, y in (b.args, b.args[::-1]):
                    if y.op in ('str', 'char', 'int'):
                        p.b[T('litof', x)] = y
        return p

    def _check_lin(self, vec):
        # light transitive closure: difference facts that follow from other difference facts
        for (k, c) in vec:
            pass
        return self


def split(pc, b):
    """the consistent truth values of b under pc"""
    r = pc.decide(b)
    if r is not None:
        return [(r, pc)]
    out = []
    for v in (True, False):
        p = pc.assume(b, v)
        if p is not None:
            out.append((v, p))
    return out
