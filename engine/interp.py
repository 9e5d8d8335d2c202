"""Flow- and path-sensitive value summaries of MIR bodies.

A body is cut at its loop headers.  Between cut points every path is turned
into one row of a decision table: the branch conditions along the path (over
value-number terms) and what the path does (returned value, changed memory,
or the values it carries to the next cut point).  What a loop changes is found
by widening to a fixpoint; counters of constant step are kept as linear forms
of one iteration number.
"""
import json

import models
from mir import strip_generics, strip_ptr, strip_ref, key_of
from terms import *


class Undecided(Exception):
    pass


class Dead(Exception):
    """the path cannot happen"""


class Node:
    __slots__ = ('id', 'entry', 'leaves', 'ind', 'rows', 'parent', 'hdr', 'header_mem', 'fr', 'entry_pc', 'where',
                 'incomplete', 'sorts', 'kids', 'k', 'nlits', 'entry_mem', 'names', 'depth', 'nback')

    def __init__(self):
        self.rows = []
        self.leaves = {}
        self.ind = {}
        self.sorts = {}
        self.incomplete = False


class Row:
    __slots__ = ('lits', 'kind', 'val', 'eff', 'node', 'st', 'where', 'pc', 'soft', 'trace', 'vals', 'dom')

    def __init__(self, lits, kind, val, eff, node, st, where, soft=()):
        self.lits = lits
        self.kind = kind
        self.val = val
        self.eff = eff
        self.node = node
        self.st = st
        self.where = where
        self.soft = soft
        self.vals = {}


class Frame:
    __slots__ = ('body', 'uid', 'bb', 'dest', 'ret')

    def __init__(self, body, uid, bb, dest, ret):
        self.body = body
        self.uid = uid
        self.bb = bb
        self.dest = dest     # (root, proj) in the caller
        self.ret = ret       # block of the caller to go on with


class St:
    __slots__ = ('frames', 'mem', 'pc', 'loops', 'uid', 'owner', 'lit0', 'soft', 'werr', 'cont', 'rcs', 'dom')

    def fork(self):
        s = St.__new__(St)
        s.frames = [f for f in self.frames]
        fr = self.frames[-1]
        s.frames[-1] = Frame(fr.body, fr.uid, fr.bb, fr.dest, fr.ret)
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.loops = self.loops
        s.uid = self.uid
        s.owner = self.owner
        s.lit0 = self.lit0
        s.soft = self.soft
        s.dom = self.dom
        s.werr = self.werr
        s.cont = self.cont
        s.rcs = self.rcs
        return s

    def copyframes(self):
        s = self.fork()
        s.frames = [Frame(f.body, f.uid, f.bb, f.dest, f.ret) for f in self.frames]
        return s


UNINIT = T('uninit')


class Explorer:
    def __init__(self, prog, shims, boundary=frozenset(), maxrows=3000, maxsteps=60000, werr=False, noinline_depth=40, idbase=0, effects_of=None, io_of=None):
        self.prog = prog
        self.shims = shims
        self.boundary = boundary
        self.fntys = {}         # functions forwarded to: the types of their arguments and result
        self.maxrows = maxrows
        self.maxsteps = maxsteps
        self.steps = 0
        self.nid = idbase
        self.nnodes = 0
        self.ids = {}
        self.nrows = 0
        self.werr_mode = werr
        self.unmodelled = set()
        self.used_boundary = set()
        self.inlined = set()
        self.nodes = []
        self.turns = True
        self.keep = None
        self.turned = False
        self.maxdepth = noinline_depth
        self.rmemo = {}
        self.effects_of = effects_of
        self.io_of = io_of

    # ------------------------------------------------------------ memory
    def init(self, root):
        if root[0] == 'H':
            return root[1]
        if root[0] == 'G':
            return T('glob', root[1])
        return UNINIT

    def content(self, st, root):
        v = st.mem.get(root)
        return self.init(root) if v is None else v

    def load(self, st, loc):
        root, proj = loc
        v = self.content(st, root)
        for e in proj:
            v = self.step_in(v, e)
        return v

    @staticmethod
    def step_in(v, e):
        k = e[0]
        if k == 'f':
            return fld(v, e[1])
        if k == 'i':
            return index(v, e[1])
        if k == 'k':
            return fld(mget(v, e[1]), 'Some.0')
        raise Undecided('projection')

    def put(self, v, proj, n, new):
        if n == len(proj):
            return new
        e = proj[n]
        sub_ = self.put(self.step_in(v, e), proj, n + 1, new) if n + 1 < len(proj) else new
        k = e[0]
        if k == 'f':
            return with_(v, e[1], sub_)
        if k == 'i':
            return setidx(v, e[1], sub_)
        return mset(v, e[1], sub_)

    def store(self, st, loc, new, log=True):
        root, proj = loc
        if root[0] == 'V':
            return
        if log and root[0] == 'H' and self.call_root(root[1]):
            # an object handed out by a call: what is written to it is kept in order
            w = ('G', 'writes')
            st.mem[w] = seqcat(self.content(st, w), T('el', T('write', self.locterm(loc), self.deep(st, new))))
        if not proj:
            st.mem[root] = new
        else:
            st.mem[root] = self.put(self.content(st, root), proj, 0, new)

    def loc_of(self, st, t):
        """the place a pointer value points to"""
        if t.op == 'ref':
            return t.args[0], t.args[1]
        while t.op == 'with':
            # a pointer whose target was updated in place is the same pointer
            t = t.args[0]
        r = self.derive(st, t)
        if r is not None and r[1]:
            cur = self.load(st, r)
            b = cur
            while b.op == 'with':
                b = b.args[0]
            if b is t or cur is t:
                return r
            c0 = self.init(r[0])
            for e in r[1]:
                c0 = self.step_in(c0, e)
            # modified in place: still the same cell when the container is a plain update of its initial value
            if c0 is t and self.rooted(cur, t):
                return r
        if t.op == 'mu' and t.args[1].args[0] == 'H':
            # what a heap place holds at a loop header is named by the place itself
            return ('H', t.args[1].args[1]), t.args[1].args[2]
        return ('H', t), ()

    @staticmethod
    def call_root(t):
        while t.op in ('fld', 'idx', 'with') and isinstance(t.args[0], Term):
            t = t.args[0]
        return t.op == 'call' and 'fs::' not in t.args[0]

    @staticmethod
    def rooted(cur, t):
        if cur.op in ('fld', 'idx') and t.op == cur.op and cur.args[1] is t.args[1]:
            return Explorer.rooted(cur.args[0], t.args[0])
        return cur is t or (cur.op in ('with', 'setidx', 'mset', 'sadd', 'mdel', 'sdel') and Explorer.rooted(cur.args[0], t)) \
            or (cur.op in ('cat', 'seq') and cur.args and Explorer.rooted(cur.args[0], t)) or cur.op in ('mu', 'out')

    def derive(self, st, t):
        o = t.op
        if o == 'fld':
            b = t.args[0]
            if b.op == 'mget' and t.args[1] == 'Some.0':
                r = self.loc_of(st, b.args[0])
                return r[0], r[1] + (('k', b.args[1]),)
            r = self.loc_of(st, b)
            return r[0], r[1] + (('f', t.args[1]),)
        if o == 'idx':
            s = t.args[0]
            if s.op == 'vals':
                r = self.loc_of(st, s.args[0])
                return r[0], r[1] + (('k', T('idx', T('keys', s.args[0]), t.args[1])),)
            if s.op in ('elems', 'keys', 'pairs', 'rev', 'wins', 'range', 'seq', 'slice', 'chars', 'charidx'):
                return None
            r = self.loc_of(st, s)
            return r[0], r[1] + (('i', t.args[1]),)
        return None

    def mkref(self, loc):
        root, proj = loc
        if root[0] == 'H' and not proj:
            return root[1]
        if root[0] == 'V' and not proj:
            return root[1]
        return T('ref', root, proj)

    def deep(self, st, t, seen=()):
        """the value of t with every reference replaced by what it points to"""
        if not has_ref(t):
            return t
        if t.op == 'ref':
            if t in seen:
                return T('cyc')
            return self.deep(st, self.load(st, (t.args[0], t.args[1])), seen + (t,))
        a = map_args(t.args, lambda x: self.deep(st, x, seen))
        return t if a is t.args else rebuild(t.op, a)

    # ------------------------------------------------------------ places and operands
    def walk(self, st, p):
        fr = st.frames[-1]
        loc = (('L', fr.uid, p[0]), ())
        if not p[1]:
            return loc
        ty = fr.body.locals[p[0]]
        var = None
        i = 0
        proj = p[1]
        n = len(proj)
        if ty['k'] == 'adt' and ty['p'].endswith('::Box') and proj[0] != '*' and proj[0][0] == 'f' and proj[0][1] == '0':
            i = 1
            while i < n and proj[i] != '*' and proj[i][0] == 'f' and proj[i][1] == 'pointer':
                i += 1
        while i < n:
            e = proj[i]
            i += 1
            if e == '*':
                v = self.load(st, loc)
                if v.op == 'bottom':
                    raise Dead()
                loc = self.loc_of(st, v)
                var = None
                continue
            k = e[0]
            if k == 'f':
                nm = e[1] if var is None else var + '.' + e[1]
                loc = (loc[0], loc[1] + (('f', nm),))
                var = None
            elif k == 'd':
                var = e[1]
            elif k == 'i':
                ix = self.load(st, (('L', fr.uid, e[1]), ()))
                loc = (loc[0], loc[1] + (('i', ix),))
            elif k == 'ci':
                if e[3]:
                    ix = sub(length(self.load(st, loc)), I(e[1]))
                else:
                    ix = I(e[1])
                loc = (loc[0], loc[1] + (('i', ix),))
            elif k == 'ss':
                v = self.load(st, loc)
                hi = sub(length(v), I(e[2])) if e[3] else I(e[2])
                loc = (('V', slice_(v, I(e[1]), hi)), ())
            else:
                raise Undecided('place projection')
        if loc[0][0] == 'V' and loc[0] not in st.mem:
            st.mem[loc[0]] = loc[0][1]
        return loc

    def operand(self, st, o):
        if 'c' in o:
            return self.const(st, o)
        loc = self.walk(st, o['p'])
        v = self.load(st, loc)
        if v.op == 'bottom':
            raise Dead()
        return v

    def const(self, st, o):
        c = o['c']
        if c in ('uint', 'int'):
            return I(int(o['v']))
        if c == 'bool':
            return B(bool(int(o['v'])))
        if c == 'char':
            return T('char', int(o['v']))
        if c == 'str':
            return S(o['v'])
        if c == 'bytes':
            return S(bytes.fromhex(o['v']).decode('utf8', 'surrogateescape'))
        if c == 'fn':
            return T('fn', json.dumps(o, sort_keys=True))
        if c == 'zst':
            return self.zst(o['ty'])
        if c == 'agg':
            return self.const_agg(st, o)
        if c == 'promoted':
            return self.promoted(st, o)
        if c == 'static':
            return T('static', o['p'])
        if c == 'scalar':
            return I(int(o['v']))
        return T('opaque', c, str(o.get('s', '')))

    def zst(self, ty):
        k = ty['k']
        if k == 'tuple':
            return UNIT
        if k == 'closure':
            return self.closure(ty['p'], ())
        if k == 'fndef':
            return T('opaque', 'fndef', ty['p'])
        if k == 'adt':
            a = self.prog.adts.get(ty['p'])
            if a and a['kind'] == 'enum' and len(a['variants']) == 1:
                return T('agg', ty['p'], a['variants'][0]['name'], ())
            return T('agg', ty['p'], None, ())
        if k == 'array':
            return EMPTYSEQ
        return T('opaque', 'zst', json.dumps(ty))

    def const_agg(self, st, o):
        ty = o['ty']
        fs = [self.const(st, f) for f in o['fields']]
        if ty['k'] == 'adt':
            a = self.prog.adts.get(ty['p'])
            if a:
                for v in a['variants']:
                    if a['kind'] != 'enum' or v['name'] == o['variant']:
                        names = [x[0] for x in v['fields']]
                        return agg(ty['p'], v['name'] if a['kind'] == 'enum' else None, zip(names, fs))
        if ty['k'] == 'tuple':
            return T('agg', 'tuple', None, tuple((str(i), x) for i, x in enumerate(fs))) if fs else UNIT
        if ty['k'] in ('array', 'slice'):
            return seq(*fs)
        return T('opaque', 'agg', json.dumps(o, sort_keys=True))

    def promoted(self, st, o):
        bd = self.prog.bodies.get(o['def']) or self.shims.bodies.get(o['def'])
        if bd is None or o['i'] >= len(bd.promoted):
            return T('opaque', 'promoted', o['def'], o['i'])
        pb = bd.promoted[o['i']]
        s = St()
        s.frames = [Frame(pb, -1, 0, None, None)]
        s.mem = {}
        s.pc = PC()
        s.loops = ()
        s.uid = 0
        s.owner = None
        s.lit0 = 0
        s.soft = ()
        s.dom = ()
        s.werr = None
        s.rcs = frozenset()
        s.cont = None
        try:
            while True:
                b = pb.blocks[s.frames[-1].bb]
                for q in b['s']:
                    self.assign(s, q)
                t = b['t']
                if t[0] == 'goto':
                    s.frames[-1].bb = t[1]
                elif t[0] == 'return':
                    break
                else:
                    # a constant that needs calls
                    return T('opaque', 'promoted', o['def'], o['i'])
            return self.deep(s, self.content(s, ('L', -1, 0)))
        except (Undecided, Dead):
            return T('opaque', 'promoted', o['def'], o['i'])

    def optype(self, st, o):
        """static type of an operand, when it is a plain local or constant"""
        if 'c' in o:
            return o.get('ty')
        p = o['p']
        t = st.frames[-1].body.locals[p[0]]
        for e in p[1]:
            if e == '*' and t is not None and t['k'] == 'ref':
                t = t['t']
                continue
            t = None
            if e is p[1][-1] and e[0] == 'f' and e[3] in self.prog.adts:
                for v in self.prog.adts[e[3]]['variants']:
                    for n, ty in v['fields']:
                        if n == e[1] and len(self.prog.adts[e[3]]['variants']) == 1 and (ty == 'bool' or ty in self.INTS):
                            t = {'k': 'o', 's': ty}
        return t

    # ------------------------------------------------------------ statements
    INTS = ('usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128')

    def isint(self, st, o, v):
        if v.op in ('int', 'lin', 'len'):
            return True
        t = self.optype(st, o)
        if t is not None:
            return t['k'] == 'o' and t['s'] in self.INTS
        return v.op not in ('agg', 'bool', 'str', 'cat', 'seq', 'char', 'isvar', 'eq', 'has', 'not', 'ge0', 'eq0', 'and', 'or')

    def assign(self, st, s):
        place, rv = s[0], s[1]
        k = rv[0]
        if k == 'use':
            v = self.operand(st, rv[1])
        elif k in ('ref', 'reborrow'):
            v = self.mkref(self.walk(st, rv[2]))
        elif k == 'agg':
            v = self.aggregate(st, rv[1], [self.operand(st, x) for x in rv[2]])
        elif k == 'discr':
            x = self.load(st, self.walk(st, rv[1]))
            if x.op == 'bottom':
                raise Dead()
            ty = strip_ref(rv[2])
            adt = ty['p'] if ty['k'] == 'adt' else None
            v = T('discr', x, adt)
        elif k == 'bin':
            v = self.binop(st, rv[1], rv[2], rv[3])
        elif k == 'un':
            x = self.operand(st, rv[2])
            if rv[1] == 'Not':
                ty = self.optype(st, rv[2])
                if ty is not None and ty['k'] == 'o' and ty['s'] in self.INTS:
                    bits = {'8': 8, '16': 16, '32': 32, '64': 64, 'size': 64, '128': 128}[ty['s'].lstrip('ui')]
                    v = sub(I((1 << bits) - 1 if ty['s'][0] == 'u' else -1), x)
                else:
                    v = neg(x)
            elif rv[1] == 'PtrMetadata':
                v = length(self.load(st, self.loc_of(st, x)))
            else:
                v = scale(x, -1)
        elif k == 'cast':
            v = self.cast(st, rv)
        elif k == 'repeat':
            v = T('repeat', self.operand(st, rv[1]), str(rv[2]))
        elif k == 'setdiscr':
            raise Undecided('setdiscr')
        else:
            v = T('opaque', 'rv', str(rv[1])[:60])
        self.store(st, self.walk(st, place), v)

    def cast(self, st, rv):
        x = self.operand(st, rv[2])
        ty = rv[3]
        if rv[1].startswith('IntToInt') or 'IntToInt' in rv[1]:
            if x.op == 'discr':
                a = self.prog.adts.get(x.args[1])
                if x.args[0].op == 'agg' and a:
                    for q in a['variants']:
                        if q['name'] == x.args[0].args[1]:
                            return I(int(q['discr']))
                return T('app', 'discr', x.args[0])
            if x.op == 'char':
                return I(x.args[0])
            if x.op == 'bool':
                return I(1 if x.args[0] else 0)
            if x.op == 'int' and ty['k'] == 'o' and ty['s'] == 'char':
                return T('char', x.args[0])
            to = ty.get('s')
            src = self.optype(st, rv[2])
            if src is not None and src['k'] == 'o':
                w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 7, 'i16': 15, 'i32': 31,
                     'i64': 63, 'isize': 63, 'i128': 127}
                if src['s'] in w and to in w and (w[to] >= w[src['s']]) and not (src['s'][0] == 'i' and to[0] == 'u'):
                    return x
                if src['s'] in w and to in w and x.op == 'int' and 0 <= x.args[0] < 2 ** w[to]:
                    return x
                if src['s'] in ('usize', 'u64') and to == 'u32':
                    return x        # there are fewer than 2^32 of anything (DESIGN.md)
                return T('app', 'cast:%s:%s' % (src['s'], to), x)
            return T('app', 'cast:?:%s' % to, x)
        return x

    def closure(self, p, vals):
        f = None if vals else self.prog.forwards(p)
        if f is not None:
            r = T('fn', json.dumps(f[0], sort_keys=True))
            self.fntys[r] = f[1:]
            return r
        return T('agg', self.prog.closure_name(p), None, tuple((str(i), x) for i, x in enumerate(vals)))

    def aggregate(self, st, head, vals):
        if head == 'array':
            return seq(*vals)
        if head == 'tuple':
            return T('agg', 'tuple', None, tuple((str(i), x) for i, x in enumerate(vals))) if vals else UNIT
        if isinstance(head, dict):
            if 'closure' in head:
                return self.closure(head['closure'], vals)
            return agg(head['adt'], head['v'] if head['enum'] else None, zip(head['f'], vals))
        raise Undecided('aggregate')

    def binop(self, st, op, ao, bo):
        a = self.operand(st, ao)
        b = self.operand(st, bo)
        if op in ('Eq', 'Ne'):
            if self.isint(st, ao, a) and self.isint(st, bo, b):
                # comparison of a discriminant
                if a.op == 'discr' or b.op == 'discr':
                    r = T('eq', a, b)
                    if a is b:
                        r = TRUE
                    elif b.op == 'int' and a.op == 'discr':
                        r = self.discr_is(a, b.args[0])
                    elif a.op == 'int' and b.op == 'discr':
                        r = self.discr_is(b, a.args[0])
                    elif a.op == 'discr' and b.op == 'discr':
                        r = self.fieldless_eq(a.args[0], b.args[0], a.args[1])
                else:
                    r = eq0(sub(a, b))
            else:
                r = mk_eq(a, b)
            return r if op == 'Eq' else neg(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            return {'Lt': lambda: lt(a, b), 'Le': lambda: le(a, b), 'Gt': lambda: lt(b, a), 'Ge': lambda: le(b, a)}[op]()
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            r = add(a, b) if base == 'Add' else sub(a, b) if base == 'Sub' else mul(a, b)
            if op.endswith('WithOverflow'):
                return T('agg', 'tuple', None, (('0', r), ('1', FALSE)))
            return r
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            t = self.optype(st, ao) or self.optype(st, bo)
            if (t is not None and t['k'] == 'o' and t['s'] == 'bool') or a.op == 'bool' or b.op == 'bool':
                if base == 'BitAnd':
                    return mk_and(a, b)
                if base == 'BitOr':
                    return mk_or(a, b)
                return neg(mk_eq(a, b))
        if op == 'Cmp':
            return T('cmp', a, b)
        if a.op == 'int' and b.op == 'int':
            x, y = a.args[0], b.args[0]
            try:
                r = {'Div': lambda: x // y, 'Rem': lambda: x % y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y,
                     'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y}[base]()
                return I(r)
            except (KeyError, ZeroDivisionError):
                pass
        return T('app', 'op' + base, a, b)

    def discr_is(self, d, n):
        a = self.prog.adts.get(d.args[1]) if d.args[1] else None
        if a is None:
            return T('eq', d, I(n))
        for v in a['variants']:
            if v['discr'] is not None and int(v['discr']) == n:
                return isvar(d.args[0], (v['name'],), self.prog.variants(d.args[1]))
        return FALSE

    def fieldless_eq(self, x, y, adt):
        allv = self.prog.variants(adt)
        if x.op == 'agg' and y.op == 'agg':
            return B(x.args[1] == y.args[1])
        if x.op == 'agg':
            x, y = y, x
        if y.op == 'agg' and allv:
            return isvar(x, (y.args[1],), allv)
        if x is y:
            return TRUE
        a = self.prog.adts.get(adt)
        if a and all(not v['fields'] for v in a['variants']):
            return mk_eq(x, y)
        x, y = sorted((x, y), key=lambda t: t.uid)
        return T('samevar', x, y)

    # ------------------------------------------------------------ running
    def run(self, body, args=None):
        """the summary graph of a function: its root node"""
        root = Node()
        root.id = self.nid
        root.kids = {}
        root.parent = None
        root.hdr = None
        root.where = body.path
        root.depth = 0
        root.k = None
        st = St()
        st.frames = [Frame(body, 0, 0, None, None)]
        st.mem = {}
        st.pc = PC()
        st.loops = ()
        st.uid = 1
        st.owner = root
        st.lit0 = 0
        st.soft = ()
        st.dom = ()
        st.werr = None
        st.rcs = frozenset()
        st.cont = None
        body.analyse()
        for i in range(body.nargs):
            st.mem[('L', 0, i + 1)] = args[i] if args else T('arg', i)
        root.entry_pc = st.pc
        self.nodes = [root]
        self.work(st, None)
        return root

    def new_node(self, st, parent, where):
        self.nnodes += 1
        key = (parent.id, where)
        parent.kids[where] = c = parent.kids.get(where, -1) + 1
        key = key + (c,)
        if key not in self.ids:
            self.nid += 1
            self.ids[key] = self.nid
        n = Node()
        n.id = self.ids[key]
        n.kids = {}
        n.parent = parent
        n.k = T('K', n.id)
        return n

    def work(self, st, node):
        """run all paths from st.  When node is given, stop at arrivals back at node's header
        and at paths that left the loop; return (backs, leaves)."""
        stack = [st]
        backs = []
        leaves = []
        outs = []
        while stack:
            s = stack.pop()
            try:
                ev = self.step_to_event(s, stack, node)
            except Dead:
                continue
            if ev is None:
                continue
            kind = ev[0]
            if kind == 'leaf':
                leaves.append(s)
            elif kind == 'back':
                tgt = ev[1]
                self.add_row(s, 'back', None, tgt)
                if tgt is node:
                    backs.append(s)
                else:
                    outs.append((tgt, s))
            elif kind == 'enter':
                mark = len(self.nodes)
                child = self.enter(s, ev[1])
                lv, ou = self.fix(child)
                if self.turns and self.literal_turn(child):
                    self.turned = True
                    # the next turn is over an element written out in the source: take it as it stands
                    del self.nodes[mark:]
                    s.owner.rows = [r for r in s.owner.rows if r.node is not child]
                    s.cont = 'in'
                    stack.append(s)
                    continue
                stack.extend(reversed([x for x in lv]))
                for tgt, x in ou:
                    if tgt is node:
                        backs.append(x)
                    else:
                        outs.append((tgt, x))
        if node is None:
            return None
        return backs, leaves, outs

    def add_row(self, st, kind, val, node=None):
        self.nrows += 1
        if self.nrows > self.maxrows:
            raise Undecided('too many paths')
        lits = st.pc.lits[st.lit0:]
        eff = None
        if kind in ('ret', 'exit', 'panic'):
            eff = self.effects(st)
            if kind == 'ret':
                val = self.refresh(st, self.deep(st, val))
            if st.rcs:
                eff = {k: self.refresh(st, v, k) for k, v in eff.items()}
        fr = st.frames[-1]
        where = '%s %s' % (fr.body.path, fr.body.blocks[fr.bb]['l']) if fr.bb is not None else fr.body.path
        r = Row(lits, kind, val, eff, node, st if kind in ('back', 'enter') else None, where, st.soft)
        r.trace = st.werr
        r.dom = st.dom
        st.owner.rows.append(r)

    def refresh(self, st, val, root=None):
        """copies of shared pointers taken before their target was written show the target as it is now"""
        if val is None or not st.rcs:
            return val
        up = {}
        for t in st.rcs:
            loc = self.loc_of(st, t)
            if root is not None and loc[0] == root:
                continue
            cur = self.deep(st, self.load(st, loc))
            if cur is t or cur.op != 'with' or unwith(cur) is not t:
                continue
            up[t] = ((), cur)
            path = ()
            x = t
            while x.op == 'fld':
                path = (x.args[1],) + path
                x = x.args[0]
                up.setdefault(x, (path, cur))
        if not up:
            return val

        def setpath(y, path, cur):
            if not path:
                return cur
            return with_(y, path[0], setpath(fld(y, path[0]), path[1:], cur))

        def go(y):
            if y.op == 'agg':
                fs = tuple((n, go(x)) for n, x in y.args[2])
                return y if all(a[1] is b[1] for a, b in zip(fs, y.args[2])) else agg(y.args[0], y.args[1], fs)
            if y.op == 'seq' or y.op == 'el':
                a = tuple(go(x) for x in y.args)
                return y if all(p is q for p, q in zip(a, y.args)) else rebuild(y.op, a)
            u = up.get(unwith(y))
            if u is not None and y.op in ('fld', 'idx', 'with'):
                return setpath(y, *u)
            return y
        return go(val)

    def effects(self, st):
        eff = {}
        for root, v in st.mem.items():
            if root[0] == 'H':
                if v is not root[1] and not self.call_root(root[1]):
                    d = self.deep(st, v)
                    if d is not root[1]:
                        eff[root] = d
            elif root[0] == 'G':
                if v is not self.init(root):
                    eff[root] = self.deep(st, v)
        return eff

    def enter(self, st, hb):
        """make the node for the loop header st stands at"""
        self.gc(st)
        parent = st.owner
        fr = st.frames[-1]
        n = self.new_node(st, parent, (fr.uid, hb))
        n.hdr = (fr.uid, hb)
        n.where = '%s %s' % (fr.body.path, fr.body.blocks[hb]['l'])
        n.entry = st
        n.entry_pc = st.pc
        n.entry_mem = dict(st.mem)
        n.nlits = len(st.pc.lits)
        n.depth = parent.depth + 1
        n.names = {}
        self.add_row(st, 'enter', None, n)
        return n

    def fix(self, node):
        base = node.entry
        rounds = 0
        while True:
            rounds += 1
            if rounds > 25:
                raise Undecided('no fixpoint')
            st = base.copyframes()
            st.owner = node
            st.lit0 = len(st.pc.lits)
            st.soft = ()
            st.dom = ()
            st.cont = 'in'
            st.loops = st.loops + ((node.hdr[0], node.hdr[1], node),)
            for loc, v in node.ind.items():
                self.store(st, loc, v, False)
            for loc in sorted(node.leaves, key=lambda l: len(l[1])):
                self.store(st, loc, node.leaves[loc], False)
            node.header_mem = dict(st.mem)
            node.rows = []
            node.kids = {}
            if self.nnodes > 4000:
                raise Undecided('too many loops')
            backs, leaves, outs = self.work(st, node)
            node.nback = len(backs)
            if not self.widen(node, backs):
                break
        self.nodes.append(node)
        return leaves, outs

    def literal_turn(self, node):
        """does the loop advance an iterator that stands before one of a few spelled-out elements?"""
        for root, path in list(node.ind) + list(node.leaves):
            if path and path[-1] in (('f', 'p'), ('f', 's')):
                path = path[:-1]
            it = self.load_mem(node.entry_mem, (root, path))
            if it.op != 'agg' or it.args[0] != 'It':
                continue
            d = dict(it.args[2])
            q, p = d['s'], d['p']
            if q.op == 'seq':
                q = q.args[0]
            if q.op == 'el' and len(q.args) <= 8 and p.op == 'int' and p.args[0] < len(q.args):
                return True
        return False

    def widen(self, node, backs):
        changed = False
        diffs = {}
        for b in backs:
            self.gc(b)
            for root, v in b.mem.items():
                h = node.header_mem.get(root)
                if h is None:
                    if root[0] in ('H', 'G'):
                        h = self.init(root)
                    else:
                        continue
                self.diff(h, v, (root, ()), diffs, b)
        self.collapse(node, backs, diffs)
        # conflicting nested locations: keep the outermost
        locs = set(diffs)
        for loc in sorted(locs, key=lambda l: len(l[1])):
            if any((loc[0], loc[1][:i]) in locs for i in range(len(loc[1]))):
                continue
            vals = diffs[loc]
            node_leaf = node.leaves.get(loc)
            if node_leaf is not None:
                continue
            # nested below an existing leaf cannot differ structurally; above one: drop the inner leaves
            init = self.load_mem(node.entry_mem, loc)
            if loc in node.ind:
                # was thought to be a counter
                step = self.ind_step(node, loc, init)
                if step is not None and len(vals) == len(backs) and all(v is add(h, I(step)) for h, v in vals):
                    continue
                del node.ind[loc]
                node.leaves[loc] = T('mu', node.id, self.locterm(loc))
                changed = True
                continue
            if len(vals) == len(backs):
                ds = {sub(v, h) if is_num(v) and is_num(h) else None for h, v in vals}
                if len(ds) == 1:
                    d = next(iter(ds))
                    if d is not None and d.op == 'int':
                        node.ind[loc] = add(init, scale(node.k, d.args[0]))
                        changed = True
                        continue
            for l2 in [l for l in node.leaves if l[0] == loc[0] and l[1][:len(loc[1])] == loc[1]]:
                del node.leaves[l2]
            for l2 in [l for l in node.ind if l[0] == loc[0] and l[1][:len(loc[1])] == loc[1]]:
                del node.ind[l2]
            node.leaves[loc] = T('mu', node.id, self.locterm(loc))
            changed = True
        # counters that some path does not advance
        for loc in list(node.ind):
            if loc not in diffs and backs:
                if any((loc[0], loc[1][:i]) in locs for i in range(len(loc[1]))):
                    continue
                del node.ind[loc]
                node.leaves[loc] = T('mu', node.id, self.locterm(loc))
                changed = True
        return changed

    def collapse(self, node, backs, diffs):
        """a place picked by something computed inside the loop body stands for its whole container"""
        ok = set()
        n = node
        while n is not None:
            ok.add(n.id)
            n = n.parent
        memo = {}

        def inner(t):
            r = memo.get(t)
            if r is None:
                if t.op in ('K', 'mu'):
                    r = t.args[0] not in ok
                else:
                    r = inner_args(t.args)
                memo[t] = r
            return r

        def inner_args(a):
            for x in a:
                if isinstance(x, Term):
                    if inner(x):
                        return True
                elif isinstance(x, tuple) and inner_args(x):
                    return True
            return False

        for loc in list(diffs):
            root, proj = loc
            new = loc
            if root[0] == 'H' and inner(root[1]):
                t = root[1]
                while inner(t) and t.args and isinstance(t.args[0], Term):
                    t = t.args[0]
                if inner(t):
                    if self.call_root(root[1]):
                        del diffs[loc]
                    continue
                new = (('H', t), ())
            else:
                for i, e in enumerate(proj):
                    if inner_args(e):
                        new = (root, proj[:i])
                        break
            if new is not loc:
                del diffs[loc]
                if new not in diffs:
                    h = self.load_mem(node.header_mem, new)
                    diffs[new] = [(h, T('unknown', x)) for x in range(len(backs) + 1)]

    def ind_step(self, node, loc, init):
        d = sub(node.ind[loc], init)
        c, m = lin_of(d)
        return m.get(node.k)

    @staticmethod
    def locterm(loc):
        r = loc[0]
        if r[0] == 'H':
            return T('loc', 'H', r[1], tuple(loc[1]))
        return T('loc', r[0], tuple(r[1:]), tuple(loc[1]))

    def load_mem(self, mem, loc):
        v = mem.get(loc[0])
        if v is None:
            v = self.init(loc[0])
        for e in loc[1]:
            v = self.step_in(v, e)
        return v

    def diff(self, h, v, loc, out, st):
        if h is v:
            return
        if h.op == 'agg' and v.op == 'agg' and h.args[0] == v.args[0] and h.args[1] == v.args[1] \
                and len(h.args[2]) == len(v.args[2]):
            pre = (h.args[1] + '.') if h.args[1] else ''
            for (n, a), (_, b) in zip(h.args[2], v.args[2]):
                self.diff(a, b, (loc[0], loc[1] + (('f', pre + n),)), out, st)
            return
        if h.op == 'with' or v.op == 'with':
            hb = h.args[0] if h.op == 'with' else h
            vb = v.args[0] if v.op == 'with' else v
            if hb is vb:
                ns = set(n for n, _ in h.args[1]) if h.op == 'with' else set()
                if v.op == 'with':
                    ns |= set(n for n, _ in v.args[1])
                for n in sorted(ns):
                    self.diff(fld(h, n), fld(v, n), (loc[0], loc[1] + (('f', n),)), out, st)
                return
            # struct rebuilt: compare over the known fields when one side is an aggregate
        out.setdefault(loc, []).append((h, v))

    def gc(self, st):
        """drop dead locals and unreachable allocations"""
        roots = []
        keep = set()
        top = True
        for fr in reversed(st.frames):
            fr.body.analyse()
            if top:
                lv = fr.body.live[fr.bb]
                top = False
            else:
                lv = fr.body.live[fr.bb] if fr.bb is not None else set()
            for l in lv:
                keep.add(('L', fr.uid, l))
        # the callers resume at their return block; results not yet stored
        work = [r for r in keep if r in st.mem]
        for r in st.mem:
            if r[0] in ('H', 'G'):
                work.append(r)
        seen = set(work)
        while work:
            r = work.pop()
            v = st.mem[r]
            for rr in ref_roots(v):
                if rr not in seen and rr in st.mem:
                    seen.add(rr)
                    work.append(rr)
        for fr in st.frames:
            if fr.dest is not None and fr.dest[0] in st.mem and fr.dest[1]:
                seen.add(fr.dest[0])
        for r in list(st.mem):
            if r not in seen:
                del st.mem[r]

    # one path until something of interest happens
    def step_to_event(self, st, stack, node):
        while True:
            fr = st.frames[-1]
            bb = fr.bb
            body = fr.body
            if bb in body.headers and st.cont != 'in':
                for u, h, n in reversed(st.loops):
                    if u == fr.uid and h == bb:
                        return ('back', n)
                return ('enter', bb)
            st.cont = None
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Undecided('too many steps')
            blk = body.blocks[bb]
            for s in blk['s']:
                self.assign(st, s)
            t = blk['t']
            k = t[0]
            if k == 'goto':
                self.goto(st, t[1])
            elif k == 'switch':
                alts = self.switch(st, t)
                if not alts:
                    return None
                for s2, tgt in alts[1:]:
                    self.goto(s2, tgt)
                    stack.append(s2)
                st2, tgt = alts[0]
                self.goto(st2, tgt)
                if st2 is not st:
                    raise Undecided('switch')
            elif k == 'return':
                v = self.content(st, ('L', fr.uid, 0))
                if v.op == 'bottom':
                    raise Dead()
                if v is UNINIT:
                    v = UNIT
                if len(st.frames) == 1:
                    self.add_row(st, 'ret', v)
                    return None
                self.pop(st, v)
            elif k == 'call':
                r = self.call_term(st, t, stack)
                if r is None:
                    return None
                if r == 'retry':
                    continue
            elif k == 'assert':
                if not self.soft_assert(st, t):
                    self.add_row(st, 'panic', S(t[3]))
                    return None
                self.goto(st, t[5])
            elif k == 'drop':
                self.goto(st, t[2])
            elif k == 'unreachable':
                return None
            else:
                raise Undecided('terminator ' + k)
            if node is not None and not any(n is node for _, _, n in st.loops):
                return ('leaf',)

    def goto(self, st, bb):
        fr = st.frames[-1]
        fr.bb = bb
        st.cont = None
        if st.loops:
            while st.loops:
                u, h, n = st.loops[-1]
                if u == fr.uid and bb not in fr.body.loops[h]:
                    st.loops = st.loops[:-1]
                else:
                    break

    def pop(self, st, v):
        fr = st.frames.pop()
        while st.loops and st.loops[-1][0] == fr.uid:
            st.loops = st.loops[:-1]
        # keep locals that something may still point to; gc drops the rest
        c = st.frames[-1]
        st.frames[-1] = c = Frame(c.body, c.uid, c.bb, c.dest, c.ret)
        self.store(st, fr.dest, v)
        if fr.ret is None:
            raise Dead()
        self.goto(st, fr.ret)

    def soft_assert(self, st, t):
        kind = t[3]
        if kind == 'bounds':
            ln = self.operand(st, t[4][0])
            ix = self.operand(st, t[4][1])
            if not self.soft_assume(st, ge0(ix)):
                return False
            c = lt(ix, ln)
        elif kind == 'overflow Sub':
            ty = self.optype(st, t[4][0]) or self.optype(st, t[4][1])
            if ty is not None and ty.get('s', '').startswith('i'):
                return True
            # a subtraction that may underflow is compared as the number it stands for
            l = le(self.operand(st, t[4][1]), self.operand(st, t[4][0]))
            d = st.pc.decide(l)
            if d is None:
                st.dom += (l,)
            return d is not False
        elif kind.startswith('overflow'):
            return True
        else:
            c = self.operand(st, t[1])
            if not t[2]:
                c = neg(c)
        return self.soft_assume(st, c)

    def soft_assume(self, st, c):
        d = st.pc.decide(c)
        if d is False:
            return False
        if d is None:
            p = st.pc.assume(c)
            if p is None:
                return False
            p.lits = st.pc.lits
            st.soft = st.soft + (c,)
            st.pc = p
        return True

    # -- branching
    def branch(self, st, cond):
        """[(truth, state)]; the first state is st itself"""
        al = split(st.pc, cond)
        out = []
        for i, (v, p) in enumerate(al):
            s = st if i == len(al) - 1 else st.fork()
            out.append((v, s, p))
        for v, s, p in out:
            s.pc = p
        return [(v, s) for v, s, p in reversed(out)]

    def switch(self, st, t):
        v = self.operand(st, t[1])
        if v.op == 'bottom':
            raise Dead()
        vals = t[2]
        other = t[3]
        ty = t[4]
        if v.op == 'int':
            for x, b in vals:
                if int(x) == v.args[0] or (v.args[0] < 0 and int(x) in (v.args[0] + 2 ** 8, v.args[0] + 2 ** 64)):
                    return [(st, b)]
            return [(st, other)]
        if v.op == 'bool':
            n = 1 if v.args[0] else 0
            for x, b in vals:
                if int(x) == n:
                    return [(st, b)]
            return [(st, other)]
        if v.op == 'char':
            for x, b in vals:
                if int(x) == v.args[0]:
                    return [(st, b)]
            return [(st, other)]
        if v.op == 'discr':
            x = v.args[0]
            adt = v.args[1]
            a = self.prog.adts.get(adt) or self.shims.adts.get(adt)
            if x.op == 'agg':
                x = x
            if a is None:
                raise Undecided('unknown enum %s' % adt)
            allv = tuple(q['name'] for q in a['variants'])
            names = {int(q['discr']): q['name'] for q in a['variants'] if q['discr'] is not None}
            if adt == 'core::cmp::Ordering':
                names = {255: 'Less', -1: 'Less', 0: 'Equal', 1: 'Greater', 2 ** 128 - 1: 'Less', 2 ** 64 - 1: 'Less'}
            groups = []
            used = []
            for q, b in vals:
                nm = names.get(int(q))
                if nm is None:
                    continue
                used.append(nm)
                groups.append(((nm,), b))
            rest = tuple(n for n in allv if n not in used)
            if rest:
                groups.append((rest, other))
            merged = {}
            for ns, b in groups:
                merged.setdefault(b, []).extend(ns)
            return self.alts(st, [(isvar(x, tuple(sorted(ns)), allv), b) for b, ns in merged.items()])
        isb = ty is not None and ty.get('s') == 'bool'
        if isb:
            tb = other
            fb = other
            for x, b in vals:
                if int(x) == 0:
                    fb = b
                else:
                    tb = b
            if tb == fb:
                return [(st, tb)]
            return self.alts(st, [(v, tb), (neg(v), fb)])
        if ty is not None and ty.get('s') == 'char':
            conds = [(mk_eq(v, T('char', int(x))), b) for x, b in vals]
        else:
            conds = [(eq0(sub(v, I(int(x)))), b) for x, b in vals]
        out = []
        al = []
        negs = []
        for c, b in conds:
            al.append((mk_and(*(negs + [c])), b) if False else (c, b, list(negs)))
            negs.append(neg(c))
        res = []
        for c, b, ns in al:
            p = st.pc
            for n in ns:
                p = p.assume(n) if p is not None and st.pc.decide(n) is False else p
            p = p.assume(c) if p is not None else None
            if p is not None:
                res.append((p, b))
        p = st.pc
        for n in negs:
            p = p.assume(n)
            if p is None:
                break
        if p is not None:
            res.append((p, other))
        # merge alternatives with the same target
        return self.finish_alts(st, res)

    def alts(self, st, conds):
        res = []
        for c, b in conds:
            p = st.pc.assume(c)
            if p is not None:
                res.append((p, b))
        return self.finish_alts(st, res)

    def finish_alts(self, st, res):
        out = []
        for i, (p, b) in enumerate(res):
            s = st if i == 0 else st.fork()
            out.append((s, b, p))
        for s, b, p in out:
            s.pc = p
        # drop targets that are unreachable blocks
        good = [(s, b) for s, b, p in out]
        keep = []
        body = st.frames[-1].body
        for s, b in good:
            keep.append((s, b))
        return keep

    # ------------------------------------------------------------ calls
    def call_term(self, st, t, stack):
        f = t[1]
        fr = st.frames[-1]
        tys = t[6] if len(t) > 6 else [None] * len(t[2])
        args = [self.operand(st, a) for a in t[2]]
        dest = self.walk(st, t[3])
        if 'c' in f and f['c'] == 'fn':
            cal = f
        else:
            fv = self.operand(st, f)
            if fv.op == 'fn':
                cal = json.loads(fv.args[0])
            else:
                self.finish(st, dest, t[4], T('app', 'callptr', self.deep(st, fv), *[self.deep(st, a) for a in args]))
                return True
        return self.call(st, cal, args, tys, dest, t[4], t[5], stack)

    def finish(self, st, dest, target, v):
        self.store(st, dest, v)
        if target is None:
            raise Dead()
        self.goto(st, target)

    def call(self, st, cal, args, tys, dest, target, dty, stack):
        """returns None when the path ended, 'retry' on a jump, True otherwise"""
        res = models.apply(self, st, cal, args, tys, dty)
        if res is None:
            raise Undecided('call')
        kind = res[0]
        if kind == 'val':
            self.finish(st, dest, target, res[1])
            return True
        if kind == 'alts':
            outs = res[1]       # [(state, value) | (state, 'panic', msg)]
            first = True
            mine = None
            for o in outs:
                s = o[0]
                if len(o) == 3:
                    self.add_row(s, 'panic', o[2])
                    continue
                try:
                    self.finish(s, dest, target, o[1])
                except Dead:
                    continue
                if s is st:
                    mine = s
                else:
                    stack.append(s)
            return True if mine is not None else None
        if kind == 'panic':
            self.add_row(st, 'panic', res[1])
            return None
        if kind == 'exit':
            self.add_row(st, 'exit', res[1])
            return None
        if kind == 'body':
            self.push(st, res[1], res[2], dest, target)
            return True
        if kind == 'tail':
            # evaluate another call in place of this one
            return self.call(st, res[1], res[2], res[3], dest, target, res[4], stack)
        if kind == 'retry':
            return self.retry(st, res[1], res[2], dest, target)
        raise Undecided('call kind')

    def push(self, st, body, args, dest, target):
        if len(st.frames) >= self.maxdepth:
            raise Undecided('inline depth')
        body.analyse()
        c = st.frames[-1]
        # the caller is now waiting at its return block
        st.frames[-1] = Frame(c.body, c.uid, target if target is not None else c.bb, c.dest, c.ret)
        u = st.uid
        st.uid += 1
        st.frames.append(Frame(body, u, 0, dest, target))
        for i, a in enumerate(args):
            st.mem[('L', u, i + 1)] = a
        self.inlined.add(body.path)

    def retry(self, st, body, args, dest, target):
        """an element was rejected by a filter: go on with the next one.  When nothing but the
        iterator changed since the enclosing loop header, that is the next turn of that loop."""
        if st.loops:
            u, h, n = st.loops[-1]
            ix = [i for i, f in enumerate(st.frames) if f.uid == u]
            if ix:
                s2 = st.fork()
                s2.frames = s2.frames[:ix[0] + 1]
                f = s2.frames[-1]
                s2.frames[-1] = Frame(f.body, f.uid, h, f.dest, f.ret)
                self.gc(s2)
                it = args[0]
                ok = it.op == 'ref'
                if ok:
                    iroot = it.args[0]
                    for r, v in s2.mem.items():
                        hv = n.header_mem.get(r)
                        if hv is None:
                            hv = self.init(r) if r[0] in ('H', 'G') else None
                        if v is not hv and r != iroot:
                            ok = False
                            break
                if ok:
                    st.frames = s2.frames
                    st.mem = s2.mem
                    st.cont = None
                    return 'retry'
        self.push(st, body, args, dest, target)
        return True

    def straight(self, st, body, args):
        """value of a call whose body has a single path; None when it branches or has unknown effects"""
        s = st.copyframes()
        base = len(s.frames)
        try:
            c = s.frames[-1]
            u = s.uid
            s.uid += 1
            body.analyse()
            if body.headers:
                return None
            s.frames.append(Frame(body, u, 0, (('L', s.uid, -1), ()), 0))
            out = ('L', s.uid, -1)
            s.uid += 1
            for i, a in enumerate(args):
                s.mem[('L', u, i + 1)] = a
            n = 0
            while True:
                n += 1
                if n > 400:
                    return None
                fr = s.frames[-1]
                if fr.bb in fr.body.headers:
                    return None
                blk = fr.body.blocks[fr.bb]
                for q in blk['s']:
                    self.assign(s, q)
                t = blk['t']
                if t[0] == 'goto':
                    fr.bb = t[1]
                elif t[0] == 'drop':
                    fr.bb = t[2]
                elif t[0] == 'return':
                    v = self.content(s, ('L', fr.uid, 0))
                    s.frames.pop()
                    if len(s.frames) == base:
                        st.mem = s.mem
                        st.uid = s.uid
                        return v
                    d = s.frames[-1]
                    s.frames[-1] = Frame(d.body, d.uid, d.bb, d.dest, d.ret)
                    self.store(s, fr.dest, v)
                    s.frames[-1].bb = fr.ret
                elif t[0] == 'call':
                    dd = s.frames[-1]
                    s.frames[-1] = Frame(dd.body, dd.uid, dd.bb, dd.dest, dd.ret)
                    stack = []
                    p0 = s.pc
                    lp = s.loops
                    s.loops = ()
                    if self.call_term(s, t, stack) is not True or stack or s.pc is not p0:
                        return None
                    s.loops = lp
                else:
                    return None
        except (Undecided, Dead):
            return None

    def alloc(self, st, v):
        r = ('A', st.uid)
        st.uid += 1
        st.mem[r] = v
        return T('ref', r, ())

    def temp(self, st, v):
        """a place holding v"""
        r = ('L', st.uid, -1)
        st.uid += 1
        st.mem[r] = v
        return T('ref', r, ())


_hr = {}


def has_ref(t):
    c = t.cache
    if c is None or not isinstance(c, dict) or 'r' not in c:
        if t.op == 'ref':
            r = True
        else:
            r = any_ref(t.args)
        if c is None:
            t.cache = {'r': r}
        else:
            c['r'] = r
        return r
    return c['r']


def any_ref(args):
    for a in args:
        if isinstance(a, Term):
            if has_ref(a):
                return True
        elif isinstance(a, tuple):
            if any_ref(a):
                return True
    return False


def ref_roots(t, acc=None):
    if acc is None:
        acc = set()
    if not has_ref(t):
        return acc
    if t.op == 'ref':
        acc.add(t.args[0])
        return acc
    stack = [t.args]
    while stack:
        a = stack.pop()
        for x in a:
            if isinstance(x, Term):
                if has_ref(x):
                    if x.op == 'ref':
                        acc.add(x.args[0])
                        stack.append((x.args[1],))
                    else:
                        stack.append(x.args)
            elif isinstance(x, tuple):
                stack.append(x)
    return acc
