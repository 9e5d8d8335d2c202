"""Loader for the MIR fact dumps: bodies, control-flow facts and type facts."""
import glob
import gzip
import json
import os
import re


def strip_generics(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and (i == 0 or p[i - 1] != '-'):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.rstrip(':')


_kc = {}


def key_of(fn, trait, name):
    """short canonical key of a callee: Type::method or Trait::method"""
    k = (fn, trait)
    r = _kc.get(k)
    if r is not None:
        return r
    if trait:
        r = strip_generics(trait).split('::')[-1] + '::' + name
    else:
        m = re.search(r'::<impl ([^>]*(?:<.*>)?[^>]*)>::(\w+)$', fn)
        if m:
            t = m.group(1)
            if t.startswith('[') or t.startswith('&['):
                t = 'slice'
            t = strip_generics(t.lstrip('&')).split('::')[-1]
            r = t + '::' + m.group(2)
        else:
            ps = strip_generics(fn).split('::')
            r = '::'.join(ps[-2:])
    _kc[k] = r
    return r


def eta(b):
    """(callee, types of its arguments, type of its result) of a body that is `|a, b| f(a, b)`"""
    bl = [x for x in b.blocks if not x['u']]
    if len(bl) != 2 or bl[1]['t'][0] != 'return' or bl[1]['s']:
        return None
    t = bl[0]['t']
    if t[0] != 'call' or t[1].get('c') != 'fn' or t[3] != [0, []] or t[1]['fn'] == b.path:
        return None
    val = {}
    for i in range(2, b.nargs + 1):
        val[i] = i
    for s in bl[0]['s']:
        if len(s) != 3 or s[0][1] or not isinstance(s[1], list):
            return None
        rv = s[1]
        if rv[0] == 'use' and 'p' in rv[1] and not rv[1]['p'][1] and rv[1]['p'][0] in val:
            val[s[0][0]] = val[rv[1]['p'][0]]
        elif rv[0] == 'ref' and rv[2][1] == ['*'] and rv[2][0] in val:
            val[s[0][0]] = val[rv[2][0]]
        else:
            return None
    a = [val.get(o['p'][0]) if 'p' in o and not o['p'][1] else None for o in t[2]]
    if a != list(range(2, b.nargs + 1)):
        return None
    return t[1], t[6], t[5]


class Body:
    __slots__ = ('j', 'path', 'name', 'kind', 'nargs', 'blocks', 'locals', 'names', 'promoted',
                 'headers', 'loops', 'live', 'succ', 'impl', 'trait', 'titem', 'derived', 'vis', 'span', 'crate',
                 'taken', 'prog', '_size')

    def __init__(self, j, crate, prog):
        self.j = j
        self.prog = prog
        self.crate = crate
        self.path = j.get('path')
        self.name = j.get('name')
        self.kind = j.get('kind')
        self.nargs = j['args']
        self.blocks = j['blocks']
        self.locals = j['locals']
        self.names = {int(k): v for k, v in j['names'].items()}
        self.impl = j.get('impl')
        self.trait = j.get('trait')
        self.titem = j.get('titem')
        self.derived = j.get('derived')
        self.vis = j.get('vis')
        self.span = j['span']
        self.promoted = [Body(p, crate, prog) for p in j.get('promoted', [])]
        self.headers = None

    def size(self):
        return sum(1 for b in self.blocks if not b['u'])

    def analyse(self):
        if self.headers is not None:
            return
        n = len(self.blocks)
        succ = [term_succ(b['t']) for b in self.blocks]
        self.succ = succ
        # reachable, dfs, back edges
        order = []
        state = [0] * n
        back = []
        st = [(0, iter(succ[0]))]
        state[0] = 1
        while st:
            x, it = st[-1]
            for y in it:
                if state[y] == 0:
                    state[y] = 1
                    st.append((y, iter(succ[y])))
                    break
                elif state[y] == 1:
                    back.append((x, y))
            else:
                state[x] = 2
                order.append(x)
                st.pop()
        preds = [[] for _ in range(n)]
        for x in order:
            for y in succ[x]:
                preds[y].append(x)
        loops = {}
        for x, h in back:
            s = loops.setdefault(h, {h})
            work = [x]
            while work:
                z = work.pop()
                if z in s:
                    continue
                s.add(z)
                work.extend(preds[z])
        self.loops = loops
        self.headers = frozenset(loops)
        # liveness
        use = []
        dfn = []
        for b in self.blocks:
            u, d = set(), set()
            for s in b['s']:
                stmt_uses(s[1], u, d)
                place_def(s[0], u, d)
            term_uses(b['t'], u, d)
            use.append(u)
            dfn.append(d)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for x in order:
                o = set()
                for y in succ[x]:
                    o |= live[y]
                o = use[x] | (o - dfn[x])
                if o != live[x]:
                    live[x] = o
                    ch = True
        self.live = live


def term_succ(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    if k == 'drop':
        return [t[2]]
    return []


def pl_uses(p, u, d):
    if p[0] not in d:
        u.add(p[0])
    for e in p[1]:
        if e != '*' and e[0] == 'i' and e[1] not in d:
            u.add(e[1])


def op_uses(o, u, d):
    if 'p' in o and 'c' not in o:
        pl_uses(o['p'], u, d)


def stmt_uses(r, u, d):
    k = r[0]
    if k in ('use', 'repeat'):
        op_uses(r[1], u, d)
    elif k in ('ref', 'reborrow'):
        pl_uses(r[2], u, d)
    elif k == 'bin':
        op_uses(r[2], u, d)
        op_uses(r[3], u, d)
    elif k in ('un', 'cast'):
        op_uses(r[2], u, d)
    elif k == 'discr':
        pl_uses(r[1], u, d)
    elif k == 'agg':
        for o in r[2]:
            op_uses(o, u, d)


def place_def(p, u, d):
    if p[1]:
        pl_uses(p, u, d)
    else:
        d.add(p[0])


def term_uses(t, u, d):
    k = t[0]
    if k == 'switch':
        op_uses(t[1], u, d)
    elif k == 'call':
        op_uses(t[1], u, d)
        for o in t[2]:
            op_uses(o, u, d)
        place_def(t[3], u, d)
    elif k == 'assert':
        op_uses(t[1], u, d)
        for o in t[4]:
            op_uses(o, u, d)
    elif k == 'return':
        if 0 not in d:
            u.add(0)


class Program:
    def __init__(self, tag):
        self.tag = tag
        self.bodies = {}
        self.adts = {}
        self.altered = frozenset()
        self.etas = {}
        self.impls = {}      # (trait, self adt path, name) -> body path

    def add(self, j):
        crate = j['crate']
        if crate == 'build_script_build':
            return
        for b in j['bodies']:
            bd = Body(b, crate, self)
            self.bodies[bd.path] = bd
            if bd.trait and bd.impl and bd.titem:
                t = bd.impl
                while t['k'] == 'ref':
                    t = t['t']
                if t['k'] == 'adt':
                    self.impls.setdefault((strip_generics(bd.trait), t['p'], bd.name), bd.path)
        for p, a in j['adts'].items():
            o = self.adts.get(p)
            if o is None or (a['local'] and not o['local']):
                self.adts[p] = a

    def closure_name(self, p):
        """a closure whose code is not that of the reference gets a name of its own"""
        return 'closure:~' + p if p in self.altered else 'closure:' + p

    def forwards(self, p):
        """the function a closure without captures only passes its arguments on to, or None"""
        r = self.etas.get(p, 0)
        if r == 0:
            b = self.bodies.get(p)
            r = self.etas[p] = eta(b) if b is not None else None
        return r

    @staticmethod
    def load_dir(d, tag, extra=()):
        p = Program(tag)
        for f in sorted(glob.glob(os.path.join(d, '*.json'))) + list(extra):
            with open(f) as h:
                p.add(json.load(h))
        return p

    @staticmethod
    def load_gz(f, tag, extra=()):
        p = Program(tag)
        with gzip.open(f, 'rt') as h:
            for j in json.load(h):
                p.add(j)
        for e in extra:
            with open(e) as h:
                p.add(json.load(h))
        return p

    def variants(self, adt):
        a = self.adts.get(adt)
        if a is None:
            return None
        return tuple(v['name'] for v in a['variants'])


def strip_ref(t):
    while t and t['k'] == 'ref':
        t = t['t']
    return t


TRANSPARENT = ('Rc', 'Arc', 'Box', 'Ref', 'RefMut', 'RefCell', 'Cell', 'MaybeUninit', 'ManuallyDrop')


def strip_ptr(t):
    while t:
        if t['k'] == 'ref':
            t = t['t']
        elif t['k'] == 'adt' and t['p'].split('::')[-1] in TRANSPARENT and t['a']:
            t = t['a'][0]
        else:
            break
    return t


def tyname(t):
    t = strip_ptr(t)
    if t is None:
        return '?'
    if t['k'] == 'adt':
        return t['p']
    if t['k'] == 'o':
        return t['s']
    return t['k']
