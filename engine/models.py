"""Meaning of calls: standard-library operations over terms, dispatch to bodies, and opaque calls."""
import json

from mir import key_of, strip_generics, strip_ptr, strip_ref, tyname
from terms import *

INTS = ('usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128')
OPT = 'core::option::Option'
RES = 'core::result::Result'
ORD = 'core::cmp::Ordering'


def some(v):
    return T('agg', OPT, 'Some', (('0', v),))


NONE = T('agg', OPT, 'None', ())
OPTV = ('None', 'Some')
RESV = ('Err', 'Ok')


def ok(v):
    return T('agg', RES, 'Ok', (('0', v),))


def err(v):
    return T('agg', RES, 'Err', (('0', v),))


def it_(s, p=None):
    return T('agg', 'It', None, (('s', s), ('p', p if p is not None else I(0))))


def tup(*xs):
    return T('agg', 'tuple', None, tuple((str(i), x) for i, x in enumerate(xs)))


class C:
    """one call"""
    __slots__ = ('ex', 'st', 'cal', 'args', 'tys', 'dty', 'key')

    def load(self, v):
        return self.ex.load(self.st, self.ex.loc_of(self.st, v))

    def loc(self, v):
        return self.ex.loc_of(self.st, v)

    def val(self, i):
        """content behind argument i, through any chain of references"""
        t = self.ty(i)
        v = self.args[i]
        if t is None:
            return self.deepload(v)
        n = 0
        while n < 10:
            n += 1
            if t['k'] == 'ref':
                t = t['t']
            elif t['k'] == 'adt' and t['p'].split('::')[-1] in POINTERS and t['p'].split('::')[0] in ('core', 'alloc', 'std') and t['a']:
                t = [x for x in t['a'] if isinstance(x, dict) and x['k'] != 'life'][0] if isinstance(t['a'][0], dict) else None
                if t is None:
                    return self.deepload(v)
            elif t['k'] == 'o' and t['s'] not in INTS and t['s'] not in ('bool', 'char', 'str'):
                return self.deepload(v)
            else:
                break
            v = self.load(v)
        while v.op == 'ref' and n < 20:
            n += 1
            v = self.load(v)
        return v

    def deepload(self, v):
        n = 0
        while v.op == 'ref' and n < 10:
            v = self.load(v)
            n += 1
        if v.op not in ('agg', 'int', 'str', 'bool', 'cat', 'seq', 'with'):
            w = self.ex.load(self.st, self.ex.loc_of(self.st, v))
            n = 0
            while w.op == 'ref' and n < 10:
                w = self.load(w)
                n += 1
            v = w
        return v

    def deep(self, v):
        return self.ex.deep(self.st, v)

    def dval(self, i):
        return self.deep(self.val(i))

    def ty(self, i):
        return self.tys[i] if i < len(self.tys) and self.tys[i] is not None else None


def apply(ex, st, cal, args, tys, dty):
    c = C()
    c.ex, c.st, c.cal, c.args, c.tys, c.dty = ex, st, cal, args, tys, dty
    c.key = key_of(cal['fn'], cal['trait'], cal['name'])
    return dispatch(c)


def find_body(ex, path):
    if path is None:
        return None
    return ex.prog.bodies.get(path) or (ex.shims.bodies.get(path) if ex.shims else None)


def adt_of(t):
    t = strip_ptr(t) if t else None
    return t['p'] if t and t['k'] == 'adt' else None


def shim(c, name, args=None):
    b = c.ex.shims.bodies.get('shims::' + name)
    if b is None:
        return None
    return ('body', b, list(c.args if args is None else args))


def dispatch(c):
    ex, st, cal = c.ex, c.st, c.cal
    key = c.key
    trait = cal['trait']
    body = find_body(ex, cal['res'])
    # constructors used as functions
    if body is None and trait is None:
        r = ctor(c)
        if r is not None:
            return r
    local_trait_default = body is not None and trait is not None and cal['res'] == cal['fn']
    if trait:
        h = TRAITS.get(key)
        if h is not None:
            r = h(c, body)
            if r is not None:
                return r
            if body is None:
                body = find_body(ex, c.cal['res'])
    if body is None and trait and ex.keep is not None and cal['fn'] not in ex.keep and not is_std(cal['fn'], trait):
        # a new method of a trait, which no implementation replaces
        own = ex.prog.bodies.get(cal['fn'])
        if own is not None and not any(k[0] == trait and k[2] == cal['name'] for k in ex.prog.impls):
            body = own
    if body is not None:
        if body.path.startswith('shims::retry_'):
            return ('retry', body, c.args)
        return call_body(c, body)
    h = FUNCS.get(key)
    if h is not None and is_std(cal['fn'], trait):
        r = h(c)
        if r is not None:
            return r
    # shim by naming convention
    if is_std(cal['fn'], trait):
        tn = key.split('::')[0]
        nm = {'Iterator': 'iterator_', 'Option': 'option_', 'Result': 'result_', 'Ordering': 'ordering_',
              'bool': 'bool_', 'Peekable': 'peekable_', 'DoubleEndedIterator': 'iterator_', 'sources': 'iter_'}.get(tn)
        if nm is not None:
            b = ex.shims.bodies.get('shims::' + nm + cal['name'])
            if b is not None:
                args = list(c.args)
                if cal['name'] in ('chain', 'zip') and len(args) == 2:
                    j = to_iter(c, args[1], c.ty(1))
                    if j is not None:
                        args[1] = j
                return ('body', b, args)
    return opaque(c)


def is_std(fn, trait):
    p = trait or fn
    return p.lstrip('<&').split('::')[0] in ('core', 'alloc', 'std')


def ctor(c):
    p = strip_generics(c.cal['fn'])
    ps = p.split('::')
    if len(ps) >= 2:
        a = c.ex.prog.adts.get('::'.join(ps[:-1]))
        if a and a['kind'] == 'enum':
            for v in a['variants']:
                if v['name'] == ps[-1] and len(v['fields']) == len(c.args):
                    return ('val', agg('::'.join(ps[:-1]), ps[-1], zip([f[0] for f in v['fields']], c.args)))
        a = c.ex.prog.adts.get(p)
        if a and a['kind'] == 'struct' and len(a['variants'][0]['fields']) == len(c.args) and c.args:
            return ('val', agg(p, None, zip([f[0] for f in a['variants'][0]['fields']], c.args)))
    return None


# ---------------------------------------------------------------- bodies and opaque calls
def call_body(c, body):
    ex = c.ex
    if body.path in ex.boundary or any(f.body is body for f in c.st.frames):
        if body.path in ex.boundary:
            ex.used_boundary.add(body.path)
        return opaque(c, body)
    return ('body', body, c.args)


def mutref(t):
    return t is not None and t['k'] == 'ref' and t['mut']


PURE_UNIT_OK = ()
TEXTS = set()       # calls known to return a String: displaying them changes nothing


def opaque(c, body=None):
    ex, st = c.ex, c.st
    name = body.path if body is not None else (c.cal['res'] or c.cal['fn'])
    if c.cal['trait'] and body is None:
        name = c.cal['fn']
    vals = tuple(c.deep(c.deepload(a) if (c.ty(i) is None or c.ty(i)['k'] == 'ref' or a.op == 'ref') else a) for i, a in enumerate(c.args))
    # what has been written to an open file so far is part of what the call is given
    vals = tuple(c.deep(ex.load(st, (('H', v), ()))) if is_handle(v) and mutref(c.ty(i)) else v for i, v in enumerate(vals))
    call = T('call', name, *vals)
    ex.unmodelled.add(name)
    if adt_of(c.dty) and adt_of(c.dty).split('::')[-1] == 'String' and c.dty['k'] == 'adt':
        TEXTS.add(call)
    outs = []
    interior = body is not None and ex.effects_of is not None and ex.effects_of(body.path)
    for i, a in enumerate(c.args):
        t = c.ty(i)
        if mutref(t) or (interior and i in interior):
            loc = c.loc(a)
            # follow pointers to pointers
            v = ex.load(st, loc)
            n = 0
            while v.op == 'ref' and n < 5:
                loc = (v.args[0], v.args[1])
                v = ex.load(st, loc)
                n += 1
            if is_handle(v):
                loc = (('H', v), ())
            ex.store(st, loc, T('out', i, call))
            outs.append(i)
    if body is not None and ex.io_of is not None and ex.io_of(body.path):
        ex_event(c, call)
    elif body is None and not outs and is_unit(c.dty) and c.cal['trait'] is not None:
        ex_event(c, call)
    elif body is None and c.cal['trait'] and c.cal['trait'].split('::')[-1] in ('ReportError',):
        ex_event(c, call)
    if ex.werr_mode and is_ioresult(c.dty) and (body is not None or any(mutref(c.ty(i)) for i in range(len(c.args)))):
        return may_fail(c, call, fld(call, 'Ok.0'))
    return ('val', call)


def is_unit(t):
    return t is not None and t['k'] == 'tuple' and not t['a']


def is_ioresult(t):
    return t is not None and t['k'] == 'adt' and t['p'] == RES and len(t['a']) == 2 and tyname(t['a'][1]).endswith('io::error::Error')


def ex_event(c, call):
    r = (('G', 'world'), ())
    cur = c.ex.load(c.st, r)
    c.ex.store(c.st, r, seqcat(cur, T('el', call)))


# ---------------------------------------------------------------- helpers
def fork2(c, cond, yes, no):
    """alternatives of a condition; yes / no map a state-bound call to a value or a panic"""
    ex = c.ex
    outs = []
    for v, s in ex.branch(c.st, cond):
        d = C()
        d.ex, d.st, d.cal, d.args, d.tys, d.dty, d.key = ex, s, c.cal, c.args, c.tys, c.dty, c.key
        r = (yes if v else no)(d)
        if isinstance(r, tuple) and r[0] == 'panic':
            outs.append((s, 'panic', r[1]))
        elif isinstance(r, tuple) and r[0] == 'alts':
            outs.extend(r[1])
        else:
            outs.append((s, r))
    return ('alts', outs)


def prim(t):
    t = strip_ptr(t) if t else None
    return t['s'] if t and t['k'] == 'o' else None


def is_int_ty(t):
    return prim(t) in INTS


def cast_body(c, trait, name, t):
    """body of a local impl of trait::name for type t"""
    a = adt_of(t)
    if a is None:
        return None
    p = c.ex.prog.impls.get((trait, a, name))
    return c.ex.prog.bodies.get(p) if p else None


def values_type(c, i):
    return strip_ptr(c.ty(i)) if c.ty(i) else None


# ---------------------------------------------------------------- comparison
def t_eq(c, body):
    a, b = c.val(0), c.val(1)
    t = values_type(c, 0)
    if t is None or (t['k'] == 'o' and t['s'] not in INTS and t['s'] not in ('bool', 'char', 'str')):
        t = strip_ptr(c.cal['self']) if c.cal['self'] else t
    r = eq_val(c, a, b, t, body)
    if r is None:
        return None
    if isinstance(r, tuple):
        return r
    return ('val', r if c.cal['name'] == 'eq' else neg(r))


def eq_val(c, a, b, t, body=None):
    a, b = c.deep(a), c.deep(b)
    if is_int_ty(t):
        return eq0(sub(a, b))
    adt = adt_of(t)
    if adt is not None:
        ad = c.ex.prog.adts.get(adt)
        if ad is not None and ad['local']:
            bd = cast_body(c, 'core::cmp::PartialEq', 'eq', t)
            if bd is not None and not bd.derived:
                if a is b:
                    return TRUE
                if c.cal['name'] != 'eq':
                    return neg(T('eq', *sorted((a, b), key=lambda x: x.uid)))
                return call_body(c, bd)
    return typed_eq(c.ex.prog, a, b, t)


def typed_eq(prog, a, b, t, d=0):
    """structural equality, numeric where the type says so"""
    t = strip_ptr(t) if isinstance(t, dict) else t
    if a is b:
        return TRUE
    if t is None or d > 6:
        return mk_eq(a, b)
    if isinstance(t, str):
        return eq0(sub(a, b)) if t in INTS else mk_eq(a, b)
    if is_int_ty(t):
        return eq0(sub(a, b))
    if t['k'] == 'tuple':
        ts = t.get('a') or t.get('t') or []
        if ts and (a.op == 'agg' or b.op == 'agg'):
            return mk_and(*[typed_eq(prog, fld(a, str(i)), fld(b, str(i)), x, d + 1) for i, x in enumerate(ts)])
        return mk_eq(a, b)
    adt = adt_of(t)
    ad = prog.adts.get(adt) if adt else None
    if ad is None:
        return mk_eq(a, b)

    def fty(ft):
        if ft in INTS:
            return ft
        if len(ft) <= 2 and t.get('a') and ft in ('T', 'E'):
            i = 1 if ft == 'E' else 0
            return t['a'][i] if i < len(t['a']) else None
        return None
    if ad['kind'] == 'enum' and (a.op == 'agg' or b.op == 'agg'):
        x, y = (a, b) if b.op == 'agg' else (b, a)
        tys = {n: fty(ty) for v in ad['variants'] if v['name'] == y.args[1] for n, ty in v['fields']}
        if x.op == 'agg':
            if x.args[1] != y.args[1]:
                return FALSE
            return mk_and(*[typed_eq(prog, p[1], q[1], tys.get(q[0]), d + 1) for p, q in zip(x.args[2], y.args[2])])
        allv = prog.variants(adt)
        g = isvar(x, (y.args[1],), allv)
        return mk_and(g, *[typed_eq(prog, fld(x, y.args[1] + '.' + n), v, tys.get(n), d + 1) for n, v in y.args[2]])
    return mk_eq(a, b)


def t_cmp(c, body):
    name = c.cal['name']
    a, b = c.dval(0), c.dval(1)
    t = values_type(c, 0)
    adt = adt_of(t)
    if body is not None and not body.derived and name in ('cmp', 'partial_cmp'):
        return None
    ad = c.ex.prog.adts.get(adt) if adt else None
    if ad is not None and ad['local'] and name in ('cmp', 'partial_cmp'):
        bd = cast_body(c, 'core::cmp::Ord', 'cmp', t)
        if bd is not None and not bd.derived and name == 'cmp':
            return call_body(c, bd)
    if is_int_ty(t):
        if name in ('lt', 'le', 'gt', 'ge'):
            r = {'lt': lambda: lt(a, b), 'le': lambda: le(a, b), 'gt': lambda: lt(b, a), 'ge': lambda: le(b, a)}[name]()
            return ('val', r)
        if name in ('cmp', 'partial_cmp'):
            w = (lambda x: some(x)) if name == 'partial_cmp' else (lambda x: x)
            o = lambda v: T('agg', ORD, v, ())
            return fork2(c, lt(a, b), lambda d: w(o('Less')),
                         lambda d: fork2(d, eq0(sub(a, b)), lambda e: w(o('Equal')), lambda e: w(o('Greater'))))
        if name in ('max', 'min'):
            return fork2(c, le(a, b), lambda d: b if name == 'max' else a, lambda d: a if name == 'max' else b)
    allv = ('Equal', 'Greater', 'Less')
    if name == 'cmp':
        return ('val', T('cmp', a, b))
    if name == 'partial_cmp':
        return ('val', some(T('cmp', a, b)))
    x = T('cmp', a, b)
    sel = {'lt': ('Less',), 'le': ('Equal', 'Less'), 'gt': ('Greater',), 'ge': ('Equal', 'Greater')}.get(name)
    if sel:
        return ('val', isvar(x, sel, allv))
    if name in ('max', 'min') and len(c.args) == 2:
        return fork2(c, isvar(x, ('Greater',), allv), lambda d: a if name == 'max' else b, lambda d: b if name == 'max' else a)
    return None


# ---------------------------------------------------------------- pointers, clone, conversions
POINTERS = ('Rc', 'Arc', 'Box', 'Ref', 'RefMut')


def t_deref(c, body):
    if body is not None:
        # lazy_static: the static itself
        if 'lazy_static' in (c.cal['res'] or '') or c.cal['name'] == 'deref':
            a = adt_of(c.cal['self'])
            if a and any(p.startswith('<%s as lazy_static' % a) for p in c.ex.prog.bodies):
                return ('val', T('static', a))
        return None
    t = strip_ref(c.cal['self'])
    n = t['p'].split('::')[-1] if t and t['k'] == 'adt' else None
    if n in POINTERS:
        v = c.load(c.args[0])
        if n in ('Rc', 'Arc'):
            b = unwith(v)
            if b.op == 'fld' and b not in c.st.rcs:
                c.st.rcs = c.st.rcs | {b}
        return ('val', v)
    return ('val', c.args[0])


def t_clone(c, body):
    if body is not None and not body.derived:
        return None
    t = c.cal['self']
    v = c.load(c.args[0])
    return ('val', v)


def ident(c, body=None):
    return ('val', c.args[0])


def ident_load(c, body=None):
    return ('val', c.load(c.args[0]))


def text(v):
    return v


def disp(c, v, t, dbg=False):
    """text that Display (or Debug) gives for a value"""
    n = 0
    while v.op == 'ref' and n < 10:
        v = c.load(v)
        n += 1
    if v.op not in ('agg', 'int', 'str', 'bool', 'cat', 'seq'):
        v = c.deepload(v)
    v = c.deep(v)
    if dbg:
        return T('dbg', v)
    if v.op == 'int':
        return S(str(v.args[0]))
    if v.op == 'char':
        return S(chr(v.args[0]))
    if v.op in ('str', 'cat'):
        return v
    p = prim(t)
    a = adt_of(t)
    if p == 'str' or (a and a.split('::')[-1] in ('String', 'Cow')):
        return v
    if a and a.split('::')[-1] == 'Arguments' or v in TEXTS:
        return v
    return T('disp', v)


def t_to_string(c, body):
    return ('val', disp(c, c.args[0], c.ty(0) if prim(c.ty(0)) or adt_of(c.ty(0)) else c.cal['self']))


def t_from(c, body):
    if body is not None:
        return None
    dt = c.dty
    a = adt_of(dt)
    src = c.ty(0)
    if src is not None and dt['k'] == 'adt' and dt['p'] in ('core::cell::RefCell', 'core::cell::Cell') and same_type(dt['a'][0], src):
        return ('val', c.args[0])
    if a is not None:
        ad = c.ex.prog.adts.get(a)
        # a local conversion
        bd = find_from(c, a, src)
        if bd is not None:
            return call_body(c, bd)
        last = a.split('::')[-1]
        if last in ('String', 'PathBuf', 'Cow', 'Vec', 'OsString'):
            return ('val', c.deepload(c.args[0]) if c.args[0].op == 'ref' else c.args[0])
        if strip_ref(dt)['k'] == 'adt' and strip_ref(dt)['p'].split('::')[-1] in ('Rc', 'Arc', 'Box') and same_type(strip_ptr(dt), src):
            return ('val', c.ex.alloc(c.st, c.args[0]))
        if src is not None and same_type(dt, src):
            return ('val', c.args[0])
        if last in ('BTreeSet', 'HashSet', 'BTreeMap', 'HashMap'):
            return from_iter(c, dt, c.args[0], src)
    if src is not None and same_type(dt, src):
        return ('val', c.args[0])
    if is_int_ty(dt) and src is not None and is_int_ty(src):
        return ('val', c.args[0])
    return None


def same_type(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def tystr(t):
    if t is None:
        return '?'
    k = t['k']
    if k == 'ref':
        return '&' + ('mut ' if t['mut'] else '') + tystr(t['t'])
    if k == 'adt':
        a = [x for x in t['a'] if tyname(x) != 'alloc::alloc::Global']
        return t['p'] + ('<' + ', '.join(tystr(x) for x in a) + '>' if a else '')
    if k == 'tuple':
        return '(' + ', '.join(tystr(x) for x in t['a']) + ')'
    if k == 'o':
        return t['s']
    return k


def find_from(c, adt, src):
    if src is None:
        return None
    want = 'core::convert::From<%s>' % tystr(src)
    for p, b in c.ex.prog.bodies.items():
        if b.name == 'from' and b.impl is not None and adt_of(b.impl) == adt and b.trait and want.replace(' ', '') in p.replace(' ', ''):
            return b
    cands = [b for b in c.ex.prog.bodies.values()
             if b.name == 'from' and b.impl is not None and adt_of(b.impl) == adt and tyname(b.locals[1]) == tyname(src)]
    if len(cands) == 1:
        return cands[0]
    return None


def t_into(c, body):
    if body is not None:
        return None
    return t_from(c, None)


# ---------------------------------------------------------------- ? operator
def t_branch(c, body):
    v = c.args[0]
    t = c.ty(0) or c.cal['self']
    CF = 'core::ops::control_flow::ControlFlow'
    isres = adt_of_direct(t) == RES
    if not isres and adt_of_direct(t) != OPT:
        isres = v.op == 'agg' and v.args[0] == RES
    good, bad = ('Ok', 'Err') if isres else ('Some', 'None')
    allv = RESV if isres else OPTV

    def yes(d):
        return T('agg', CF, 'Continue', (('0', fld(v, good + '.0')),))

    def no(d):
        return T('agg', CF, 'Break', (('0', err(fld(v, 'Err.0')) if isres else NONE),))
    return fork2(c, isvar(v, (good,), allv), yes, no)


def adt_of_direct(t):
    t = strip_ref(t) if t else None
    return t['p'] if t and t['k'] == 'adt' else None


def t_from_residual(c, body):
    v = c.args[0]
    if adt_of_direct(c.dty) == OPT:
        return ('val', NONE)
    if v.op == 'agg' and v.args[1] == 'Err':
        e = v.args[2][0][1]
        src = c.ty(0)
        se = src['a'][1] if src and src['k'] == 'adt' and len(src['a']) == 2 else None
        de = c.dty['a'][1] if c.dty and c.dty['k'] == 'adt' and len(c.dty['a']) == 2 else None
        if se is None or de is None or same_type(se, de):
            return ('val', err(e))
        a = adt_of(de)
        bd = find_from(c, a, se) if a else None
        if bd is not None:
            # From::from then wrap: evaluated through the shim map_err with the conversion as function
            b = c.ex.shims.bodies['shims::result_map_err']
            fn = {'c': 'fn', 'fn': bd.path, 'name': 'from', 'trait': None, 'self': None, 'res': bd.path, 'impl': None, 'ta': []}
            return ('body', b, [v, T('fn', json.dumps(fn, sort_keys=True))])
        return ('val', err(T('call', 'core::convert::From::from', c.deep(e))))
    return ('val', v)


# ---------------------------------------------------------------- closures
def t_call(c, body):
    f = c.args[0]
    n = 0
    while f.op == 'ref' and n < 8:
        f2 = c.load(f)
        if f2.op == 'ref' or (f2.op == 'agg' and f2.args[0].startswith('closure:')) or f2.op == 'fn':
            if f2.op != 'ref':
                break
        f = f2
        n += 1
    fv = c.load(f) if f.op == 'ref' else f
    if fv.op not in ('agg', 'fn'):
        fv = c.deepload(fv)
    a = c.args[1]
    if a is UNIT:
        args = []
    elif a.op == 'agg':
        args = [x for _, x in a.args[2]]
    else:
        return None
    if fv.op == 'fn':
        cal = json.loads(fv.args[0])
        tt = c.ty(1)
        tys = tt['a'] if tt and tt['k'] == 'tuple' else [None] * len(args)
        tys, dty = c.ex.fntys.get(fv, (tys, c.dty))
        bd = find_body(c.ex, cal['res'])
        if bd is not None:
            tys = bd.locals[1:1 + bd.nargs]
        return ('tail', cal, args, tys, dty)
    if fv.op == 'agg' and isinstance(fv.args[0], str) and fv.args[0].startswith('closure:'):
        b = find_body(c.ex, fv.args[0][8:].lstrip('~'))
        if b is None:
            return None
        if b.locals[1]['k'] == 'ref':
            env = f if f.op == 'ref' else c.ex.temp(c.st, fv)
        else:
            env = fv
        if any(fr.body is b for fr in c.st.frames):
            return None
        return ('body', b, [env] + args)
    return ('val', T('call', 'apply', c.deep(fv), *[c.deep(x) for x in args]))


# ---------------------------------------------------------------- iteration
def seq_of(c, v, t):
    """element sequence of a container given its type (v: content)"""
    t = strip_ptr(t) if t else None
    n = None
    if t is not None:
        if t['k'] == 'adt':
            n = t['p'].split('::')[-1]
        elif t['k'] in ('slice', 'array'):
            n = 'Vec'
    if n is None or n not in ('Vec', 'VecDeque', 'BTreeMap', 'BTreeSet', 'HashMap', 'HashSet', 'Option', 'Range', 'RangeInclusive'):
        if v.op in ('emptymap', 'mset', 'mdel'):
            n = 'BTreeMap'
        elif v.op in ('emptyset', 'sadd', 'sdel', 'union', 'sdiff', 'sinter'):
            n = 'BTreeSet'
        elif v.op == 'agg' and v.args[0] == OPT:
            n = 'Option'
        elif v.op == 'agg' and v.args[0].endswith('::Range'):
            n = 'Range'
        elif v.op == 'seq':
            n = 'Vec'
        elif n is None:
            n = 'Vec'
    if n in ('Vec', 'VecDeque'):
        return v
    if n == 'BTreeMap':
        return T('pairs', v)
    if n == 'BTreeSet':
        return T('elems', v)
    if n in ('HashMap', 'HashSet'):
        return T('hashorder', v)
    if n == 'Range':
        return T('range', fld(v, 'start'), fld(v, 'end'))
    if n == 'RangeInclusive':
        return T('range', fld(v, 'start'), add(fld(v, 'end'), I(1)))
    if n == 'Option':
        return ('opt', v)
    return None


def is_iter(v):
    return v.op == 'agg' and isinstance(v.args[0], str) and (v.args[0] in ('It', 'ItM') or v.args[0].startswith('shims::'))


def to_iter(c, v, t):
    """value of v.into_iter()"""
    if is_iter(v):
        return v
    if v.op == 'ref':
        w = c.load(v)
        if is_iter(w):
            return v
    if t is not None and t['k'] == 'ref' and t['mut'] and strip_ref(t)['k'] in ('adt', 'slice', 'array'):
        tt = strip_ref(t)
        if tt['k'] != 'adt' or tt['p'].split('::')[-1] in ('Vec', 'VecDeque'):
            return itm(c, v)
    if t is not None:
        tn = strip_ref(t)
        if tn['k'] == 'adt' and c.ex.prog.adts.get(tn['p'], {}).get('local'):
            return None
    x = c.deepload(v)
    s = seq_of(c, x, t)
    if s is None:
        return None
    if isinstance(s, tuple):
        return T('agg', 'shims::OptIter', None, (('o', s[1]),))
    return it_(s)


def itm(c, v):
    loc = c.loc(v)
    x = c.ex.load(c.st, loc)
    while x.op == 'ref':
        loc = (x.args[0], x.args[1])
        x = c.ex.load(c.st, loc)
    return T('agg', 'ItM', None, (('r', c.ex.mkref(loc)), ('p', I(0))))


def t_into_iter(c, body):
    if body is not None and not body.path.startswith('shims'):
        return None
    r = to_iter(c, c.args[0], c.ty(0) if c.ty(0) is not None and c.ty(0)['k'] != 'o' else c.cal['self'])
    if r is None:
        return None
    return ('val', r)


def t_next(c, body):
    if body is not None and not body.path.startswith('shims'):
        return None
    loc = c.loc(c.args[0])
    v = c.ex.load(c.st, loc)
    n = 0
    while v.op == 'ref' and n < 8:
        loc = (v.args[0], v.args[1])
        v = c.ex.load(c.st, loc)
        n += 1
    if v.op != 'agg':
        v = it_(T('items', v))
        c.ex.store(c.st, loc, v)
    a = v.args[0]
    back = c.cal['name'] == 'next_back'
    if a == 'It':
        s, p = fld(v, 's'), fld(v, 'p')
        if back:
            ln = length(s)

            def yes(d):
                e = index(s, sub(ln, I(1)))
                d.ex.store(d.st, loc, T('agg', 'It', None, (('s', slice_(s, I(0), sub(ln, I(1)))), ('p', p))))
                return some(e)
            return fork2(c, lt(p, ln), yes, lambda d: NONE)

        def yes(d):
            e = index(s, p)
            if p.op == 'int' and s.op == 'seq' and s.args[0].op == 'el' and p.args[0] + 1 == len(s.args[0].args):
                # past the spelled-out elements
                d.ex.store(d.st, loc, it_(seqcat(*s.args[1:])))
            else:
                d.ex.store(d.st, (loc[0], loc[1] + (('f', 'p'),)), add(p, I(1)))
            return some(e)
        return fork2(c, lt(p, length(s)), yes, lambda d: NONE)
    if a == 'ItM':
        r, p = fld(v, 'r'), fld(v, 'p')
        l2 = c.loc(r)
        s = c.ex.load(c.st, l2)

        def yes(d):
            d.ex.store(d.st, (loc[0], loc[1] + (('f', 'p'),)), add(p, I(1)))
            return some(d.ex.mkref((l2[0], l2[1] + (('i', p),))))
        return fork2(c, lt(p, length(s)), yes, lambda d: NONE)
    if a.startswith('shims::'):
        import re
        nm = re.sub(r'(?<!^)([A-Z])', r'_\1', a[7:]).lower() + ('_next' if not back else '_next_back')
        b = c.ex.shims.bodies.get('shims::' + nm)
        if b is not None:
            return ('body', b, [c.ex.mkref(loc)])
        return None
    if a.endswith('::Range'):
        v2 = it_(T('range', fld(v, 'start'), fld(v, 'end')))
        c.ex.store(c.st, loc, v2)
        return t_next(c, body)
    bd = c.ex.prog.impls.get(('core::iter::traits::iterator::Iterator', a, 'next'))
    if bd:
        return ('body', c.ex.prog.bodies[bd], [c.ex.mkref(loc)])
    return None


def t_collect(c, body):
    if body is not None and not body.path.startswith('shims'):
        return None
    return from_iter(c, c.dty, c.args[0], c.ty(0))


def t_from_iter(c, body):
    if body is not None:
        return None
    return from_iter(c, c.dty if c.dty else c.cal['self'], c.args[0], c.ty(0))


def base_seq(v):
    """the whole element sequence of a fresh plain iterator"""
    if v.op == 'agg' and v.args[0] == 'It' and fld(v, 'p') is I(0):
        return fld(v, 's')
    return None


def from_iter(c, dty, it, ity):
    dn = adt_of_direct(dty)
    j = to_iter(c, it, ity)
    if j is None:
        j = it
    last = dn.split('::')[-1] if dn else None
    ad = c.ex.prog.adts.get(dn) if dn else None
    if ad is not None and ad['local']:
        bd = c.ex.prog.impls.get(('core::iter::traits::collect::FromIterator', dn, 'from_iter'))
        if bd:
            return call_body_args(c, c.ex.prog.bodies[bd], [j])
        return None
    s = base_seq(j)
    if last in ('Vec', 'VecDeque', 'Box', 'Rc', 'Arc'):
        if s is not None and s.op != 'hashorder':
            return ('val', s)
        return shim(c, 'collect_vec', [j])
    if last in ('BTreeSet', 'HashSet'):
        if s is not None:
            if s.op == 'elems':
                return ('val', s.args[0])
            if s.op == 'seq' and all(p.op == 'el' for p in s.args):
                r = EMPTYSET
                for p in s.args:
                    for e in p.args:
                        r = sadd(r, c.deep(e))
                return ('val', r)
            return ('val', T('setof', c.deep(s)))
        return shim(c, 'collect_set', [j])
    if last in ('BTreeMap', 'HashMap'):
        if s is not None and s.op == 'pairs':
            return ('val', s.args[0])
        return shim(c, 'collect_map', [j])
    if last == 'String':
        return shim(c, 'collect_string', [j])
    if dn == RES:
        inner = adt_of_direct(dty['a'][0])
        if inner and inner.split('::')[-1] == 'Vec':
            return shim(c, 'collect_result_vec', [j])
        if is_unit(dty['a'][0]):
            return shim(c, 'collect_result_unit', [j])
    if dn == OPT:
        return shim(c, 'collect_option_vec', [j])
    return None


def call_body_args(c, body, args):
    if body.path in c.ex.boundary:
        c.args = args
        return opaque(c, body)
    return ('body', body, args)


def t_cloned(c, body):
    return ('val', c.args[0])


def t_rev(c, body):
    v = c.args[0]
    if v.op == 'agg' and v.args[0] == 'It':
        s, p = fld(v, 's'), fld(v, 'p')
        if p is I(0):
            if s.op == 'rev':
                return ('val', it_(s.args[0]))
            return ('val', it_(T('rev', s)))
    if v.op == 'agg' and v.args[0] in ('shims::Map', 'shims::Filter'):
        i = fld(v, 'it')
        if i.op == 'agg' and i.args[0] == 'It' and fld(i, 'p') is I(0):
            return ('val', with_(v, 'it', it_(T('rev', fld(i, 's')))))
    if v.op == 'agg' and v.args[0].endswith('::Range'):
        return ('val', it_(T('rev', T('range', fld(v, 'start'), fld(v, 'end')))))
    return None


def t_len_exact(c, body):
    v = c.val(0)
    if v.op == 'agg' and v.args[0] == 'It':
        return ('val', sub(length(fld(v, 's')), fld(v, 'p')))
    return None


def t_count(c, body):
    s = base_seq(c.args[0])
    if s is not None:
        return ('val', length(s))
    return None


def t_chain(c, body):
    a = c.args[0]
    b = to_iter(c, c.args[1], c.ty(1))
    if b is not None:
        sa, sb = base_seq(a), base_seq(b)
        if sa is not None and sb is not None:
            return ('val', it_(seqcat(sa, sb)))
        return shim(c, 'iterator_chain', [a, b])
    return None


def t_last(c, body):
    s = base_seq(c.args[0])
    if s is not None:
        return fork2(c, lt(I(0), length(s)), lambda d: some(index(s, sub(length(s), I(1)))), lambda d: NONE)
    return None


def t_nth(c, body):
    return None


def t_extend(c, body):
    if body is not None and not body.path.startswith('shims'):
        return None
    t = strip_ref(c.ty(0)) if c.ty(0) else strip_ref(c.cal['self'])
    n = t['p'].split('::')[-1] if t and t['k'] == 'adt' else None
    j = to_iter(c, c.args[1], c.ty(1))
    if j is None:
        return None
    if n in ('Vec', 'VecDeque'):
        s = base_seq(j)
        if s is not None:
            loc = c.loc(c.args[0])
            c.ex.store(c.st, loc, seqcat(c.ex.load(c.st, loc), s))
            return ('val', UNIT)
        return shim(c, 'vec_extend', [c.args[0], j])
    if n in ('BTreeSet', 'HashSet'):
        s = base_seq(j)
        if s is not None and s.op == 'elems':
            loc = c.loc(c.args[0])
            c.ex.store(c.st, loc, union(c.ex.load(c.st, loc), s.args[0]))
            return ('val', UNIT)
        return shim(c, 'set_extend', [c.args[0], j])
    if n in ('BTreeMap', 'HashMap'):
        return shim(c, 'map_extend', [c.args[0], j])
    if n == 'String':
        return shim(c, 'string_extend', [c.args[0], j])
    return None


# ---------------------------------------------------------------- default
def default_of(c, t):
    t = t if t else {'k': 'o', 's': '?'}
    k = t['k']
    if k == 'o':
        if t['s'] in INTS:
            return I(0)
        if t['s'] == 'bool':
            return FALSE
        if t['s'] == 'char':
            return T('char', 0)
    if k == 'tuple':
        xs = [default_of(c, x) for x in t['a']]
        if any(x is None for x in xs):
            return None
        return tup(*xs) if xs else UNIT
    if k == 'ref':
        return default_of(c, t['t'])
    if k == 'o' and t['s'] == 'str':
        return EMPTYSTR
    if k == 'adt':
        n = t['p'].split('::')[-1]
        if n == 'String' or n == 'PathBuf':
            return EMPTYSTR
        if n in ('Vec', 'VecDeque'):
            return EMPTYSEQ
        if n in ('BTreeMap', 'HashMap'):
            return EMPTYMAP
        if n in ('BTreeSet', 'HashSet'):
            return EMPTYSET
        if n == 'Option':
            return NONE
        if n in ('Cell', 'RefCell'):
            return default_of(c, t['a'][0])
        if n in ('Rc', 'Arc', 'Box'):
            v = default_of(c, t['a'][0])
            return c.ex.alloc(c.st, v) if v is not None else None
        bp = c.ex.prog.impls.get(('core::default::Default', t['p'], 'default'))
        bd = c.ex.prog.bodies.get(bp) if bp else None
        if bd is not None:
            v = c.ex.straight(c.st, bd, [])
            if v is not None:
                return v
            return T('call', bd.path)
    return None


def t_default(c, body):
    if body is not None:
        return None
    v = default_of(c, c.dty)
    if v is None:
        return ('val', T('call', 'default', T('ty', tystr(c.dty))))
    return ('val', v)


def fnref(p):
    return {'c': 'fn', 'fn': p, 'name': p.split('::')[-1], 'trait': None, 'self': None, 'res': p, 'impl': None, 'ta': []}


# ---------------------------------------------------------------- formatting
def parse_template(bs):
    """pieces of a format template: ('lit', text) or ('arg', index, spec)"""
    out = []
    i = 0
    nxt = 0
    n = len(bs)
    while i < n:
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(('lit', bs[i:i + b].decode('utf8', 'surrogateescape')))
            i += b
        elif b == 0x80:
            ln = bs[i] | (bs[i + 1] << 8)
            i += 2
            out.append(('lit', bs[i:i + ln].decode('utf8', 'surrogateescape')))
            i += ln
        else:
            spec = []
            ix = nxt
            if b & 1:
                spec.append(('flags', bs[i:i + 4].hex()))
                i += 4
            if b & 2:
                spec.append(('width', bs[i:i + 2].hex()))
                i += 2
            if b & 4:
                spec.append(('prec', bs[i:i + 2].hex()))
                i += 2
            if b & 8:
                ix = bs[i] | (bs[i + 1] << 8)
                i += 2
            if b & 0x30:
                spec.append(('dyn', b & 0x30))
            out.append(('arg', ix, tuple(spec)))
            nxt = ix + 1
    return out


def f_fmt_new(c):
    t = c.deepload(c.args[0])
    a = c.deepload(c.args[1])
    if t.op != 'str' or a.op != 'seq':
        return ('val', T('call', 'fmt', c.deep(t), c.deep(a)))
    elems = []
    for p in a.args:
        if p.op == 'el':
            elems.extend(p.args)
    pieces = []
    for q in parse_template(t.args[0].encode('utf8', 'surrogateescape')):
        if q[0] == 'lit':
            pieces.append(S(q[1]))
        else:
            x = elems[q[1]] if q[1] < len(elems) else T('opaque', 'fmtarg')
            if x.op == 'agg' and x.args[0] == 'fmtarg':
                x = x.args[2][0][1]
            pieces.append(T('spec', str(q[2]), x) if q[2] else x)
    return ('val', strcat(*pieces))


def f_fmt_display(c):
    return ('val', T('agg', 'fmtarg', None, (('t', disp(c, c.args[0], c.ty(0))),)))


def f_fmt_debug(c):
    return ('val', T('agg', 'fmtarg', None, (('t', disp(c, c.args[0], c.ty(0), True)),)))


def writer_loc(c, v):
    loc = c.loc(v)
    x = c.ex.load(c.st, loc)
    n = 0
    while x.op == 'ref' and n < 8:
        loc = (x.args[0], x.args[1])
        x = c.ex.load(c.st, loc)
        n += 1
    if is_handle(x):
        loc = (('H', x), ())
        x = c.ex.load(c.st, loc)
    return loc, x


def is_handle(x):
    """an open file: what is written to it outlives the variable that holds it"""
    return x.op == 'fld' and x.args[1] == 'Ok.0' and x.args[0].op == 'app' and x.args[0].args[0] in ('create', 'create_new', 'open')


def append(c, v, text_):
    loc, x = writer_loc(c, v)
    c.ex.store(c.st, loc, strcat(x, c.deep(text_)))


def io_result(c, v, fallible):
    if not (fallible and c.ex.werr_mode):
        return ('val', ok(UNIT))
    # a write may fail
    loc, x = writer_loc(c, v)
    return may_fail(c, T('app', 'write', x), UNIT)


def may_fail(c, what, good):
    """failing writes are looked at: the write that fails is remembered, and whether anything is written after it"""
    s = c.st
    if s.werr is not None:
        if s.werr.op != 'wafter':
            s.werr = T('wafter', s.werr)
        return ('val', T('iores', what))
    s2 = s.fork()
    s2.werr = w = T('werr', what)
    return ('alts', [(s, ok(good)), (s2, err(w))])


def buffering(c, on):
    if c.ex.werr_mode:
        c.ex.store(c.st, (('G', 'buffer'), ()), T('buffered') if on else T('flushed'))


def f_buf_writer(c):
    """a buffering writer is the writer it wraps; what is left in the buffer when it is dropped may be lost"""
    buffering(c, True)
    return ('val', c.args[-1])


def f_buf_into_inner(c):
    buffering(c, False)
    if c.ex.werr_mode:
        return may_fail(c, T('app', 'into_inner', c.args[0]), c.args[0])
    return ('val', ok(c.args[0]))


def f_sync(c):
    if c.ex.werr_mode:
        return may_fail(c, T('app', c.cal['name'], c.dval(0)), UNIT)
    return ('val', ok(UNIT))


def is_std_stream(c, v):
    loc, x = writer_loc(c, v)
    return loc[0][0] == 'G'


def t_write(c, body):
    """io::Write / fmt::Write"""
    if body is not None and c.cal['res'] != c.cal['fn']:
        return None
    nm = c.cal['name']
    fallible = c.cal['trait'].endswith('io::Write') or 'io' in c.cal['trait'].split('::')
    if nm in ('write_all', 'write_fmt', 'write_str', 'write_char'):
        std = is_std_stream(c, c.args[0])
        append(c, c.args[0], disp(c, c.args[1], {'k': 'o', 's': 'str'}) if nm != 'write_char' else chr_text(c.args[1]))
        return io_result(c, c.args[0], fallible and not std)
    if nm == 'flush':
        if fallible and not is_std_stream(c, c.args[0]):
            buffering(c, False)
            return io_result(c, c.args[0], True)
        return ('val', ok(UNIT))
    return None


def chr_text(v):
    return S(chr(v.args[0])) if v.op == 'char' else T('disp', v)


def f_formatter_write(c):
    append(c, c.args[0], disp(c, c.args[1], {'k': 'o', 's': 'str'}))
    return ('val', ok(UNIT))


def t_fmt(c, body):
    """Display::fmt called directly"""
    if c.cal['name'] != 'fmt':
        return None
    dbg = c.cal['trait'].endswith('Debug')
    append(c, c.args[1], disp(c, c.args[0], c.ty(0), dbg))
    return ('val', ok(UNIT))


# ---------------------------------------------------------------- texts
def f_push_str(c):
    append(c, c.args[0], c.dval(1))
    return ('val', UNIT)


def f_push_char(c):
    append(c, c.args[0], chr_text(c.args[1]))
    return ('val', UNIT)


def t_add_assign(c, body):
    if body is not None:
        return None
    t = strip_ref(c.ty(0)) if c.ty(0) else None
    if t and t['k'] == 'adt' and t['p'].endswith('String'):
        return f_push_str(c)
    if t and is_int_ty(t):
        loc = c.loc(c.args[0])
        c.ex.store(c.st, loc, add(c.ex.load(c.st, loc), c.dval(1)))
        return ('val', UNIT)
    return None


def t_add(c, body):
    if body is not None:
        return None
    t = c.ty(0)
    if t and adt_of(t) and adt_of(t).endswith('String'):
        return ('val', strcat(c.args[0], c.dval(1)))
    if is_int_ty(t):
        return ('val', add(c.dval(0), c.dval(1)))
    return None


def f_len(c):
    return ('val', length(c.val(0)))


def f_is_empty(c):
    return ('val', eq0(length(c.val(0))))


def pure(name):
    def f(c):
        vals = [c.dval(i) for i in range(len(c.args))]
        return ('val', T('app', name, *vals))
    return f


# ---------------------------------------------------------------- vectors
def vloc(c, i=0):
    loc, x = writer_loc(c, c.args[i])
    return loc, x


def f_push(c):
    loc, x = vloc(c)
    c.ex.store(c.st, loc, seqcat(x, T('el', c.args[1])))
    return ('val', UNIT)


def f_pop(c):
    loc, x = vloc(c)
    n = length(x)

    def yes(d):
        v = index(x, sub(n, I(1)))
        d.ex.store(d.st, loc, slice_(x, I(0), sub(n, I(1))))
        return some(v)
    return fork2(c, lt(I(0), n), yes, lambda d: NONE)


def f_vinsert(c):
    loc, x = vloc(c)
    i = c.args[1]
    c.ex.store(c.st, loc, seqcat(slice_(x, I(0), i), T('el', c.args[2]), slice_(x, i, length(x))))
    return ('val', UNIT)


def f_vremove(c):
    loc, x = vloc(c)
    i = c.args[1]
    v = index(x, i)
    c.ex.store(c.st, loc, seqcat(slice_(x, I(0), i), slice_(x, add(i, I(1)), length(x))))
    return ('val', v)


def f_truncate(c):
    loc, x = vloc(c)
    n = c.args[1]

    def yes(d):
        d.ex.store(d.st, loc, slice_(x, I(0), n))
        return UNIT
    return fork2(c, le(n, length(x)), yes, lambda d: UNIT)


def f_split_off(c):
    loc, x = vloc(c)
    n = c.args[1]
    if not c.ex.soft_assume(c.st, le(n, length(x))):
        return ('panic', S('split_off'))
    c.ex.store(c.st, loc, slice_(x, I(0), n))
    return ('val', slice_(x, n, length(x)))


def f_drain(c):
    loc, x = vloc(c)
    r = range_of(c.args[1], length(x))
    if r is None:
        return None
    c.ex.store(c.st, loc, seqcat(slice_(x, I(0), r[0]), slice_(x, r[1], length(x))))
    return ('val', it_(slice_(x, r[0], r[1])))


def f_clear(c):
    loc, x = vloc(c)
    t = strip_ref(c.ty(0))
    n = t['p'].split('::')[-1] if t and t['k'] == 'adt' else ''
    c.ex.store(c.st, loc, {'BTreeMap': EMPTYMAP, 'HashMap': EMPTYMAP, 'BTreeSet': EMPTYSET, 'HashSet': EMPTYSET,
                           'String': EMPTYSTR}.get(n, EMPTYSEQ))
    return ('val', UNIT)


def f_append(c):
    l1, x = vloc(c, 0)
    l2, y = vloc(c, 1)
    t = strip_ref(c.ty(0))
    if t and t['k'] == 'adt' and 'Set' in t['p']:
        c.ex.store(c.st, l1, union(x, y))
        c.ex.store(c.st, l2, EMPTYSET)
    else:
        c.ex.store(c.st, l1, seqcat(x, y))
        c.ex.store(c.st, l2, EMPTYSEQ)
    return ('val', UNIT)


def f_extend_from_slice(c):
    loc, x = vloc(c)
    c.ex.store(c.st, loc, seqcat(x, c.val(1)))
    return ('val', UNIT)


def elem_ref(c, i, ix):
    loc, x = vloc(c, i)
    if mutref(c.dty) or c.cal['name'].endswith('_mut'):
        return c.ex.mkref((loc[0], loc[1] + (('i', ix),)))
    return c.ex.mkref((loc[0], loc[1] + (('i', ix),))) if loc[0][0] != 'V' else index(x, ix)


def range_of(r, ln):
    if r.op == 'agg':
        n = r.args[0].split('::')[-1]
        if n == 'Range':
            return fld(r, 'start'), fld(r, 'end')
        if n == 'RangeFrom':
            return fld(r, 'start'), ln
        if n == 'RangeTo':
            return I(0), fld(r, 'end')
        if n == 'RangeFull':
            return I(0), ln
        if n == 'RangeInclusive':
            return fld(r, 'start'), add(fld(r, 'end'), I(1))
        if n == 'RangeToInclusive':
            return I(0), add(fld(r, 'end'), I(1))
    return None


def f_get(c):
    loc, x = vloc(c)
    i = c.args[1]
    t = c.ty(1)
    if t is not None and t['k'] == 'adt':
        r = range_of(i, length(x))
        if r is None:
            return None
        return fork2(c, mk_and(le(r[0], r[1]), le(r[1], length(x))), lambda d: some(slice_(x, r[0], r[1])), lambda d: NONE)
    return fork2(c, lt(i, length(x)), lambda d: some(elem_ref(d, 0, i)), lambda d: NONE)


def f_first(c):
    loc, x = vloc(c)
    return fork2(c, lt(I(0), length(x)), lambda d: some(elem_ref(d, 0, I(0))), lambda d: NONE)


def f_last(c):
    loc, x = vloc(c)
    return fork2(c, lt(I(0), length(x)), lambda d: some(elem_ref(d, 0, sub(length(x), I(1)))), lambda d: NONE)


def f_split_first(c):
    loc, x = vloc(c)
    return fork2(c, lt(I(0), length(x)),
                 lambda d: some(tup(elem_ref(d, 0, I(0)), slice_(x, I(1), length(x)))), lambda d: NONE)


def f_split_last(c):
    loc, x = vloc(c)
    n = sub(length(x), I(1))
    return fork2(c, lt(I(0), length(x)),
                 lambda d: some(tup(elem_ref(d, 0, n), slice_(x, I(0), n))), lambda d: NONE)


def f_iter(c):
    v = c.val(0)
    t = c.ty(0)
    s = seq_of(c, v, t)
    if s is None:
        return None
    if isinstance(s, tuple):
        return ('val', T('agg', 'shims::OptIter', None, (('o', s[1]),)))
    return ('val', it_(s))


def f_windows(c):
    n = c.val(1)
    s = seq_of(c, c.deepload(c.args[0]), c.ty(0))
    if n.op != 'int' or n.args[0] < 1 or s is None or isinstance(s, tuple):
        return None
    return fork2(c, lt(I(n.args[0] - 1), length(s)), lambda d: it_(T('wins', s, n)), lambda d: it_(EMPTYSEQ))


def f_iter_mut(c):
    return ('val', itm(c, c.args[0]))


def f_contains(c):
    return ('val', has(c.dval(0), c.dval(1)))


def equal_to(c, f):
    """the value a closure compares its argument with, when that is all it does"""
    fv = c.load(f) if f.op == 'ref' else f
    if fv.op != 'agg' or not str(fv.args[0]).startswith('closure:'):
        return None
    ex = c.ex
    b = find_body(ex, fv.args[0][8:].lstrip('~'))
    if b is None or b.nargs != 2 or len(b.blocks) > 12:
        return None
    x = T('arg', 777)
    from interp import Undecided as UNDECIDED
    sub_ = type(ex)(ex.prog, ex.shims, boundary=ex.boundary, effects_of=ex.effects_of, io_of=ex.io_of)
    try:
        root = sub_.run(b, [c.deep(fv), x])
    except UNDECIDED:
        return None
    if len(sub_.nodes) != 1 or any(r.eff for r in root.rows):
        return None
    rs = [r for r in root.rows if r.kind == 'ret']
    if len(root.rows) != 1 or not rs or rs[0].val.op != 'eq':
        return None
    p, q = rs[0].val.args
    if p is x and not mentions(q, x):
        return q
    if q is x and not mentions(p, x):
        return p
    return None


def mentions(t, x):
    if t is x:
        return True
    if isinstance(t, Term):
        t = t.args
    return isinstance(t, (tuple, list)) and any(mentions(a, x) for a in t)


def t_any(c, body):
    """any(|e| e == x) over the whole of a sequence is contains(x)"""
    if body is not None:
        return None
    v = c.load(c.args[0]) if c.args[0].op == 'ref' else c.args[0]
    if v.op == 'agg' and v.args[0] == 'It' and fld(v, 'p') is I(0):
        x = equal_to(c, c.args[1])
        if x is not None:
            c.ex.store(c.st, c.loc(c.args[0]), T('spent', v))
            return ('val', has(c.deep(fld(v, 's')), x))
    return None


def f_str_contains(c):
    pat = c.dval(1)
    if pat.op == 'seq' and len(pat.args) == 1 and pat.args[0].op == 'el':
        text = c.deep(c.deepload(c.args[0]))
        name = c.cal['res'] or c.cal['fn']
        return ('val', mk_or(*[T('call', name, text, x) for x in pat.args[0].args]))
    return None


def t_index(c, body):
    if body is not None:
        return None
    loc, x = vloc(c)
    t = c.ty(1)
    i = c.args[1]
    st_ = strip_ref(c.ty(0)) if c.ty(0) else None
    n = st_['p'].split('::')[-1] if st_ and st_['k'] == 'adt' else None
    if n in ('BTreeMap', 'HashMap'):
        k = c.dval(1)
        g = mget(c.deep(x), k)
        if not c.ex.soft_assume(c.st, isvar(g, ('Some',), OPTV)):
            return ('panic', S('key'))
        return ('val', c.ex.mkref((loc[0], loc[1] + (('k', k),))))
    if n is not None and n not in ('Vec', 'String', 'VecDeque'):
        return None
    if t is not None and t['k'] == 'adt' or i.op == 'agg':
        r = range_of(i, length(x))
        if r is None:
            return None
        a, b = r
        if not (c.ex.soft_assume(c.st, le(a, b)) and c.ex.soft_assume(c.st, le(b, length(x)))):
            return ('panic', S('range'))
        return ('val', slice_(x, a, b))
    if not c.ex.soft_assume(c.st, lt(i, length(x))):
        return ('panic', S('index'))
    return ('val', elem_ref(c, 0, i))


# ---------------------------------------------------------------- maps and sets
def f_minsert(c):
    loc, x = vloc(c)
    k = c.deep(c.deepload(c.args[1]) if c.args[1].op == 'ref' else c.args[1])
    old = mget(x, k)
    c.ex.store(c.st, loc, mset(x, k, c.args[2]))
    return ('val', old)


def f_mget(c):
    loc, x = vloc(c)
    g = mget(c.deep(x) if has_no_effect(x) else x, c.dval(1))
    return ('val', g)


def has_no_effect(x):
    return True


def f_mget_mut(c):
    loc, x = vloc(c)
    k = c.dval(1)
    g = mget(x, k)
    return fork2(c, isvar(g, ('Some',), OPTV),
                 lambda d: some(d.ex.mkref((loc[0], loc[1] + (('k', k),)))), lambda d: NONE)


def f_mhas(c):
    loc, x = vloc(c)
    return ('val', isvar(mget(x, c.dval(1)), ('Some',), OPTV))


def f_mremove(c):
    loc, x = vloc(c)
    k = c.dval(1)
    old = mget(x, k)
    c.ex.store(c.st, loc, T('mdel', x, k))
    return ('val', old)


def f_keys(c):
    return ('val', it_(T('keys', c.val(0))))


def f_values(c):
    return ('val', it_(T('vals', c.val(0))))


def f_hkeys(c):
    return ('val', it_(T('hashorder', T('keys', c.val(0)))))


def f_hvalues(c):
    return ('val', it_(T('hashorder', T('vals', c.val(0)))))


ENT = 'alloc::collections::btree::map::entry::Entry'
HENT = 'std::collections::hash::map::Entry'


def f_entry(c):
    loc, x = vloc(c)
    k = c.deep(c.args[1])
    g = mget(x, k)
    en = adt_of(c.dty) or ENT
    ref = c.ex.mkref((loc[0], loc[1] + (('k', k),)))
    h = T('agg', 'EntryRef', None, (('r', ref), ('k', k)))
    return fork2(c, isvar(g, ('Some',), OPTV),
                 lambda d: T('agg', en, 'Occupied', (('0', h),)), lambda d: T('agg', en, 'Vacant', (('0', h),)))


def entry_parts(c, v):
    v = c.deepload(v) if v.op == 'ref' else v
    if v.op == 'agg' and v.args[1] in ('Occupied', 'Vacant'):
        h = v.args[2][0][1]
        return v.args[1], fld(h, 'r'), fld(h, 'k')
    if v.op == 'agg' and v.args[0] == 'EntryRef':
        return None, fld(v, 'r'), fld(v, 'k')
    return None


def f_or_default(c):
    p = entry_parts(c, c.args[0])
    if p is None:
        return None
    if p[0] == 'Occupied':
        return ('val', p[1])
    if c.cal['name'] == 'or_default':
        t = strip_ref(c.dty)
        d = default_of(c, t)
        if d is None:
            bd = cast_body(c, 'core::default::Default', 'default', t)
            if bd is None:
                return None
            # evaluate Default::default, then insert
            return ('body', c.ex.shims.bodies['shims::entry_or_default'], [p[1], T('fn', json.dumps(fnref(bd.path), sort_keys=True))])
    elif c.cal['name'] == 'or_insert':
        d = c.args[1]
    else:
        return ('body', c.ex.shims.bodies['shims::entry_or_default'], [p[1], c.args[1]])
    c.ex.store(c.st, c.loc(p[1]), d)
    return ('val', p[1])


def f_entry_insert(c):
    p = entry_parts(c, c.args[0])
    if p is None:
        return None
    if 'VacantEntry' in c.cal['fn']:
        c.ex.store(c.st, c.loc(p[1]), c.args[1])
        return ('val', p[1])
    old = c.load(p[1])
    c.ex.store(c.st, c.loc(p[1]), c.args[1])
    return ('val', old)


def f_entry_ref(c):
    p = entry_parts(c, c.args[0])
    return ('val', p[1]) if p else None


def f_entry_key(c):
    p = entry_parts(c, c.args[0])
    return ('val', p[2]) if p else None


def f_sinsert(c):
    loc, x = vloc(c)
    v = c.deep(c.args[1])
    h = has(x, v)
    c.ex.store(c.st, loc, sadd(x, v))
    return ('val', neg(h))


def f_sremove(c):
    loc, x = vloc(c)
    v = c.dval(1)
    c.ex.store(c.st, loc, T('sdel', x, v))
    return ('val', has(x, v))


def f_union(c):
    return ('val', it_(T('elems', union(c.dval(0), c.dval(1)))))


def f_sdiff(c):
    return ('val', it_(T('elems', T('sdiff', c.dval(0), c.dval(1)))))


def f_sinter(c):
    a, b = sorted((c.dval(0), c.dval(1)), key=lambda t: t.uid)
    return ('val', it_(T('elems', T('sinter', a, b))))


def t_bitor(c, body):
    if body is not None:
        return None
    t = strip_ref(c.ty(0)) if c.ty(0) else None
    if t and t['k'] == 'adt' and t['p'].endswith('Set'):
        return ('val', union(c.dval(0), c.dval(1)))
    return None


def t_bitor_assign(c, body):
    return None


# ---------------------------------------------------------------- cells and pointers
def f_rc_new(c):
    return ('val', c.ex.alloc(c.st, c.args[0]))


def f_new_uninit(c):
    return ('val', c.ex.alloc(c.st, T('uninit')))


def f_box_vec(c):
    v = c.load(c.args[0])
    for _ in range(4):
        if v.op == 'with' or v.op == 'uninit':
            w = fld(v, 'value')
            if w.op == 'fld':
                break
            v = w
        else:
            break
    return ('val', v)


def f_cell_get(c):
    return ('val', c.load(c.args[0]))


def f_cell_set(c):
    c.ex.store(c.st, c.loc(c.args[0]), c.args[1])
    return ('val', UNIT)


def f_replace(c):
    loc = c.loc(c.args[0])
    old = c.ex.load(c.st, loc)
    c.ex.store(c.st, loc, c.args[1])
    return ('val', old)


def f_mem_take(c):
    loc = c.loc(c.args[0])
    old = c.ex.load(c.st, loc)
    d = default_of(c, c.dty)
    if d is None:
        return None
    c.ex.store(c.st, loc, d)
    return ('val', old)


def f_swap(c):
    l1, l2 = c.loc(c.args[0]), c.loc(c.args[1])
    a, b = c.ex.load(c.st, l1), c.ex.load(c.st, l2)
    c.ex.store(c.st, l1, b)
    c.ex.store(c.st, l2, a)
    return ('val', UNIT)


# ---------------------------------------------------------------- Option and Result
def f_is(name, allv):
    def f(c):
        return ('val', isvar(c.val(0) if c.ty(0) is None or c.ty(0)['k'] == 'ref' or c.args[0].op == 'ref' else c.args[0], (name,), allv))
    return f


def f_unwrap(c):
    v = c.args[0]
    t = adt_of_direct(c.ty(0)) or (v.args[0] if v.op == 'agg' else None)
    isres = t == RES
    n = c.cal['name']
    good = 'Ok' if isres else 'Some'
    allv = RESV if isres else OPTV
    if n in ('unwrap_err', 'expect_err'):
        good = 'Err'
    bad = c.dval(1) if len(c.args) > 1 else S(n)
    return fork2(c, isvar(v, (good,), allv), lambda d: fld(v, good + '.0'), lambda d: ('panic', bad))


def f_unwrap_or_default(c):
    v = c.args[0]
    t = adt_of_direct(c.ty(0)) or (v.args[0] if v.op == 'agg' else None)
    good, allv = ('Ok', RESV) if t == RES else ('Some', OPTV)

    def no(d):
        x = default_of(d, d.dty)
        return x if x is not None else T('call', 'default', T('ty', tystr(d.dty)))
    return fork2(c, isvar(v, (good,), allv), lambda d: fld(v, good + '.0'), no)


def f_as_mut(c):
    loc, x = vloc(c)
    t = adt_of(c.ty(0))
    if t == RES:
        return None
    return fork2(c, isvar(x, ('Some',), OPTV),
                 lambda d: some(d.ex.mkref((loc[0], loc[1] + (('f', 'Some.0'),)))), lambda d: NONE)


def f_as_ref(c):
    return ('val', c.val(0))


def f_opt_cloned(c):
    o = c.args[0]
    if o.op == 'agg' and o.args[1] == 'Some':
        return ('val', some(c.load(fld(o, "Some.0"))))
    return ('val', o)


def f_opt_ident(c):
    return ('val', c.args[0])


def f_opt_take(c):
    loc, x = vloc(c)
    c.ex.store(c.st, loc, NONE)
    return ('val', x)


def f_opt_insert(c):
    loc, x = vloc(c)
    c.ex.store(c.st, loc, some(c.args[1]))
    return ('val', c.ex.mkref((loc[0], loc[1] + (('f', 'Some.0'),))))


def f_opt_replace(c):
    loc, x = vloc(c)
    c.ex.store(c.st, loc, some(c.args[1]))
    return ('val', x)


# ---------------------------------------------------------------- panics, exit, streams, files
def f_panic(c):
    return ('panic', c.dval(0) if c.args else S('panic'))


def f_exit(c):
    return ('exit', c.deep(c.args[0]))


def f_eprint(c):
    r = (('G', 'stderr' if c.cal['name'] == '_eprint' else 'stdout'), ())
    c.ex.store(c.st, r, strcat(c.ex.load(c.st, r), c.deep(c.args[0])))
    return ('val', UNIT)


def f_stderr(c):
    return ('val', T('ref', ('G', c.cal['name']), ()))


def fs_state(c):
    return c.ex.load(c.st, (('G', 'fs'), ()))


def fs_read(name):
    def f(c):
        vals = [c.dval(i) for i in range(len(c.args))]
        return ('val', T('app', name, *(vals + [fs_state(c)])))
    return f


def fs_write(name):
    def f(c):
        vals = [c.dval(i) for i in range(len(c.args))]
        s = fs_state(c)
        r = T('app', name, *(vals + [s]))
        c.ex.store(c.st, (('G', 'fs'), ()), T('fsdo', name, s, *vals))
        if c.ex.werr_mode:
            return may_fail(c, r, fld(r, 'Ok.0'))
        return ('val', r)
    return f


def f_fs_write_file(c):
    """fs::write: create, then write everything"""
    path, text = c.dval(0), c.dval(1)
    s = fs_state(c)
    r = T('app', 'create', path, s)
    c.ex.store(c.st, (('G', 'fs'), ()), T('fsdo', 'create', s, path))
    if c.ex.werr_mode:
        return may_fail(c, T('app', 'write_file', path), UNIT)

    def good(d):
        loc = (('H', fld(r, 'Ok.0')), ())
        d.ex.store(d.st, loc, strcat(d.ex.load(d.st, loc), text))
        return ok(UNIT)
    return fork2(c, isvar(r, ('Ok',), RESV), good, lambda d: err(fld(r, 'Err.0')))


def f_fs_read_file(c):
    """fs::read_to_string: open, then read everything"""
    o = T('app', 'open', c.dval(0), fs_state(c))
    r = T('app', 'read_to_string', fld(o, 'Ok.0'))

    outs = []
    for v, s in c.ex.branch(c.st, isvar(o, ('Ok',), RESV)):
        if v:
            for w, t in c.ex.branch(s, isvar(r, ('Ok',), RESV)):
                outs.append((t, ok(fld(r, 'Ok.text')) if w else err(fld(r, 'Err.0'))))
        else:
            outs.append((s, err(fld(o, 'Err.0'))))
    return ('alts', outs)


def f_read_to_string(c):
    """Read::read_to_string(&mut file, &mut String)"""
    f = c.dval(0)
    loc, x = vloc(c, 1)
    call = T('app', 'read_to_string', f)
    c.ex.store(c.st, loc, strcat(x, fld(call, 'Ok.text')))
    return ('val', call)


def t_read(c, body):
    if body is not None:
        return None
    if c.cal['name'] == 'read_to_string':
        return f_read_to_string(c)
    return None


def f_arg0_unit(c):
    return ('val', UNIT)


def lit(v):
    def f(c):
        return ('val', v)
    return f


def f_once(c):
    return ('val', it_(seq(c.args[0])))


def f_range_inc(c):
    return ('val', agg('core::ops::range::RangeInclusive', None, (('start', c.args[0]), ('end', c.args[1]))))


def chars_of(op):
    def f(c):
        return ('val', it_(T(op, c.dval(0))))
    return f


def f_one_byte(name):
    def f(c):
        p = c.val(1)
        if p.op != 'char' or int(p.args[0]) >= 128:
            return None
        return shim(c, name, [c.deepload(c.args[0]), p])
    return f


def f_bytes(c):
    return ('val', it_(c.dval(0)))


TRAITS = {
    'PartialEq::eq': t_eq, 'PartialEq::ne': t_eq,
    'Ord::cmp': t_cmp, 'PartialOrd::partial_cmp': t_cmp, 'PartialOrd::lt': t_cmp, 'PartialOrd::le': t_cmp,
    'PartialOrd::gt': t_cmp, 'PartialOrd::ge': t_cmp, 'Ord::max': t_cmp, 'Ord::min': t_cmp,
    'Deref::deref': t_deref, 'DerefMut::deref_mut': t_deref,
    'Clone::clone': t_clone, 'ToOwned::to_owned': lambda c, b: ('val', c.deepload(c.args[0])),
    'ToString::to_string': t_to_string, 'From::from': t_from, 'Into::into': t_into,
    'AsRef::as_ref': ident, 'AsMut::as_mut': ident, 'Borrow::borrow': ident, 'BorrowMut::borrow_mut': ident,
    'Try::branch': t_branch, 'FromResidual::from_residual': t_from_residual,
    'Fn::call': t_call, 'FnMut::call_mut': t_call, 'FnOnce::call_once': t_call,
    'IntoIterator::into_iter': t_into_iter, 'Iterator::next': t_next, 'DoubleEndedIterator::next_back': t_next,
    'Iterator::collect': t_collect, 'FromIterator::from_iter': t_from_iter,
    'Iterator::cloned': t_cloned, 'Iterator::copied': t_cloned, 'Iterator::rev': t_rev, 'Iterator::chain': t_chain,
    'Iterator::count': t_count, 'Iterator::last': t_last, 'ExactSizeIterator::len': t_len_exact,
    'Iterator::any': t_any, 'Iterator::by_ref': ident, 'Iterator::fuse': ident,
    'Extend::extend': t_extend, 'Default::default': t_default,
    'Write::write_all': t_write, 'Write::write_fmt': t_write, 'Write::write_str': t_write, 'Write::flush': t_write,
    'Write::write_char': t_write,
    'Display::fmt': t_fmt, 'Debug::fmt': t_fmt,
    'AddAssign::add_assign': t_add_assign, 'Add::add': t_add,
    'Index::index': t_index, 'IndexMut::index_mut': t_index, 'BitOr::bitor': t_bitor,
    'Read::read_to_string': t_read,
    'AsDisplay::as_display': ident, 'AsDynError::as_dyn_error': ident,
}

def f_parse(c):
    """s.parse::<F>() is F::from_str(s)"""
    ta = c.cal['ta'] or [None]
    if not ta[-1] or ta[-1]['k'] == 'adt':
        return None
    return ('val', T('call', 'core::str::traits::FromStr::from_str', c.deepload(c.args[0])))


FUNCS = {
    'fmt::format': lambda c: ('val', c.deep(c.args[0])), 'Arguments::new': f_fmt_new,
    'Arguments::from_str': lambda c: ('val', c.dval(0)), 'Arguments::new_const': lambda c: ('val', c.dval(0)),
    'Argument::new_display': f_fmt_display, 'Argument::new_debug': f_fmt_debug,
    'hint::must_use': lambda c: ('val', c.args[0]),
    'Formatter::write_fmt': f_formatter_write, 'Formatter::write_str': f_formatter_write,
    'String::new': lit(EMPTYSTR), 'String::with_capacity': lit(EMPTYSTR),
    'String::push_str': f_push_str, 'String::push': f_push_char,
    'String::as_str': ident, 'String::as_bytes': ident, 'String::as_mut_str': ident, 'String::into_bytes': ident,
    'String::into_boxed_str': ident, 'String::clear': f_clear,
    'String::len': f_len, 'String::is_empty': f_is_empty,
    'str::len': f_len, 'str::is_empty': f_is_empty, 'str::as_bytes': ident, 'str::to_string': lambda c: ('val', c.deepload(c.args[0])),
    'str::parse': f_parse, 'Cow::into_owned': lambda c: ('val', c.deepload(c.args[0])), 'str::as_str': ident, 'str::to_owned': lambda c: ('val', c.deepload(c.args[0])),
    'str::chars': chars_of('chars'), 'str::char_indices': chars_of('charidx'), 'str::bytes': f_bytes,
    'str::lines': chars_of('lines'), 'str::get': f_get, 'str::into_string': ident,
    'str::matches': f_one_byte('str_matches'), 'str::match_indices': f_one_byte('str_match_indices'),
    'str::split': f_one_byte('str_split'), 'str::rfind': f_one_byte('str_rfind'),
    'str::split_once': f_one_byte('str_split_once'), 'str::rsplit_once': f_one_byte('str_rsplit_once'),
    'str::split_at': None, 'str::contains': f_str_contains,
    'Vec::new': lit(EMPTYSEQ), 'Vec::with_capacity': lit(EMPTYSEQ), 'Vec::reserve': f_arg0_unit, 'Vec::push': f_push, 'Vec::pop': f_pop,
    'VecDeque::new': lit(EMPTYSEQ), 'VecDeque::push_back': f_push, 'VecDeque::pop_back': f_pop,
    'Vec::insert': f_vinsert, 'Vec::remove': f_vremove, 'Vec::truncate': f_truncate, 'Vec::split_off': f_split_off,
    'Vec::len': f_len, 'Vec::is_empty': f_is_empty, 'Vec::clear': f_clear, 'Vec::append': f_append,
    'Vec::extend_from_slice': f_extend_from_slice, 'Vec::as_slice': ident, 'Vec::as_mut_slice': ident, 'Vec::drain': f_drain,
    'Vec::retain': lambda c: shim(c, 'vec_retain'), 'Vec::into_boxed_slice': ident,
    'slice::len': f_len, 'slice::is_empty': f_is_empty, 'slice::iter': f_iter, 'slice::iter_mut': f_iter_mut, 'slice::windows': f_windows,
    'slice::get': f_get, 'slice::get_mut': f_get, 'slice::first': f_first, 'slice::last': f_last, 'slice::last_mut': f_last,
    'slice::first_mut': f_first, 'slice::split_first': f_split_first, 'slice::split_last': f_split_last,
    'slice::contains': f_contains, 'slice::to_vec': lambda c: ('val', c.deepload(c.args[0])), 'slice::into_vec': ident,
    'BTreeMap::new': lit(EMPTYMAP), 'BTreeMap::insert': f_minsert, 'BTreeMap::get': f_mget, 'BTreeMap::get_mut': f_mget_mut,
    'BTreeMap::contains_key': f_mhas, 'BTreeMap::remove': f_mremove, 'BTreeMap::len': f_len, 'BTreeMap::is_empty': f_is_empty,
    'BTreeMap::iter': f_iter, 'BTreeMap::keys': f_keys, 'BTreeMap::values': f_values, 'BTreeMap::entry': f_entry, 'BTreeMap::clear': f_clear,
    'BTreeMap::into_values': f_values, 'BTreeMap::into_keys': f_keys,
    'HashMap::new': lit(EMPTYMAP), 'HashMap::insert': f_minsert, 'HashMap::get': f_mget, 'HashMap::get_mut': f_mget_mut,
    'HashMap::contains_key': f_mhas, 'HashMap::remove': f_mremove, 'HashMap::len': f_len, 'HashMap::is_empty': f_is_empty,
    'HashMap::iter': f_iter, 'HashMap::keys': f_hkeys, 'HashMap::values': f_hvalues, 'HashMap::entry': f_entry,
    'Entry::or_default': f_or_default, 'Entry::or_insert': f_or_default, 'Entry::or_insert_with': f_or_default, 'Entry::key': f_entry_key,
    'VacantEntry::insert': f_entry_insert, 'OccupiedEntry::insert': f_entry_insert, 'OccupiedEntry::get': f_entry_ref,
    'OccupiedEntry::get_mut': f_entry_ref, 'OccupiedEntry::into_mut': f_entry_ref, 'OccupiedEntry::key': f_entry_key,
    'VacantEntry::key': f_entry_key, 'VacantEntry::into_key': f_entry_key,
    'BTreeSet::new': lit(EMPTYSET), 'BTreeSet::insert': f_sinsert, 'BTreeSet::contains': f_contains, 'BTreeSet::remove': f_sremove,
    'BTreeSet::len': f_len, 'BTreeSet::is_empty': f_is_empty, 'BTreeSet::iter': f_iter, 'BTreeSet::union': f_union,
    'BTreeSet::difference': f_sdiff, 'BTreeSet::intersection': f_sinter, 'BTreeSet::append': f_append, 'BTreeSet::clear': f_clear,
    'HashSet::new': lit(EMPTYSET), 'HashSet::insert': f_sinsert, 'HashSet::contains': f_contains, 'HashSet::len': f_len,
    'HashSet::is_empty': f_is_empty, 'HashSet::iter': f_iter,
    'Rc::new': f_rc_new, 'Arc::new': f_rc_new, 'Box::new': f_rc_new, 'Rc::clone': ident_load, 'Rc::as_ref': ident_load,
    'Box::new_uninit': f_new_uninit, 'boxed::box_assume_init_into_vec_unsafe': f_box_vec,
    'Cell::new': ident, 'RefCell::new': ident, 'Cell::get': f_cell_get, 'Cell::set': f_cell_set, 'RefCell::borrow': ident,
    'RefCell::borrow_mut': ident, 'RefCell::replace': f_replace, 'Cell::replace': f_replace, 'RefCell::into_inner': ident,
    'Cell::take': f_mem_take, 'RefCell::take': f_mem_take,
    'mem::replace': f_replace, 'mem::take': f_mem_take, 'mem::swap': f_swap, 'mem::drop': f_arg0_unit,
    'Option::is_some': f_is('Some', OPTV), 'Option::is_none': f_is('None', OPTV), 'Result::is_ok': f_is('Ok', RESV),
    'Result::is_err': f_is('Err', RESV),
    'Option::unwrap': f_unwrap, 'Option::expect': f_unwrap, 'Result::unwrap': f_unwrap, 'Result::expect': f_unwrap,
    'Result::unwrap_err': f_unwrap, 'Option::unwrap_or_default': f_unwrap_or_default, 'Result::unwrap_or_default': f_unwrap_or_default,
    'Option::as_ref': f_as_ref, 'Option::as_deref': f_as_ref, 'Option::as_mut': f_as_mut, 'Option::cloned': f_opt_cloned,
    'Option::copied': f_opt_cloned, 'Option::take': f_opt_take, 'Option::replace': f_opt_replace, 'Option::insert': f_opt_insert,
    'Result::as_ref': f_as_ref, 'Option::iter': f_iter,
    'panicking::panic': f_panic, 'panicking::panic_fmt': f_panic, 'panicking::panic_display': f_panic,
    'panicking::assert_failed': f_panic, 'panicking::unreachable_display': f_panic, 'panicking::panic_explicit': f_panic,
    'process::exit': f_exit, 'stdio::_eprint': f_eprint, 'stdio::_print': f_eprint, 'stdio::stderr': f_stderr, 'stdio::stdout': f_stderr,
    'Path::exists': fs_read('exists'), 'fs::read_to_string': f_fs_read_file, 'File::open': fs_read('open'), 'Path::is_file': fs_read('is_file'),
    'File::create': fs_write('create'), 'fs::write': f_fs_write_file, 'fs::remove_file': fs_write('remove_file'),
    'fs::rename': fs_write('rename'), 'fs::File::create_new': fs_write('create_new'), 'File::create_new': fs_write('create_new'),
    'BufWriter::new': f_buf_writer, 'BufWriter::with_capacity': f_buf_writer, 'LineWriter::new': f_buf_writer,
    'BufWriter::into_inner': f_buf_into_inner, 'BufWriter::get_mut': ident, 'BufWriter::get_ref': ident,
    'OpenOptions::open': lambda c: fs_write('open_with')(c), 'fs::copy': fs_write('copy'), 'fs::read': fs_read('read_bytes'),
    'File::sync_all': f_sync, 'File::sync_data': f_sync,
    'Path::new': ident, 'Path::to_path_buf': lambda c: ('val', c.deepload(c.args[0])), 'PathBuf::new': lit(EMPTYSTR), 'PathBuf::as_path': ident,
    'RangeInclusive::new': f_range_inc, 'once::once': lambda c: shim(c, 'iter_once'),
}
FUNCS = {k: v for k, v in FUNCS.items() if v is not None}
