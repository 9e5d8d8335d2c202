"""Can the facts gathered along a path hold together? Linear arithmetic by Fourier-Motzkin elimination, plus what is known
of substring search: a fact set that is contradictory does not describe an execution and nothing is reported for it.
Used only to withdraw a report, never to make one."""
from terms import Term, lin_of, subterms, isvar, sub, add, index, I

LIMIT = 700
STR_FIND = 'core::str::<impl str>::find'


def entails_false(cons):
    """cons: [(const, {atom: coef})] meaning const + sum >= 0 over integers; True when shown contradictory"""
    rows = set()
    for c, d in cons:
        d = {k: v for k, v in d.items() if v}
        if not d:
            if c < 0:
                return True
            continue
        rows.add(tight(c, d))
    while rows:
        cnt = {}
        for c, d in rows:
            for k, v in d:
                p = cnt.setdefault(k, [0, 0])
                p[v > 0] += 1
        k = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - sum(cnt[x]), x.uid))
        pos, ng, rest = [], [], set()
        for r in rows:
            v = dict(r[1]).get(k, 0)
            (pos if v > 0 else ng if v < 0 else rest.add(r) or []).append((v, r))
        if len(rest) + len(pos) * len(ng) > LIMIT:
            return False
        for v, (c1, d1) in pos:
            for w, (c2, d2) in ng:
                c = c1 * -w + c2 * v
                d = {x: y * -w for x, y in d1}
                for x, y in d2:
                    d[x] = d.get(x, 0) + y * v
                d = {x: y for x, y in d.items() if y}
                if not d:
                    if c < 0:
                        return True
                    continue
                rest.add(tight(c, d))
        rows = rest
    return False


def tight(c, d):
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g
    return c, tuple(sorted(d.items(), key=lambda kv: kv[0].uid))


def lin(t, s=1, k=0):
    c, d = lin_of(t)
    return c * s + k, {x: v * s for x, v in d.items()}


def length(s):
    import terms
    return terms.length(s)


def live(t):
    """subterms whose value was computed on the way: not those under an alternative"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen or x.op in ('or', 'lam', 'closure'):
                continue
            seen.add(x)
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def place(s):
    """(base, offset) of a possibly sliced sequence"""
    if s.op == 'slice':
        return s.args[0], s.args[1]
    return s, I(0)


def contradictory(lits, extra=()):
    cons = []
    ne = []          # terms that differ from 0
    ors = []
    isv = {}
    holds = {}
    same, diff = [], []
    nonempty = set()
    todo = list(lits)
    terms_ = set()
    chars = []       # (base, absolute position, code, equal)
    while todo:
        l = todo.pop()
        if l.op == 'and':
            todo.extend(l.args)
            continue
        if l.op == 'or':
            o = []
            st = list(l.args)
            while st:
                x = st.pop()
                if x.op == 'or':
                    st.extend(x.args)
                else:
                    o.append(x)
            ors.append(o)
            continue
        if l.op == 'bool':
            if not l.args[0]:
                return True
            continue
        terms_ |= live(l)
        if l.op == 'ge0':
            cons.append(lin(l.args[0]))
        elif l.op == 'eq0':
            cons.append(lin(l.args[0]))
            cons.append(lin(l.args[0], -1))
            at_char(l.args[0], True, chars)
        elif l.op == 'not' and l.args[0].op == 'eq0':
            ne.append(l.args[0].args[0])
            at_char(l.args[0].args[0], False, chars)
        elif l.op == 'eq':
            same.append(l.args)
        elif l.op == 'not' and l.args[0].op == 'eq':
            diff.append(l.args[0].args)
        elif l.op == 'has' or l.op == 'not' and l.args[0].op == 'has':
            holds[l if l.op == 'has' else l.args[0]] = l.op == 'has'
        elif l.op == 'not' and is_empty_match(l.args[0]):
            nonempty.add(call_args1(l.args[0]))
        elif l.op == 'isvar':
            isv[l.args[0]] = set(l.args[1]) & isv.get(l.args[0], set(l.args[1]))
        elif l.op == 'not' and l.args[0].op == 'isvar' and l.args[0].args[2]:
            t, vs, al = l.args[0].args
            isv[t] = (set(al) - set(vs)) & isv.get(t, set(al))
    for t in extra:
        if isinstance(t, Term):
            terms_ |= live(t)
    choices = []
    found, absent = [], []   # positions holding a char, ranges without it
    for t in list(terms_):
        if t.op == 'slice':
            s, a, b = t.args
            cons += [lin(a), lin(sub(b, a)), lin(sub(length(s), b))]
        elif t.op == 'idx':
            cons += [lin(t.args[1]), lin(sub(sub(length(t.args[0]), t.args[1]), I(1)))]
        elif t.op == 'call' and str(t.args[0]) == STR_FIND:
            s, c = call_args(t)
            v = isv.get(t)
            if v == {'Some'}:
                off = fld_some(t)
                base, o = place(s)
                # the length of what was found is at least one byte
                cons += [lin(off), lin(sub(sub(length(s), off), I(1)))]
                if c.op == 'char':
                    code = c.args[0] if isinstance(c.args[0], int) else ord(c.args[0])
                    found.append((base, add(o, off), code))
                    absent.append((base, o, add(o, off), code))
            elif v == {'None'} and c.op == 'char':
                base, o = place(s)
                code = c.args[0] if isinstance(c.args[0], int) else ord(c.args[0])
                absent.append((base, o, add(o, length(s)), code))
    match_facts(terms_, nonempty, cons)
    callee_facts(terms_, isv, cons, choices)
    for o in ors:
        if all(x.op == 'ge0' for x in o):
            choices.append(tuple(lin(x.args[0]) for x in o))
            for x in o:
                terms_ |= {y for y in subterms(x) if y.op == 'len'}
    set_facts(terms_, holds, isv, cons, choices, same, diff)
    for base, p, code, eq in chars:
        if eq:
            found.append((base, p, code))
    for base, p, code in found:
        for b2, lo, hi, c2 in absent:
            if b2 is base and c2 == code and code < 128:
                # p < lo or p >= hi
                choices.append((lin(sub(sub(lo, p), I(1))), lin(sub(p, hi))))
        for b2, q, c2, eq in chars:
            if not eq and b2 is base and c2 == code:
                choices.append((lin(sub(sub(p, q), I(1))), lin(sub(sub(q, p), I(1)))))
        for b2, q, c2 in found:
            if b2 is base and c2 != code and code < 128 and c2 < 128:
                choices.append((lin(sub(sub(p, q), I(1))), lin(sub(sub(q, p), I(1)))))
    # a position that lies inside the searched range before the hit and holds the char is covered by `absent`
    for t in ne:
        choices.append((lin(t, 1, -1), lin(t, -1, -1)))
    atoms = set()
    for c, d in cons:
        atoms |= set(d)
    for ch in choices:
        for c, d in ch:
            atoms |= set(d)
    cons += [(0, {a: 1}) for a in atoms]
    return dfs(cons, choices, [64])


def dfs(cons, choices, fuel):
    fuel[0] -= 1
    if fuel[0] < 0:
        return False
    if entails_false(cons):
        return True
    if not choices:
        return False
    # a choice with a side that is already impossible narrows without branching
    for i, ch in enumerate(choices):
        dead = [entails_false(cons + [x]) for x in ch]
        if all(dead):
            return True
        if any(dead):
            return dfs(cons + [x for x, d in zip(ch, dead) if not d][:1], choices[:i] + choices[i + 1:], fuel)
    ch = choices[0]
    return all(dfs(cons + [x], choices[1:], fuel) for x in ch)


def call_args(t):
    a = t.args[1:]
    if len(a) == 1 and isinstance(a[0], tuple):
        a = a[0]
    return a[0], a[1]


def fld_some(t):
    import terms
    return terms.fld(t, 'Some.0')


def at_char(t, eq, out):
    c, d = lin_of(t)
    if len(d) == 1:
        (k, f), = d.items()
        if abs(f) == 1 and k.op == 'idx':
            base, o = place(k.args[0])
            out.append((base, add(o, k.args[1]), -c * f, eq))


def set_facts(terms_, holds, isv, cons, choices, same, diff):
    """sizes of sets and maps: a union is no smaller than what it is made of, what contains something is not empty"""
    unions = []
    for t in terms_:
        if t.op != 'len':
            continue
        s = t.args[0]
        if s.op == 'union':
            unions.append((t, set(s.args)))
            top = None
            for p in s.args:
                n = length(p)
                cons.append(lin(sub(t, n)))
                top = n if top is None else add(top, n)
            cons.append(lin(sub(top, t)))
        elif s.op in ('sadd', 'mset'):
            n = length(s.args[0])
            cons.append(lin(sub(t, n)))
            cons.append(lin(t, 1, -1))
            cons.append(lin(sub(add(n, I(1)), t)))
        elif s.op == 'setof':
            n = length(s.args[0])
            cons.append(lin(sub(n, t)))
            choices.append((lin(t, 1, -1), lin(n, -1)))
    for t, p in unions:
        for u, q in unions:
            if p < q:
                cons.append(lin(sub(u, t)))
    for h, v in holds.items():
        s, x = h.args
        if v:
            # it is one of the elements: beyond those known to differ
            no = {e.args[1].args[0] for p in diff for e, y in (p, p[::-1])
                  if y is x and e.op == 'idx' and e.args[0] is s and e.args[1].op == 'int'}
            k = 0
            while k in no:
                k += 1
            cons.append(lin(length(s), 1, -1 - k))
        elif any(y is x and e.op == 'idx' and e.args[0] is s for p in same for e, y in (p, p[::-1])):
            cons.append((-1, {}))
    for t, v in isv.items():
        if t.op == 'mget' and v == {'Some'}:
            cons.append(lin(length(t.args[0]), 1, -1))


def callee_facts(terms_, isv, cons, choices):
    """what two functions of the lexer promise, which their own comparison is answerable for: regexes that match match
    at least one byte and there is a longest one, a literal has at least one byte, no match is longer than the text"""
    from terms import fld
    for t in terms_:
        if t.op != 'call':
            continue
        n = str(t.args[0])
        if n.endswith('RegexMatcher::<T>::longest_matches'):
            a, b = fld(t, '1'), length(fld(t, '0'))
            choices.append((lin(a, 1, -1), lin(b, -1)))
            choices.append((lin(b, 1, -1), lin(a, -1)))
        elif n.endswith('LiteralMatcher::<T>::longest_match') and isv.get(t) == {'Some'}:
            a = fld(fld_some(t), '1')
            cons.append(lin(a, 1, -1))
        else:
            continue
        cons.append(lin(sub(length(call_args(t)[1]), a)))


MATCH_END = ('end', 'start')


def is_empty_match(t):
    return t.op == 'call' and str(t.args[0]).startswith('regex::regex::string::Match') and \
        str(t.args[0]).endswith('::is_empty')


def match_facts(terms_, nonempty, cons):
    """0 <= start <= end <= length of the text searched, for regex matches; start < end when not empty"""
    ends = {m: {} for m in nonempty}
    for t in terms_:
        if t.op == 'call' and str(t.args[0]).startswith('regex::regex::string::Match') and \
                str(t.args[0]).rsplit('::', 1)[1] in MATCH_END:
            ends.setdefault(call_args1(t), {})[str(t.args[0]).rsplit('::', 1)[1]] = t
    for m, d in ends.items():
        e, s = d.get('end'), d.get('start')
        k = 1 if m in nonempty else 0
        if e is not None and s is not None:
            cons.append(lin(sub(e, s), 1, -k))
        elif e is not None:
            cons.append(lin(e, 1, -k))
        f = m.args[0] if m.op == 'fld' else None
        if f is not None and f.op == 'call' and str(f.args[0]) == 'regex::regex::string::Regex::find':
            n = length(call_args(f)[1])
            cons.append(lin(n, 1, -k))
            if e is not None:
                cons.append(lin(sub(n, e)))
            if s is not None:
                cons.append(lin(sub(n, s), 1, -k))


def searches(lits):
    """the same thing looked for in two ways whose relation depends on the order of what is searched"""
    by, at = set(), set()
    for t in subterms(tuple_term(lits)):
        if t.op == 'has':
            at.add(t.args[1])
        elif t.op == 'call' and str(t.args[0]).rsplit('::', 1)[-1] == 'binary_search':
            by.add(call_args(t)[1])
    return bool(by & at)


VIEW_OPS = ('chars', 'charidx', 'lines')


def views(lits):
    """the ways in which one text is looked at"""
    kinds = {}
    idx = []
    for t in subterms(tuple_term(lits)):
        if t.op in VIEW_OPS and t.args and isinstance(t.args[0], Term):
            kinds.setdefault(place(t.args[0])[0], set()).add(t.op)
        elif t.op == 'call' and '::<impl str>::' in str(t.args[0]):
            n = str(t.args[0]).rsplit('::', 1)[1]
            kinds.setdefault(place(call_args1(t))[0], set()).add('find' if n == 'find' else 'call')
        elif t.op == 'idx':
            idx.append(place(t.args[0])[0])
    for b in idx:
        if b in kinds:
            kinds[b].add('byte')
    return max(kinds.values(), key=len) if kinds else set()


def tuple_term(lits):
    from terms import T
    return T('lits', *lits)


def call_args1(t):
    a = t.args[1:]
    if len(a) == 1 and isinstance(a[0], tuple):
        a = a[0]
    return a[0]
