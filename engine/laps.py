"""Independent reader of the generator's grammar-specification language
(.laps / .alaps) and an independent LALR(1) table construction.

Nothing here is derived from the code under analysis: it is the oracle against
which checked-in parser tables are compared (rule family TAB).
"""
import re
from collections import OrderedDict

class SpecError(Exception):
    pass

TOK = [
    ('SKIP', re.compile(r'/\*(?:.|[\n\r])*?\*/|//[^\n\r]*|\s+')),
    ('RustCode', re.compile(r'%\{(?:.|[\n\r])*?%\}')),
    ('ActionCode', re.compile(r'!\{(?:.|[\n\r])*?!\}')),
    ('PredicateExpr', re.compile(r'\?\((?:.|[\n\r])*?\?\)')),
    ('KW', re.compile(r'%%|%[a-z_]+')),
    ('Literal', re.compile(r'"(?:\\"|[^"\t\r\n\v\f])*"')),
    ('RegEx', re.compile(r'\(.+\)')),
    ('Num', re.compile(r'[0-9]+')),
    ('Ident', re.compile(r'[a-zA-Z]+[a-zA-Z0-9_]*')),
    ('P', re.compile(r'[:|.]')),
]

def tokenize(text):
    i = 0
    out = []
    while i < len(text):
        for name, rx in TOK:
            m = rx.match(text, i)
            if m and m.end() > i:
                if name != 'SKIP':
                    out.append((name, m.group(0), text.count('\n', 0, i) + 1))
                i = m.end()
                break
        else:
            raise SpecError('unexpected text at line %d: %r' % (text.count('\n', 0, i) + 1, text[i:i + 20]))
    return out

class Production:
    __slots__ = ('idx', 'lhs', 'rhs', 'assoc', 'prec', 'action', 'predicate', 'line')
    def __init__(self, idx, lhs, rhs, assoc, prec, action, predicate, line):
        self.idx, self.lhs, self.rhs = idx, lhs, tuple(rhs)
        self.assoc, self.prec = assoc, prec
        self.action, self.predicate, self.line = action, predicate, line
    def __repr__(self):
        return '%d %s: %s' % (self.idx, self.lhs, ' '.join(self.rhs) or '<empty>')

class Spec:
    def __init__(self):
        self.tokens = OrderedDict()      # name -> ('lit'|'re', text)
        self.lit = {}                    # literal text -> token name
        self.skips = []
        self.assoc = {}                  # token/tag name -> (assoc, prec)
        self.prods = []
        self.attr = self.target = None
        self.rr = self.sr = 0
        self.preamble = ''
        self.has_error = False

def read_spec(path):
    text = open(path, encoding='utf-8').read()
    toks = tokenize(text)
    pos = 0
    sp = Spec()
    def peek(k=0):
        return toks[pos + k] if pos + k < len(toks) else ('EOF', '', -1)
    def take(kind=None, val=None):
        nonlocal pos
        t = peek()
        if (kind and t[0] != kind) or (val and t[1] != val):
            raise SpecError('line %d: expected %s %s, found %r' % (t[2], kind, val, t[1]))
        pos += 1
        return t
    # preamble
    if peek()[0] == 'RustCode':
        sp.preamble = take()[1][2:-2]
    while peek()[1] != '%%':
        kw = take('KW')[1]
        if kw == '%attr':
            sp.attr = take('Ident')[1]
        elif kw == '%target':
            sp.target = take('Ident')[1]
        elif kw == '%reduce_reduce':
            sp.rr = int(take('Num')[1])
        elif kw == '%shift_reduce':
            sp.sr = int(take('Num')[1])
        else:
            raise SpecError('unexpected %s in configuration (injection is not supported)' % kw)
    take('KW', '%%')
    prec = 0
    while peek()[1] != '%%':
        kw = take('KW')[1]
        if kw == '%token':
            name = take('Ident')[1]
            t = take()
            if name in sp.tokens:
                raise SpecError('duplicate token ' + name)
            if t[0] == 'Literal':
                sp.tokens[name] = ('lit', t[1])
                sp.lit[t[1]] = name
            elif t[0] == 'RegEx':
                sp.tokens[name] = ('re', t[1])
            else:
                raise SpecError('bad token definition ' + name)
        elif kw == '%skip':
            sp.skips.append(take('RegEx')[1])
        elif kw in ('%left', '%right', '%nonassoc'):
            prec += 1
            a = {'%left': 'Left', '%right': 'Right', '%nonassoc': 'NonAssoc'}[kw]
            while peek()[0] in ('Ident', 'Literal'):
                t = take()
                n = sp.lit[t[1]] if t[0] == 'Literal' else t[1]
                sp.assoc[n] = (a, prec)
        else:
            raise SpecError('unexpected %s in definitions' % kw)
    take('KW', '%%')
    raw = []
    while pos < len(toks):
        lhs = take('Ident')
        take('P', ':')
        while True:
            syms, action, pred, tag = [], None, None, None
            while True:
                t = peek()
                if t[0] == 'Ident':
                    syms.append(take()[1])
                elif t[0] == 'Literal':
                    lit = take()[1]
                    if lit not in sp.lit:
                        raise SpecError('unknown literal ' + lit)
                    syms.append(sp.lit[lit])
                elif t[1] == '%error':
                    take()
                    syms.append('AAError')
                    sp.has_error = True
                else:
                    break
            if peek()[0] == 'PredicateExpr':
                pred = take()[1][2:-2]
            if peek()[1] == '%prec':
                take()
                t = take()
                tag = sp.lit[t[1]] if t[0] == 'Literal' else t[1]
            if peek()[0] == 'ActionCode':
                action = take()[1][2:-2]
            raw.append((lhs[1], syms, action, pred, tag, lhs[2]))
            t = take('P')
            if t[1] == '|':
                continue
            if t[1] == '.':
                break
            raise SpecError('line %d: unexpected %r' % (t[2], t[1]))
    def prec_of(syms, tag):
        if tag is not None:
            return sp.assoc.get(tag, ('NonAssoc', 0))
        for s in syms:
            if s in sp.tokens:
                return sp.assoc.get(s, ('NonAssoc', 0))
        return ('NonAssoc', 0)
    sp.prods.append(Production(0, 'AAStart', [raw[0][0]], 'NonAssoc', 0, None, None, raw[0][5]))
    for lhs, syms, action, pred, tag, line in raw:
        a, p = prec_of(syms, tag)
        sp.prods.append(Production(len(sp.prods), lhs, syms, a, p, action, pred, line))
    if sp.has_error:
        sp.prods.append(Production(len(sp.prods), 'AAError', [], 'NonAssoc', 0, None, None, 0))
    return sp

class Lalr:
    """LALR(1) automaton by LR(0) construction + look-ahead propagation."""
    def __init__(self, sp):
        self.sp = sp
        self.by_lhs = {}
        for p in sp.prods:
            self.by_lhs.setdefault(p.lhs, []).append(p)
        self.terms = set(sp.tokens)
        self._firsts()
        self._build()

    def is_nt(self, s):
        return s in self.by_lhs

    def _firsts(self):
        self.first = {n: set() for n in self.by_lhs}
        self.nullable = {n: False for n in self.by_lhs}
        ch = True
        while ch:
            ch = False
            for p in self.sp.prods:
                allnull = True
                for s in p.rhs:
                    if self.is_nt(s):
                        n = len(self.first[p.lhs])
                        self.first[p.lhs] |= self.first[s]
                        ch |= len(self.first[p.lhs]) > n
                        if not self.nullable[s]:
                            allnull = False
                            break
                    else:
                        if s not in self.terms:
                            raise SpecError('undefined symbol ' + s)
                        if s not in self.first[p.lhs]:
                            self.first[p.lhs].add(s)
                            ch = True
                        allnull = False
                        break
                if allnull and not self.nullable[p.lhs]:
                    self.nullable[p.lhs] = True
                    ch = True

    def first_seq(self, seq):
        out = set()
        for s in seq:
            if self.is_nt(s):
                out |= self.first[s]
                if not self.nullable[s]:
                    return out, False
            else:
                out.add(s)
                return out, False
        return out, True

    def lr0_closure(self, kernel):
        items = set(kernel)
        work = list(kernel)
        while work:
            p, d = work.pop()
            rhs = self.sp.prods[p].rhs
            if d < len(rhs) and self.is_nt(rhs[d]):
                for q in self.by_lhs[rhs[d]]:
                    it = (q.idx, 0)
                    if it not in items:
                        items.add(it)
                        work.append(it)
        return items

    def _build(self):
        start = frozenset([(0, 0)])
        self.kernels = [start]
        idx = {start: 0}
        self.trans = []
        i = 0
        while i < len(self.kernels):
            items = self.lr0_closure(self.kernels[i])
            moves = {}
            for p, d in items:
                rhs = self.sp.prods[p].rhs
                if d < len(rhs):
                    moves.setdefault(rhs[d], set()).add((p, d + 1))
            tr = {}
            for s, k in moves.items():
                k = frozenset(k)
                if k not in idx:
                    idx[k] = len(self.kernels)
                    self.kernels.append(k)
                tr[s] = idx[k]
            self.trans.append(tr)
            i += 1
        n = len(self.kernels)
        items = [self.lr0_closure(k) for k in self.kernels]
        la = [{it: set() for it in items[s]} for s in range(n)]
        la[0][(0, 0)].add('AAEnd')
        ch = True
        while ch:
            ch = False
            for s in range(n):
                for (p, d) in items[s]:
                    cur = la[s][(p, d)]
                    if not cur and d == 0 and p != 0:
                        continue
                    rhs = self.sp.prods[p].rhs
                    if d >= len(rhs):
                        continue
                    x = rhs[d]
                    t = la[self.trans[s][x]][(p, d + 1)]
                    if not cur <= t:
                        t |= cur
                        ch = True
                    if self.is_nt(x):
                        f, null = self.first_seq(rhs[d + 1:])
                        add = f | (cur if null else set())
                        for q in self.by_lhs[x]:
                            t = la[s][(q.idx, 0)]
                            if not add <= t:
                                t |= add
                                ch = True
        self.items, self.la = items, la

    def is_error_tail(self, p):
        rhs = self.sp.prods[p].rhs
        return bool(rhs) and rhs[-1] == 'AAError'

    def tables(self):
        """(actions, gotos, sr, rr): actions[s][t] = ('s',n) | ('r',[prods in order]) ;
        conflict resolution as documented for the generator."""
        sp = self.sp
        n = len(self.kernels)
        acts, gotos = [], []
        sr_c = rr_c = 0
        self.final_la = []
        for s in range(n):
            shifts = {x: t for x, t in self.trans[s].items() if x in self.terms}
            red = {it: set(self.la[s][it]) for it in self.items[s] if it[1] >= len(sp.prods[it[0]].rhs)}
            conf = [(t, it) for t in shifts for it in red if t in red[it]]
            for t, it in conf:
                p = sp.prods[it[0]]
                ta, tp = sp.assoc.get(t, ('NonAssoc', 0))
                if tp < p.prec:
                    shifts.pop(t, None)
                elif tp > p.prec:
                    red[it].discard(t)
                elif p.assoc == 'Left':
                    shifts.pop(t, None)
                elif self.is_error_tail(it[0]):
                    red[it].discard(t)
                else:
                    red[it].discard(t)
                    sr_c += 1
            keys = sorted(red)
            for a in range(len(keys)):
                for b in range(a + 1, len(keys)):
                    k1, k2 = keys[a], keys[b]
                    inter = red[k1] & red[k2]
                    if inter and sp.prods[k1[0]].predicate is None:
                        if self.is_error_tail(k1[0]):
                            red[k1] -= inter
                        elif self.is_error_tail(k2[0]):
                            red[k2] -= inter
                        else:
                            red[k2] -= inter
                            rr_c += 1
            act = {}
            for t, d in shifts.items():
                act.setdefault(t, []).append(('s', d))
            for it in keys:
                for t in red[it]:
                    act.setdefault(t, []).append(('acc',) if it[0] == 0 else ('r', it[0]))
            acts.append(act)
            gotos.append({x: t for x, t in self.trans[s].items() if self.is_nt(x)})
            self.final_la.append(set(act))
        return acts, gotos, sr_c, rr_c
