"""Rules that look at the current source alone, without the reference: property -> functions (X, J, rep)."""
import os
import re

import interp
import laps
import models
import terms
import tree
from mir import strip_generics
from terms import Term, show

# ---------------------------------------------------------------- reachability


def generation_entries(prog, crate=None):
    """the functions from which everything a generator run does is reached"""
    out = []
    for p, b in prog.bodies.items():
        if b.kind != 'fn':
            continue
        if p in ('lalr1_gen::main', 'alalr1_gen::main'):
            out.append(p)
        elif re.match(r'a?lalr1_lib::(ParserGenerator::\w+|grammar::Specification::new|grammar::Grammar::\w+)$', p):
            out.append(p)
        elif 'grammar::Grammar as core::convert::TryFrom' in p or 'ParserGenerator as' in p:
            out.append(p)
    return out


def reach(T, roots):
    """functions and closures reachable over calls, function values, statics and trait dispatch inside the workspace"""
    prog = T.prog
    impls = {}
    nested = {}
    for p, b in prog.bodies.items():
        m = re.match(r'<([^<> ]+) as ', p)
        if m:
            nested.setdefault(m.group(1), []).append(p)
        if b.trait and b.name:
            impls.setdefault((strip_generics(str(b.trait)), b.name), []).append(p)
    seen = {}
    work = [(r, None) for r in roots]
    while work:
        p, via = work.pop()
        if p in seen or p not in prog.bodies:
            continue
        seen[p] = via
        b = prog.bodies[p]
        for q in T.calls.get(p, ()):
            work.append((q, p))
        for o, _ in tree.body_callees(b):
            if o.get('c') == 'fn' and o.get('trait') and (o.get('res') or o['fn']) not in prog.bodies:
                for q in impls.get((strip_generics(o['trait']), o['name']), ()):
                    work.append((q, p))
        for s in static_refs(b):
            work.append((s, p))
        # the initialiser of a lazily initialised static hangs off the static's own type
        for q in nested.get(p, ()):
            work.append((q, p))
    return seen


def static_refs(b):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get('c') == 'static':
                out.add(x['p'])
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for blk in b.blocks:
        if not blk.get('u'):
            walk(blk['s'])
            walk(blk['t'])
    for pb in b.promoted:
        out |= static_refs(pb)
    return out


def route(seen, p):
    out = [p]
    while seen.get(p) is not None and len(out) < 8:
        p = seen[p]
        out.append(p)
    return ' <- '.join(out)


# ---------------------------------------------------------------- types


def types_in(t):
    """paths of all nominal types inside a type"""
    if isinstance(t, dict):
        if t.get('k') in ('adt', 'closure'):
            yield t.get('p', '')
        for k in ('a', 't'):
            v = t.get(k)
            if isinstance(v, dict):
                yield from types_in(v)
            elif isinstance(v, list):
                for y in v:
                    yield from types_in(y)
        if t.get('k') == 'o':
            yield t.get('s', '')
    elif isinstance(t, list):
        for y in t:
            yield from types_in(y)


HASH_ITER = re.compile(r'^(?:std|hashbrown)::(?:collections::hash::)?(?:map|set)::(?:Iter|IterMut|IntoIter|Keys|Values|'
                       r'ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|'
                       r'SymmetricDifference)$')
HASH = re.compile(r'^(?:std|hashbrown)::(?:collections::hash::)?(?:map|set)::Hash(?:Map|Set)$')
UNORDERED = re.compile(r'(?:BTreeMap|BTreeSet|HashMap|HashSet|BinaryHeap|OrderedSet|TokenSet|GrammarItemSet)\b')


def hash_ordered(t):
    return any(HASH_ITER.match(p) for p in types_in(t))


def top(t):
    while isinstance(t, dict) and t.get('k') == 'ref':
        t = t.get('t')
    return t.get('p') or t.get('s') or '' if isinstance(t, dict) else ''


CONSUME_FREE = {'any', 'all', 'count', 'len', 'size_hint', 'sum', 'min', 'max', 'is_empty', 'clone', 'into_iter', 'by_ref',
                'product'}
LAZY_ADAPTERS = {'map', 'filter', 'filter_map', 'flat_map', 'flatten', 'cloned', 'copied', 'chain', 'inspect', 'enumerate',
                 'zip', 'rev', 'skip', 'take', 'skip_while', 'take_while', 'peekable', 'step_by', 'map_while', 'scan',
                 'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'fuse'}
ORDERED_EFFECT = {'push', 'push_str', 'push_back', 'push_front', 'write_fmt', 'write_all', 'write_str', 'write', '_print',
                  '_eprint', 'add_assign', 'extend', 'extend_from_slice', 'append', 'flush', 'insert_str'}

SOURCES = re.compile(
    r'^(?:std::time::|core::time::Instant|std::env::(?!args|Args)|std::process::id$|std::thread::(?:current|local)|'
    r'std::thread::.*LocalKey|core::sync::atomic::|std::sync::(?:poison::)?(?:mutex|rwlock)|std::hash::random::|'
    r'std::collections::hash::map::(?:RandomState|DefaultHasher)|core::hash::BuildHasher::hash_one|rand::|getrandom::|'
    r'std::fs::(?:read_dir|metadata|Metadata|DirEntry)|core::ptr::.*addr$|core::fmt::Pointer|std::random)')
SHARED = re.compile(r'core::sync::atomic|sync::(?:\w+::)*(?:mutex|rwlock)|::LocalKey|core::cell::(?:Cell|RefCell|UnsafeCell)')


def determinism(X, J, rep):
    """G14: nothing reachable from generation iterates in hash order where order matters, reads a source that varies from
    run to run, or keeps state outside the specification it works on"""
    T = X.cur
    prog = T.prog
    seen = reach(T, generation_entries(prog))
    sites = 0
    statics = set()
    for p in sorted(seen):
        b = prog.bodies[p]
        if b.derived:
            continue
        b.analyse()
        for i, blk in enumerate(b.blocks):
            if blk.get('u'):
                continue
            for s in blk['s']:
                if 'PointerExpose' in str(s[1])[:200]:
                    rep.violation('address %s' % p, p, s[2] if len(s) > 2 else b.span,
                                  'an address is turned into a number: it differs from run to run', route(seen, p))
            t = blk['t']
            if t[0] != 'call' or t[1].get('c') != 'fn':
                continue
            o = t[1]
            sites += 1
            at = blk.get('l', b.span)
            full = o.get('res') or o['fn']
            for f in (o['fn'], full):
                if SOURCES.match(f):
                    rep.violation('source %s %s' % (p, o['fn']), p, at,
                                  '%s is called while generating: what it yields varies between runs' % o['fn'],
                                  route(seen, p))
                    break
            w = hash_order(b, i, t)
            if w:
                rep.violation('hash order %s %s' % (p, o['name']), p, at, w, route(seen, p))
        for s in static_refs(b):
            statics.add(s)
            sb = prog.bodies.get(s)
            if sb is not None and any(SHARED.search(x) for x in types_in(sb.locals[0])):
                rep.violation('static %s %s' % (p, s), p, b.span,
                              'the static %s keeps state from one specification to the next' % s, route(seen, p))
    rep.cov['determinism'] = {'functions_reached': len(seen), 'call_sites': sites, 'statics': sorted(statics)}
    if len(seen) < 200 or sites < 1000:
        rep.floor = 'determinism: only %d functions and %d call sites reached' % (len(seen), sites)


def hash_order(b, i, t):
    """why the call that ends block i makes hash order matter, or None"""
    o = t[1]
    n = o['name']
    slf = o.get('self') or (o['ta'][0] if o.get('ta') else None)
    if n in ('new_debug', 'new_display') and any(HASH.match(x) for x in types_in(o.get('ta'))):
        return 'a hash container is formatted: its order varies between runs'
    if o.get('trait') and 'iterator::Iterator' in o['trait'] or o.get('trait') and 'DoubleEndedIterator' in o['trait']:
        if not hash_ordered(slf) or n in CONSUME_FREE or n in LAZY_ADAPTERS:
            return None
        if n == 'next':
            loop = [h for h, s in b.loops.items() if i in s]
            if not loop:
                return 'the first element in hash order is taken: it varies between runs'
            s = b.loops[min(loop, key=lambda h: len(b.loops[h]))]
            for k in sorted(s):
                c = b.blocks[k]['t']
                if c[0] == 'call' and c[1].get('c') == 'fn' and ordered_effect(b, c):
                    return 'a loop in hash order calls %s: the effect depends on the order, which varies between runs' % (
                        c[1]['fn'])
            return None
        if n in ('collect', 'partition', 'unzip'):
            ty = t[5] if len(t) > 5 else None
            if any(UNORDERED.search(x) for x in [top(ty)]):
                return None
            if 'result::Result' in top(ty) or 'option::Option' in top(ty):
                if any(UNORDERED.search(x) for x in types_in(ty)):
                    return None
            if top(ty).endswith('vec::Vec') and sorted_later(b):
                return None
            return 'elements are collected in hash order, which varies between runs'
        return '%s consumes elements in hash order, which varies between runs' % n
    if n in ('extend', 'from_iter') and any(hash_ordered(x) or any(HASH.match(y) for y in types_in(x))
                                            for x in (o.get('ta') or [])[1:]):
        if UNORDERED.search(top(slf)) or sorted_later(b):
            return None
        return '%s takes elements in hash order, which varies between runs' % n
    return None


def ordered_effect(b, c):
    o = c[1]
    if o['name'] in ORDERED_EFFECT:
        slf = o.get('self') or o.get('impl')
        return not UNORDERED.search(top(slf))
    if o['name'] == 'insert':
        return not (UNORDERED.search(top(o.get('self') or o.get('impl'))))
    full = o.get('res') or o['fn']
    q = b.prog.bodies.get(full)
    if q is not None:
        return any(isinstance(x, dict) and x.get('k') == 'ref' and x.get('mut') for x in q.locals[1:q.nargs + 1])
    return False


def sorted_later(b):
    for blk in b.blocks:
        t = blk['t']
        if not blk.get('u') and t[0] == 'call' and t[1].get('c') == 'fn' and t[1]['name'].startswith('sort'):
            return True
    return False



# ---------------------------------------------------------------- write errors
WRITERS = re.compile(r'^a?lalr1_lib::(grammar::Grammar::write_\w+|ParserGenerator::write_\w+)$')


def io_result_fn(b):
    t = b.locals[0]
    return models.is_ioresult(t)


def mentions(v, w):
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            if x is w or x == w:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo.extend(x.args)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
    return False


def write_errors(X, J, rep):
    """C03: on every path on which a write, a flush or the creation of a file fails, the function returns an error, and
    writes nothing more; buffered text is flushed, with the error seen, before success is returned"""
    T = X.cur
    prog = T.prog
    roots = [p for p, b in prog.bodies.items() if b.kind == 'fn' and WRITERS.match(p)]
    seen = reach(T, roots)
    fns = sorted(p for p in seen if prog.bodies[p].kind in ('fn', 'closure') and io_result_fn(prog.bodies[p]) and
                 not prog.bodies[p].derived)
    # functions that are given nothing to write to are not looked into, those that return the error are looked at apart
    boundary = frozenset(p for p in seen if prog.bodies[p].kind == 'fn' and (p in fns or not any(
        isinstance(t, dict) and t.get('k') == 'ref' and t.get('mut') for t in prog.bodies[p].locals[1:prog.bodies[p].nargs + 1])))
    failing = und = 0
    inlined = set()
    done = []
    todo = [p for p in fns if prog.bodies[p].kind == 'fn']
    for p in todo + [p for p in fns if prog.bodies[p].kind == 'closure']:
        b = prog.bodies[p]
        if b.kind == 'closure' and p in inlined:
            continue
        ex = interp.Explorer(prog, T.shims, boundary=boundary - {p}, werr=True, idbase=T.idbase,
                             effects_of=lambda q: T.effects.get(q, ()), io_of=lambda q: q in T.io)
        try:
            ex.run(b)
        except (interp.Undecided, RecursionError) as e:
            und += 1
            rep.notes.append('write errors in %s: %s' % (p, e or 'undecided'))
            continue
        inlined |= ex.inlined
        done.append(p)
        if b.kind == 'closure':
            continue
        for n in ex.nodes:
            for r in n.rows:
                w = r.trace
                why = None
                if w is not None:
                    failing += 1
                    what = show(w.args[0].args[0] if w.op == 'wafter' else w.args[0])[:160]
                    if w.op == 'wafter':
                        why = 'something more is written after %s failed' % what
                    elif r.kind == 'ret' and not is_err(r.val):
                        why = '%s fails and the function returns %s' % (what, show(r.val)[:120])
                    elif r.kind == 'panic':
                        why = '%s fails and the function panics instead of returning the error' % what
                    elif r.kind == 'exit':
                        why = '%s fails and the process is ended instead of returning the error' % what
                    elif r.kind == 'back' and not any(mentions(v, w) for v in r.st.mem.values()):
                        why = '%s fails, the error is dropped and the loop goes on' % what
                elif r.kind == 'ret' and r.eff and not is_err(r.val):
                    if any(k == ('G', 'buffer') and v.op == 'buffered' for k, v in r.eff.items()):
                        why = 'success is returned while text is still in a buffer: an error in writing it is dropped'
                if why:
                    rep.violation('write error %s: %s' % (p, why.split(' fails')[-1][:60]), p, b.span, why,
                                  'path: ' + ' & '.join(show(l) for l in r.lits)[-900:])
    for p in sorted(seen):
        b = prog.bodies[p]
        if b.derived:
            continue
        b.analyse()
        for i, blk in enumerate(b.blocks):
            t = blk['t']
            if blk.get('u') or t[0] != 'call' or t[1].get('c') != 'fn':
                continue
            o = t[1]
            if o['name'] in ('write', 'write_vectored') and o.get('trait') and re.search(r'\bio::(?:\w+::)?Write$', o['trait']) and \
                    not any(i in s for s in b.loops.values()):
                rep.violation('short write %s' % p, p, blk.get('l', b.span),
                              'write() may write only a part of the text; the rest is dropped', route(seen, p))
    rep.cov['write_errors'] = {'functions_reached': len(seen), 'functions_analysed': len(done), 'failing_paths': failing,
                               'undecided': und}
    if len(done) < 10 or failing < 100:
        rep.floor = 'write errors: only %d functions and %d failing paths analysed' % (len(done), failing)


MUTATE = {'create': (0,), 'create_new': (), 'open_with': (1,), 'copy': (1,), 'rename': (0, 1), 'remove_file': (0,), 'write': (0,)}
TESTS = {'exists', 'try_exists', 'is_file', 'metadata', 'symlink_metadata'}


def subterms(v, seen=None):
    todo = [v]
    seen = set() if seen is None else seen
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            yield x
            todo.extend(x.args)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)


def named(x):
    """the function an uninterpreted result comes from"""
    if x.op in ('call', 'app') and isinstance(x.args[0], str):
        return x.args[0]
    return ''


def fallible(x):
    n = named(x)
    return n in MUTATE or n in ('open', 'read_to_string', 'read_bytes') or bool(re.search(
        r'grammar::Specification::new$|ParserGenerator::|Grammar::write_|TryFrom|::read_to_end$', n))


def driver(X, J, rep):
    """C01, C02: what the two programs do to files, looked at path by path without the reference"""
    T = X.cur
    rows = sites = 0
    for main in ('lalr1_gen::main', 'alalr1_gen::main'):
        if main not in T.prog.bodies:
            rep.floor = '%s is missing' % main
            continue
        ex, root, err, _ = X.summary(T, main, X.boundary)
        if root is None:
            rep.notes.append('%s: %s' % (main, err))
            continue
        at = T.prog.bodies[main].span
        tested = set()
        seen = set()
        for n in ex.nodes:
            for r in n.rows:
                for v in list(r.lits) + [r.eff] if r.eff is None else list(r.lits) + list(r.eff.values()):
                    for x in subterms(v, seen):
                        if named(x).split('::')[-1] in TESTS:
                            for y in x.args[1:]:
                                tested.add(y)
                                if isinstance(y, Term) and y.op in ('el', 'idx', 'at', 'nth') or isinstance(y, Term):
                                    for z in subterms(y):
                                        if z.op in ('seq', 'list', 'el', 'arr', 'agg', 'cat', 'seqcat', 'ref'):
                                            tested.update(q for q in flat(z.args) if isinstance(q, Term))
        for n in ex.nodes:
            before = n.entry_pc.lits if getattr(n, 'entry_pc', None) is not None else ()
            for r in n.rows:
                rows += 1
                if r.kind not in ('ret', 'exit'):
                    continue
                lits = list(before) + list(r.lits)
                ok_ = {l.args[0] for l in lits if l.op == 'isvar' and l.args[1] == ('Ok',)}
                bad = [l.args[0] for l in lits if l.op == 'isvar' and l.args[1] == ('Err',) and fallible(l.args[0])]
                fs = (r.eff or {}).get(('G', 'fs'))
                done = []
                while fs is not None and fs.op == 'fsdo':
                    done.append((fs.args[0], fs.args[2:]))
                    fs = fs.args[1]
                path = 'path: ' + ' & '.join(show(l) for l in lits)[-900:]
                for name, args in done:
                    sites += 1
                    for k in MUTATE.get(name, range(len(args))):
                        if k < len(args) and tested and args[k] not in tested and plain_path(args[k]):
                            rep.both('C01', 'untested path %s' % main, main, at, '%s is done to %s, whose existence is '
                                     'never tested' % (name, show(args[k])[:200]), path)
                if done:
                    for part in ('grammar::Specification::new', 'TryFrom'):
                        if not any(part in named(x) for x in ok_) and not any('ParserGenerator' in named(x) for x in ok_):
                            rep.both('C02', 'touched before %s %s' % (part, main), main, at, '%s happens although '
                                     'the specification is not accepted' % done[-1][0], path)
                status = 0 if r.kind == 'ret' else (r.val.args[0] if r.val is not None and r.val.op == 'int' else None)
                if status == 0:
                    for x in bad:
                        rep.both('C02', 'failure ignored %s' % main, main, at,
                                 '%s fails and the exit status is 0' % show(x)[:200], path)
                    if not bad:
                        made = [x for x in ok_ if named(x) == 'create']
                        for v in list(r.lits) + list((r.eff or {}).values()):
                            for x in subterms(v):
                                if fallible(x) and x not in ok_ and x not in bad and named(x) in MUTATE:
                                    rep.both('C02', 'result ignored %s' % main, main, at, 'the result of %s is not looked '
                                             'at and the exit status may be 0' % show(x)[:200], path)
                for v in lits:
                    for x in subterms(v):
                        if named(x).endswith('Specification::new') and any(
                                'from_utf8_lossy' in named(y) and any(named(z) in ('read_bytes', 'open') for z in subterms(y))
                                for y in subterms(x.args[1])):
                            rep.both('C02', 'lossy %s' % main, main, at, 'text that is not UTF-8 is replaced instead of '
                                     'rejected: a specification that cannot be read is accepted', path)
    rep.cov['driver'] = {'rows': rows, 'file_effects': sites}
    if rows < 100 or sites < 10:
        rep.notes.append('driver rule: only %d rows and %d file effects' % (rows, sites))


def flat(a):
    for x in a:
        if isinstance(x, (tuple, list)):
            yield from flat(x)
        else:
            yield x


def plain_path(p):
    """a path made by functions that are understood, from the command line alone"""
    return any(named(x).endswith('from_args') for x in subterms(p)) and not any(x.op in ('mu', 'K', 'havoc') for x in subterms(p))


def is_err(v):
    return v is not None and v.op == 'agg' and v.args[1] == 'Err'


# ---------------------------------------------------------------- T01: the shipped parsers against their grammar files

TABLES = ('next_action', 'goto_state', 'production_data', 'look_ahead_set', 'viable_error_recovery_states',
          'error_goto_state')


class Unreadable(Exception):
    pass


def shipped_tables(X, J, rep):
    """the tables of the parser.rs files, evaluated from their summaries, are those of an LALR(1) automaton built here
    from the grammar files (up to the numbering of the states)"""
    import build
    entries = states = 0
    decided = []
    for crate, ext in (('lalr1_lib', 'laps'), ('alalr1_lib', 'alaps')):
        f = '%s/src/parser.%s' % (crate, ext)
        try:
            sp = laps.read_spec(os.path.join(build.REPO, f))
            L = laps.Lalr(sp)
            acts, gotos, sr, rr = L.tables()
        except (laps.SpecError, OSError, KeyError, IndexError, ValueError) as e:
            rep.notes.append('%s is not read: %r' % (f, e))
            continue
        try:
            lexer(X, rep, crate, f, sp)
        except Unreadable as e:
            rep.notes.append('%s lexer tables: %s' % (crate, e))
        tab = {}
        for name in TABLES:
            p = [q for q in X.cur.prog.bodies if q.endswith('for %s::grammar::Specification>::%s' % (crate, name))]
            if len(p) != 1:
                continue
            ex, root, err, _ = X.summary(X.cur, p[0], X.boundary)
            if root is None or len(ex.nodes) != 1:
                rep.notes.append('%s: not a plain table (%s)' % (p[0], err or 'loop'))
                continue
            tab[name] = (p[0], root.rows, X.cur.prog.bodies[p[0]].span)
        try:
            entries += automaton(X, rep, crate, f, sp, L, acts, gotos, tab, decided)
            states += len(acts)
        except Unreadable as e:
            rep.notes.append('%s tables: %s' % (crate, e))
    rep.decided.update(decided)
    rep.cov['automata'] = {'states': states, 'entries': entries, 'functions_decided': len(decided)}
    if len(decided) < 4:
        rep.notes.append('only %d table functions could be evaluated' % len(decided))


def variant(name):
    return terms.agg(None, name, ())


def put(lits_val, m):
    """a row with values put in for arguments: (lits, val) or None if it cannot be taken"""
    lits, row = lits_val
    out = []
    for l in lits:
        b = terms.subst(l, m)
        if b.op == 'bool':
            if not b.args[0]:
                return None
        else:
            out.append(b)
    return tuple(out), row


def args_of(rows, enum=()):
    """the arguments the rows number things by (compared with integers), and the terms of the enumeration looked at"""
    num, var = set(), set()
    for r in rows:
        for l in r.lits:
            for x in subterms(l):
                if x.op == 'isvar' and set(x.args[2]) == set(enum):
                    var.add(x.args[0])
                if x.op in ('eq0', 'ge0'):
                    num.update(y for y in terms.lin_of(x.args[0])[1] if y.op == 'arg')
    return num, var


def one(cands, what):
    if len(cands) != 1:
        raise Unreadable('%s: %d rows apply' % (what, len(cands)))
    lits, r = cands[0]
    if lits:
        raise Unreadable('%s depends on %s' % (what, ' & '.join(show(l) for l in lits)[:200]))
    return r


def names(s):
    """the variants in a set built up one by one"""
    if s.op == 'agg' and len(s.args[2]) == 1 and s.args[1] is None:
        return names(fields(s)[0])
    if s.op == 'emptyset':
        return set()
    if s.op == 'sadd':
        e = s.args[1]
        if e.op == 'agg':
            return names(s.args[0]) | {e.args[1]}
        if e.op == 'int':
            return names(s.args[0]) | {e.args[0]}
    raise Unreadable('not a set: %s' % show(s)[:120])


def fields(v):
    return [x[1] if isinstance(x, tuple) else x for x in v.args[2]]


def decode(v):
    """an action: ('s', n), ('r', n), ('acc',), None for an error"""
    if v is not None and v.op == 'agg':
        n, a = v.args[1], fields(v)
        if n == 'Accept':
            return ('acc',)
        if n == 'SyntaxError':
            return None
        if n in ('Shift', 'Reduce') and a and a[0].op == 'int':
            return ('s' if n == 'Shift' else 'r', a[0].args[0])
    raise Unreadable('not an action: %s' % (show(v)[:120] if v is not None else None))


def automaton(X, rep, crate, f, sp, L, acts, gotos, tab, decided):
    n = 0
    terminals = list(sp.tokens) + ['AAEnd']
    nonterms = list(L.by_lhs)

    def bad(name, key, what):
        p, _, at = tab[name]
        rep.violation('tables %s %s %s' % (crate, name, key), p, at, '%s is not what %s gives: %s' % (name, f, what),
                      {'rule': 'tables against the automaton of the grammar file'})

    if 'production_data' in tab:
        _, rows, _ = tab['production_data']
        num, var = args_of(rows)
        if len(num) != 1 or var:
            raise Unreadable('production_data looks at %s' % [show(x) for x in num | var])
        a, = num
        for p in list(sp.prods) + [None]:
            i = p.idx if p else len(sp.prods)
            r = one([c for c in (put((r.lits, r), {a: terms.I(i)}) for r in rows) if c], 'production %d' % i)
            n += 1
            if p is None:
                if r.kind == 'ret':
                    bad('production_data', 'extra', 'there is a production %d' % i)
                continue
            if r.kind != 'ret':
                bad('production_data', str(i), 'production %d (%s) is missing' % (i, p.lhs))
                continue
            v = flatvals(r.val)
            if v != (p.lhs, len(p.rhs)):
                bad('production_data', str(i), 'production %d is %s, should be %s' % (i, v, (p.lhs, len(p.rhs))))
        decided.append(tab['production_data'][0])
    if 'next_action' not in tab or 'goto_state' not in tab:
        raise Unreadable('next_action and goto_state are not both tables')

    def grid(name, variants):
        """state, variant -> the rows that apply, evaluated on demand"""
        _, rows, _ = tab[name]
        num, var = args_of(rows, variants)
        if len(num) != 1 or len(var) > 1:
            raise Unreadable('%s looks at %s' % (name, [show(x) for x in num | var]))
        a, = num
        v = next(iter(var)) if var else None
        memo = {}

        def get(s, x):
            if s not in memo:
                memo[s] = [c for c in (put((r.lits, r), {a: terms.I(s)}) for r in rows) if c]
            c = memo[s]
            if v is not None:
                c = [d for d in (put(e, {v: variant(x)}) for e in c) if d]
            return c
        return get

    act = grid('next_action', terminals)
    goto = grid('goto_state', nonterms)
    plain = True
    # walk both automata together from the start state
    iso = {0: 0}
    back = {0: 0}
    work = [0]

    def pair(s, t, name, key, what):
        if s in iso:
            if iso[s] != t:
                bad(name, key, '%s leads to state %d, but to the state that is %d elsewhere' % (what, t, iso[s]))
            return
        if t in back:
            bad(name, key, '%s leads to state %d, which stands for another state' % (what, t))
            return
        iso[s] = t
        back[t] = s
        work.append(s)

    while work:
        s = work.pop()
        t = iso[s]
        for x in terminals:
            want = acts[s].get(x, [])
            rs = act(t, x)
            n += 1
            key = '%d %s' % (t, x)
            what = 'in state %d on %s' % (t, x)
            guarded = [w for w in want if w[0] == 'r' and sp.prods[w[1]].predicate is not None]
            if guarded or len(want) > 1:
                # which of them is taken depends on the predicates; what is offered does not
                plain = False
                have = {decode(r.val) for _, r in rs if r.kind == 'ret'}
                w = set(want) | ({None} if len(guarded) == len(want) else set())
                if any(y and y[0] == 's' for y in have | w):
                    raise Unreadable('%s there is a shift beside predicates' % what)
                if have != w:
                    bad('next_action', key, '%s the actions are %s, should be %s' % (what, sorted(map(str, have)),
                                                                                    sorted(map(str, w))))
                continue
            r = one(rs, 'next_action ' + what)
            have = decode(r.val) if r.kind == 'ret' else ('panic',)
            w = want[0] if want else None
            if w is not None and have is not None and w[0] == 's' and have[0] == 's':
                pair(w[1], have[1], 'next_action', key, what)
            elif w != have:
                bad('next_action', key, '%s the action is %s, should be %s' % (what, have, w if w is None or w[0] != 's'
                                                                              else 'a shift'))
        for x in nonterms:
            r = one(goto(t, x), 'goto_state of %d and %s' % (t, x))
            n += 1
            have = r.val.args[0] if r.kind == 'ret' and r.val is not None and r.val.op == 'int' else None
            if r.kind == 'ret' and have is None:
                raise Unreadable('goto is %s' % show(r.val)[:100])
            w = gotos[s].get(x)
            key = '%d %s' % (t, x)
            what = 'in state %d after %s' % (t, x)
            if w is not None and have is not None:
                pair(w, have, 'goto_state', key, what)
            elif w != have and w is not None:
                bad('goto_state', key, '%s there is no state to go to' % what)
    if plain:
        decided.append(tab['next_action'][0])
    decided.append(tab['goto_state'][0])
    for name in ('look_ahead_set', 'viable_error_recovery_states'):
        if name not in tab or name[0] == 'v' and sp.has_error:
            continue
        _, rows, _ = tab[name]
        num, var = args_of(rows)
        ok = True
        for s, t in sorted(iso.items()):
            m = {a: terms.I(t) for a in num} if name[0] == 'l' else {}
            if name[0] == 'l' and (len(num) > 1 or var):
                ok = False
                break
            c = [c for c in (put((r.lits, r), m) for r in rows) if c]
            if name[0] == 'v':
                for _, r in c:
                    if r.kind == 'ret' and names(r.val):
                        bad(name, 'set', 'states are viable although no production ends in %error')
                n += 1
                break
            r = one(c, '%s of state %d' % (name, t))
            n += 1
            if r.kind != 'ret':
                bad(name, str(t), 'state %d is missing' % t)
            elif names(r.val) != L.final_la[s]:
                bad(name, str(t), 'the expected tokens of state %d are %s, should be %s' % (
                    t, sorted(map(str, names(r.val))), sorted(L.final_la[s])))
        if ok:
            decided.append(tab[name][0])
    return n


def flatvals(v):
    if v is not None and v.op == 'agg':
        f = fields(v)
        if len(f) == 2 and f[0].op == 'agg' and f[1].op == 'int':
            return f[0].args[1], f[1].args[0]
    raise Unreadable('not production data: %s' % (show(v)[:100] if v is not None else None))


def lexer(X, rep, crate, f, sp):
    p = [q for q in X.cur.prog.bodies if q.startswith('<%s::parser::AALEXAN as' % crate)
         and q.endswith('__static_ref_initialize')]
    if len(p) != 1:
        raise Unreadable('%d initialisers' % len(p))
    ex, root, err, _ = X.summary(X.cur, p[0], X.boundary)
    if root is None:
        raise Unreadable(err)
    at = X.cur.prog.bodies[p[0]].span
    calls = []
    for r in root.rows:
        if r.kind == 'ret':
            calls = [x for x in subterms(r.val) if named(x).split('::')[-1] == 'new' and len(x.args) >= 5
                     and all(y.op == 'seq' for y in x.args[1:4])]
    if not calls:
        raise Unreadable('no table of tokens')
    lits, res, skips, end = calls[0].args[1:5]

    def elements(t):
        if any(x.op != 'el' for x in t.args):
            raise Unreadable('not a list: %s' % show(t)[:80])
        return [y for x in t.args for y in x.args]

    def text(t):
        if t.op != 'str':
            raise Unreadable('not a text: %s' % show(t)[:80])
        return t.args[0]

    def entry(t):
        a = fields(t) if t.op == 'agg' else []
        if len(a) != 2 or a[0].op != 'agg':
            raise Unreadable('not a token: %s' % show(t)[:80])
        return a[0].args[1], text(a[1])
    have = (sorted(map(entry, elements(lits))), sorted(map(entry, elements(res))), [text(x) for x in elements(skips)],
            end.args[1] if end.op == 'agg' else None)
    want = (sorted((k, t[1:-1]) for k, (kd, t) in sp.tokens.items() if kd == 'lit'),
            sorted((k, t) for k, (kd, t) in sp.tokens.items() if kd == 're'), list(sp.skips), 'AAEnd')
    for h, w, what in zip(have, want, ('literal tokens', 'pattern tokens', 'skip rules', 'end token')):
        if h != w:
            rep.violation('lexer tables %s %s' % (crate, what), p[0], at, 'the %s are not those of %s: %s' % (
                what, f, [x for x in list(h) + list(w) if x not in h or x not in w][:4]
                if isinstance(h, list) else (h, w)), {'rule': 'lexer tables against the grammar file'})
    rep.cov['lexer_' + crate] = {'literals': len(have[0]), 'patterns': len(have[1]), 'skips': len(have[2])}


RULES = {'T01': [shipped_tables], 'G14': [determinism], 'C01': [driver], 'C02': [driver], 'C03': [write_errors]}
