"""Gives what the current tree merely renamed or moved (types, private fields, functions) the names of the reference, so
that the comparison is about behaviour.  A wrong guess does no harm: what it pairs is then compared like anything else.
Also finds the types whose representation changed, which comparisons cannot look through."""
import collections
import glob
import json
import os
import re

import mir
import scope


def local_adts(adts):
    return {p: a for p, a in adts.items() if a['local'] and not p.startswith('shims::')}


def shape(p, a, names=True):
    """structure of a type, itself called SELF"""
    own = re.compile(r'(?<![\w:])%s(?!\w)' % re.escape(p))
    return json.dumps([a['kind'], [[v['name'] if a['kind'] == 'enum' else '', [
        [f[0] if names else '', own.sub('SELF', f[1])] for f in v['fields']]] for v in a['variants']]])


KIND = [(re.compile(r'\b(?:std|alloc|core|hashbrown)::[\w:]*::(?:HashMap|BTreeMap)\b'), 'Map'),
        (re.compile(r'\b(?:std|alloc|core|hashbrown)::[\w:]*::(?:HashSet|BTreeSet)\b'), 'Set'),
        (re.compile(r'\b(?:std|alloc|core)::[\w:]*::(?:Vec|VecDeque)\b'), 'Vec'),
        (re.compile(r'\b(?:u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|u128|i128)\b'), 'int')]


def family(t):
    for r, k in KIND:
        t = r.sub(k, t)
    return t


def merged_adts(js):
    out = {}
    for j in js:
        for p, a in j['adts'].items():
            o = out.get(p)
            if o is None or (a['local'] and not o['local']):
                out[p] = a
    return out


def type_renames(ref, cur):
    gone = {p: a for p, a in ref.items() if p not in cur}
    new = {p: a for p, a in cur.items() if p not in ref}
    out = {}
    for names in (True, False):
        by = collections.defaultdict(lambda: ([], []))
        for p, a in gone.items():
            if p not in out.values():
                by[(p.split('::')[0], shape(p, a, names))][0].append(p)
        for p, a in new.items():
            if p not in out:
                by[(p.split('::')[0], shape(p, a, names))][1].append(p)
        for k, (g, n) in by.items():
            if len(g) == 1 and len(n) == 1:
                out[n[0]] = g[0]
            else:
                for q in n:
                    same = [p for p in g if p.split('::')[-1] == q.split('::')[-1]]
                    if len(same) == 1:
                        out[q] = same[0]
    # a type that was only moved, whatever happened to it meanwhile
    for q in new:
        if q in out:
            continue
        same = [p for p in gone if p not in out.values() and p.split('::')[-1] == q.split('::')[-1]
                and p.split('::')[0] == q.split('::')[0]]
        if len(same) == 1:
            out[q] = same[0]
    return out


def replace_paths(js, ren):
    if not ren:
        return js
    r = re.compile(r'(?<![\w:])(%s)(?!\w)' % '|'.join(re.escape(p) for p in sorted(ren, key=len, reverse=True)))
    return [json.loads(r.sub(lambda m: ren[m.group(1)], json.dumps(j))) for j in js]


def field_renames(ref, cur):
    """struct -> ({current name: reference name}, field names in the reference's order)"""
    out = {}
    for p, a in ref.items():
        c = cur.get(p)
        if c is None or a['kind'] != 'struct' or c['kind'] != 'struct':
            continue
        rf, cf = a['variants'][0]['fields'], c['variants'][0]['fields']
        if [f[0] for f in rf] == [f[0] for f in cf]:
            continue
        rn, cn = [f[0] for f in rf], [f[0] for f in cf]
        gone = [f for f in rf if f[0] not in cn]
        new = [f for f in cf if f[0] not in rn]
        ren = {}
        for t in {family(f[1]) for f in gone}:
            g = [f[0] for f in gone if family(f[1]) == t]
            n = [f[0] for f in new if family(f[1]) == t]
            if len(g) == len(n):
                ren.update(zip(n, g))
        names = [ren.get(x, x) for x in cn]
        order = [x for x in rn if x in names] + [x for x in names if x not in rn]
        out[p] = (ren, order)
    return out


def apply_fields(x, fr):
    if isinstance(x, dict):
        for v in x.values():
            apply_fields(v, fr)
    elif isinstance(x, list):
        if len(x) == 4 and x[0] == 'f' and isinstance(x[3], str) and x[3] in fr:
            x[1] = fr[x[3]][0].get(x[1], x[1])
            return
        if len(x) == 3 and x[0] == 'agg' and isinstance(x[1], dict) and x[1].get('adt') in fr:
            ren, order = fr[x[1]['adt']]
            f = [ren.get(n, n) for n in x[1]['f']]
            if len(f) == len(x[2]):
                pairs = sorted(zip(f, x[2]), key=lambda p: order.index(p[0]) if p[0] in order else len(order))
                x[1]['f'] = [p[0] for p in pairs]
                x[2] = [p[1] for p in pairs]
        for y in x:
            apply_fields(y, fr)


def parent(p):
    return p.rsplit('::', 1)[0]


def sig(locals_, n):
    return json.dumps(locals_[:n + 1], sort_keys=True)


def callees(blocks):
    out = collections.Counter()
    for b in blocks:
        if not b.get('u') and b['t'][0] == 'call' and isinstance(b['t'][1], dict) and b['t'][1].get('c') == 'fn':
            out[b['t'][1]['fn']] += 1
    return out


def fn_renames(prog, js):
    cur = {b['path']: b for j in js for b in j['bodies'] if b['kind'] == 'fn'}
    gone = [b for p, b in prog.bodies.items() if b.kind == 'fn' and p not in cur and not scope.main_api(p, b)
            and not b.trait]
    new = [b for p, b in cur.items() if p not in prog.bodies and not b.get('trait')]
    by = collections.defaultdict(lambda: ([], []))
    moved = collections.defaultdict(lambda: ([], []))
    for b in gone:
        s = sig(b.locals, b.nargs)
        by[(parent(b.path), s)][0].append(b)
        moved[(b.path.split('::')[0].lstrip('<'), b.path.split('::')[-1], s)][0].append(b)
    for b in new:
        s = sig(b['locals'], b['args'])
        by[(parent(b['path']), s)][1].append(b)
        moved[(b['path'].split('::')[0].lstrip('<'), b['path'].split('::')[-1], s)][1].append(b)
    out = {}
    for table in (by, moved):
        for g, n in table.values():
            g = [b for b in g if b.path not in out.values()]
            n = [b for b in n if b['path'] not in out]
            if not g or not n:
                continue
            score = sorted(((like(x, y), x.path, y['path']) for x in g for y in n), reverse=True)
            ok = {s[1:]: s[0] for s in score}
            for s, p, q in score:
                if p in out.values() or q in out:
                    continue
                if len(g) == 1 and len(n) == 1 or s >= 0.5 and all(
                        ok[k] < s for k in ok if k != (p, q) and (k[0] == p or k[1] == q)):
                    out[q] = p
    return out


def like(x, y):
    a, b = callees(x.blocks), callees(y['blocks'])
    u = sum((a | b).values())
    return sum((a & b).values()) / u if u else 1.0


def rename_fns(x, ren):
    """the last path segment is also kept apart, as the name"""
    if isinstance(x, dict):
        for k in ('res', 'fn'):
            if x.get('c') == 'fn' and x.get(k) in ren and 'name' in x:
                x['name'] = ren[x[k]].split('::')[-1]
        for v in x.values():
            rename_fns(v, ren)
    elif isinstance(x, list):
        for y in x:
            rename_fns(y, ren)


def changed_layouts(ref, cur):
    """types whose fields cannot be told apart from the reference's"""
    out = set()
    for p, a in ref.items():
        c = cur.get(p)
        if c is None:
            out.add(p)
            continue
        if a['kind'] != 'struct' or c['kind'] != 'struct':
            continue
        rf = {f[0]: family(f[1]) for f in a['variants'][0]['fields']}
        cf = {f[0]: family(f[1]) for f in c['variants'][0]['fields']}
        if any(n not in cf or cf[n] != t for n, t in rf.items()):
            out.add(p)
    return out


def reconcile(prog, js):
    """(crates of the current tree with the reference's names, types of changed representation, types renamed in any way,
    what was renamed)"""
    ref = local_adts(prog.adts)
    note = []
    cur = local_adts(merged_adts(js))
    tr = type_renames(ref, cur)
    if tr:
        js = replace_paths(js, tr)
        cur = local_adts(merged_adts(js))
        note += ['type %s was %s' % kv for kv in sorted(tr.items())]
    fr = field_renames(ref, cur)
    if fr:
        for j in js:
            for b in j['bodies']:
                apply_fields(b, fr)
            for p, a in j['adts'].items():
                if p in fr:
                    ren, order = fr[p]
                    fs = [[ren.get(f[0], f[0]), f[1]] for f in a['variants'][0]['fields']]
                    a['variants'][0]['fields'] = sorted(fs, key=lambda f: order.index(f[0]))
        cur = local_adts(merged_adts(js))
        note += ['%s: field %s was %s' % (p, k, v) for p, (ren, _) in sorted(fr.items()) for k, v in sorted(ren.items())]
    fn = fn_renames(prog, js)
    if fn:
        for j in js:
            for b in j['bodies']:
                if b['path'] in fn:
                    b['name'] = fn[b['path']].split('::')[-1]
                rename_fns(b, fn)
        js = replace_paths(js, fn)
        note += ['function %s was %s' % kv for kv in sorted(fn.items())]
    changed = changed_layouts(ref, cur)
    return js, changed, changed | set(tr.values()) | set(fr), note


def load(d, tag, prog):
    js = []
    for f in sorted(glob.glob(os.path.join(d, '*.json'))):
        with open(f) as h:
            js.append(json.load(h))
    js, changed, touched, note = reconcile(prog, js)
    p = mir.Program(tag)
    for j in js:
        p.add(j)
    p.changed, p.touched, p.renamed = frozenset(changed), frozenset(touched), note
    return p
