"""P10 the columns of a table are understood as the table's description declares them."""
import re
from sa.lib import *
from sa.build import Broken
from sa.terms import Terms, simple
from sa.paths import paths
from rules.p09 import inner_loop
from sa.absint import AI, stdcalls, uns

ASSUMPTIONS = ['std::stoi and std::string comparison behave as documented',
               'a nested description node has the six parts name, type, NULL, length, precision, case']
DECL = 'field_type_declaration'
LETTERS = {'B': 'tf_binary', 'L': 'tf_bool', 'N': 'tf_numeric', 'NC': 'tf_char', 'NVC': 'tf_varchar', 'RV': 'tf_version',
           'NT': 'tf_string', 'T': 'tf_text', 'I': 'tf_image', 'DT': 'tf_datetime', 'VB': 'tf_varbinary'}
SIZES = {'tf_binary': lambda n: n, 'tf_bool': lambda n: 1, 'tf_numeric': lambda n: (n + 2) // 2, 'tf_char': lambda n: 2 * n,
         'tf_varchar': lambda n: 2 * n + 2, 'tf_version': lambda n: 16, 'tf_string': lambda n: 8, 'tf_text': lambda n: 8,
         'tf_image': lambda n: 8, 'tf_datetime': lambda n: 7, 'tf_version8': lambda n: 8, 'tf_varbinary': lambda n: n + 2}
NODE = {0: 'type', 1: 'NULL mark', 2: 'length', 3: 'precision', 4: 'case mark'}


def run(P, rep):
    rep.rule('letters', 'each type letter of a description stands for its type, any other text is refused', 12)
    rep.rule('marks', 'the NULL mark and the case mark have their two values, any other text is refused', 4)
    rep.rule('nodes', 'length and precision come from their places, and a node of the wrong kind is refused', 5)
    rep.rule('size', 'a value takes the bytes its type and length say, and a nullable column one more', 12)
    rep.rule('class', 'the values of each type are presented by code for that type', 12)
    rep.rule('null', 'a value is NULL exactly if its column is nullable and its mark is zero; values are read behind the mark', 6)
    rep.rule('layout', 'columns follow each other: the removal mark, the version, the others, each behind the one before', 5)
    rep.rule('hidden', 'a table with record locks and no version column has a hidden one', 3)
    types = enum_values(P, 'type_fields')
    kinds = enum_values(P, 'node_type')
    if not types or not kinds:
        raise Broken('column types not found')
    parse(P, rep, types, kinds)
    sizes(P, rep, types)
    classes(P, rep, types)
    nulls(P, rep)
    layout(P, rep, types)


# ---------------------------------------------------------------- the description of a column
def depth(t):
    """how many nodes behind the argument a term starts"""
    n = 0
    while t[0] == 'ld' and t[1][0] == 'fld' and t[1][3] == 'next':
        n += 1
        t = t[1][1]
    return (n, t) if t[0] == 'arg' else (None, t)


def value_node(t):
    """number of the node whose text a term is"""
    for s in walk(t):
        if s[0] == 'call' and s[1] == 'Tree::get_value':
            return depth(s[2])[0]
        if s[0] == 'ld' and s[1][0] == 'fld' and s[1][3] == 'value':
            return depth(s[1][1])[0]
    return None


def text_compare(P, f, T, x):
    """(node, constant, negated) of a comparison of a node's text with a constant"""
    q = simple(P.callee_name(x) or '')
    if not q.endswith(('operator==', 'operator!=', '::compare', 'EqualIC')) or len(x.ops) < 2:
        return None
    a, b = T.t(x.ops[0]), T.t(x.ops[1])
    if a[0] == 's':
        a, b = b, a
    if b[0] != 's':
        return None
    n = value_node(a)
    return None if n is None else (n, b[1], q.endswith(('operator!=', '::compare')), q.endswith('EqualIC'))


def parse(P, rep, types, kinds):
    fs = [f for f in P.fns(DECL + '::parse_tree')]
    if not fs:
        raise Broken('parser of column types not found')
    f = fs[0]
    rep.saw(f)
    T = Terms(f)
    dst = None
    if f.raw.get('sret') is not None or (f.args and f.args[0][2]):
        dst = ('arg', 0)
    cells = {}
    for k in ('type', 'null_exists', 'length', 'precision', 'case_sensitive'):
        cells[k] = {f.e(x.ops[1]) for x in f.all() if x.op == 'store' and fieldname(f.e(x.ops[1])) == (DECL, k)}
    src = {}
    for x in f.all():
        e = f.e(x.id)
        if e[0] == 'ld' and e[1][0] == 'fld' and e[1][2:] == ('Tree', 'type'):
            n, _ = depth(e[1][1])
            if n is not None:
                src[e[1]] = n

    def outcome(texts, kind):
        def call(ai, fn, x, argv, m, env):
            c = text_compare(P, fn, T, x)
            if c:
                n, s, ng, ic = c
                if n not in texts:
                    return None
                eq = texts[n] == s or ic and texts[n].lower() == s.lower()
                return (int(eq != ng),)
            return stdcalls(ai, fn, x, argv, m, env)
        mem = {k: kind[n] for k, n in src.items() if n in kind}
        res = set()
        for k, v, m in AI(P, call=call).run(f, {}, mem):
            m = dict(m)
            row = [k]
            for c in ('type', 'null_exists', 'case_sensitive'):
                vs = [m[a] for a in cells[c] if a in m]
                row.append(vs[0] if len(vs) == 1 else None)
            res.add(tuple(row))
        return res
    S, N = kinds.get('nd_string'), kinds.get('nd_number')
    good = {0: 'N', 1: '1', 4: 'CS'}
    right = {0: S, 1: N, 2: N, 3: N, 4: S}
    for l, t in sorted(LETTERS.items()):
        r = outcome({**good, 0: l}, right)
        ok = {x[1] for x in r if x[0] == 'ret'} == {types[t]} and all(x[0] == 'ret' for x in r)
        rep.ob('letters', l, ok, floc(f), 'a column of type %s is not taken for %s' % (l, t))
    for l in ('', 'X', 'b', 'NN', 'V'):
        r = outcome({**good, 0: l}, right)
        rep.ob('letters', 'other text %r' % l, all(x[0] == 'exc' for x in r), floc(f), 'the type %r is accepted' % l)
    for n, name, col, vals in ((1, 'NULL mark', 2, {'0': 0, '1': 1}), (4, 'case mark', 3, {'CS': 1, 'CI': 0})):
        for s, v in vals.items():
            r = outcome({**good, n: s}, right)
            rep.ob('marks', '%s %s' % (name, s), {x[col] for x in r} == {v} and all(x[0] == 'ret' for x in r), floc(f), '%s %s is not understood as such' % (name, s))
        for s in ('', '2', 'C', 'cs'):
            r = outcome({**good, n: s}, right)
            rep.ob('marks', '%s %r' % (name, s), all(x[0] == 'exc' for x in r), floc(f), '%s %r is accepted' % (name, s))
    for n in right:
        for w in sorted(set(kinds.values()) - {right[n]}):
            r = outcome(good, {**right, n: w})
            rep.ob('nodes', '%s of kind %d' % (NODE[n], w), all(x[0] == 'exc' for x in r), floc(f), 'a %s that is a node of the wrong kind is accepted' % NODE[n])
    for k, n in (('length', 2), ('precision', 3)):
        for x in f.all():
            if x.op == 'store' and f.e(x.ops[1]) in cells[k]:
                rep.ob('nodes', k, value_node(T.t(x.ops[0])) == n, loc(x), 'the %s is not read from its own node' % k)
        if not cells[k]:
            rep.ob('nodes', k, False, floc(f), 'the %s is never read' % k)
    ft = P.fns('Field::field_from_tree')
    if not ft:
        raise Broken('reader of a column not found')
    g = ft[0]
    rep.saw(g)
    T = Terms(g)
    for x in g.calls():
        if P.callee_name(x) == DECL + '::parse_tree':
            a = [depth(T.t(o)) for i, o in enumerate(x.ops) if i != x.raw.get('sret')]
            rep.ob('nodes', 'start', a and a[0][0] == 1, loc(x), 'the type of a column is not read from the node behind its name')
    for x in g.all():
        if x.op == 'store' and fieldname(g.e(x.ops[1])) == ('Field', 'null_exists') and not is_const(g.e(x.ops[0])):
            rep.ob('marks', 'kept', 'null_exists' in [s[3] for s in walk(g.e(x.ops[0])) if s[0] == 'fld'], loc(x), 'the NULL mark of the description is not the NULL mark of the column')
    made = [x for x in g.calls() if P.callee_name(x) == 'FieldType::create_type_manager']
    rep.ob('class', 'made', len(made) == 1 and all(any(fieldname(g.e(y.ops[1])) == ('Field', 'type_manager') and g.e(y.ops[0]) == g.e(x.id) for y in g.all() if y.op == 'store') for x in made), floc(g), 'the column does not get the code of its type')


def is_const(e):
    return e[0] == 'c'


# ---------------------------------------------------------------- sizes
def sizes(P, rep, types):
    fs = [f for f in P.functions.values() if f.name == 'get_size' or f.q.endswith('FieldType::get_size')]
    fs = [f for f in fs if f.q.endswith('FieldType::get_size') and f.blocks]
    if not fs:
        raise Broken('size of a column type not found')
    for f in fs:
        rep.saw(f)
        cls = f.q.rsplit('::', 1)[0]
        this = ('arg', 0)
        cell = {}
        for x in f.all():
            for e in walk(f.e(x.id)) if x.op == 'load' else ():
                if e[0] == 'fld':
                    cell.setdefault(e[3], e)
        for x in f.all():
            if x.op == 'store':
                e = f.e(x.ops[1])
                if e[0] == 'fld':
                    cell.setdefault(e[3], e)
        if 'type' not in cell:
            continue
        # the size never depends on the length by a decision, so that agreement on the lengths tried is agreement everywhere
        for b in range(len(f.blocks)):
            t = f.blocks[b][-1]
            if t.op in ('br', 'switch') and t.ops and any(s == ('ld', cell.get('length')) for s in walk(f.e(t.ops[0]))):
                rep.ob('size', 'decision on the length', False, loc(t), 'the size of a value depends on its declared length by a decision')
        for t, fn in SIZES.items():
            bad = None
            for n in (0, 1, 2, 3, 5, 8, 16, 38, 150, 1024, 4096):
                mem = {cell['type']: types[t]}
                if 'length' in cell:
                    mem[cell['length']] = n
                for k, c in cell.items():
                    if k not in ('type', 'length'):
                        mem[c] = 0
                res = {(k, v) for k, v, m in AI(P, call=stdcalls).run(f, {}, mem)}
                if res != {('ret', fn(n))}:
                    bad = bad or (n, sorted(str(v) for k, v in res))
            rep.ob('size', t, bad is None, floc(f), bad and 'a %s value of length %d takes %s bytes instead of %d' % (t[3:], bad[0], '/'.join(bad[1]), fn(bad[0])))
    g = P.fns('Field::get_size')
    if not g:
        raise Broken('size of a column not found')
    g = g[0]
    rep.saw(g)
    for v in (0, 1):
        cell = {e[1] for x in g.all() for e in [g.e(x.id)] if e[0] == 'ld' and e[1][0] == 'fld' and e[1][3] == 'null_exists'}

        def call(ai, fn, x, argv, m, env):
            if x.callee is None or (P.callee_name(x) or '').endswith('get_size') or any(q.endswith('::get_size') for q in P.target_qs(x)):
                return (100,)
        res = {r for k, r, m in AI(P, call=call).run(g, {}, {c: v for c in cell})}
        rep.ob('size', 'mark %d' % v, res == {100 + v}, floc(g), 'the size of a %s column is not the size of its value%s' % (('plain', 'nullable')[v], ('', ' and the mark')[v]))


# ---------------------------------------------------------------- classes
def classes(P, rep, types):
    f = P.fns('FieldType::create_type_manager')
    if not f:
        raise Broken('choice of the code for a type not found')
    f = f[0]
    rep.saw(f)
    made = {}
    cells = {}
    for x in f.all():
        e = f.e(x.id) if x.op == 'load' else None
        if e and e[0] == 'ld' and e[1][0] == 'fld':
            cells.setdefault(e[1][3], e[1])
    lens = {16, 4}
    v8 = P.fns('FieldType::Version8')
    ctor = lambda x: (P.callee_name(x) or '').endswith('FieldType::' + (P.callee_name(x) or '').rsplit('::', 1)[-1]) and (P.callee_name(x) or '').split('::')[-2:][0] == (P.callee_name(x) or '').split('::')[-1]
    for t, tv in types.items():
        for n in lens:
            for guid in (0, 1):
                got = set()

                def on(fn, x, argv, m):
                    if x.is_call and ctor(x):
                        got.add(P.callee_name(x).rsplit('::', 1)[0])
                mem = {}
                if 'type' in cells:
                    mem[cells['type']] = tv
                if 'length' in cells:
                    mem[cells['length']] = n
                AI(P, call=stdcalls, on=on).run(f, {1: guid}, mem)
                made[t, n, guid] = got
    for t, tv in types.items():
        cs = set().union(*(made[t, n, g] for n in lens for g in (0, 1)))
        one = all(len(made[t, n, g]) == 1 for n in lens for g in (0, 1))
        rep.ob('class', 'one for ' + t, one, floc(f), 'the code for a %s column is not determined' % t[3:])
        for c in sorted(cs):
            for m in ('get_presentation', 'get_XML_presentation'):
                g = method_of(P, c, m)
                if not g:
                    raise Broken('%s of %s not found' % (m, c))
                rep.saw(g)
                why = handles(P, g, tv, types)
                rep.ob('class', '%s %s::%s' % (t[3:], c, m), not why, floc(g), 'a %s value is shown as "{?}" by %s' % (t[3:], c))
    for n in lens:
        rep.ob('class', 'guid of %d' % n, (made['tf_binary', n, 1] == {'GuidFieldType'}) == (n == 16), floc(f), 'exactly the identifiers of 16 bytes are shown as such')
        rep.ob('class', 'binary of %d' % n, 'GuidFieldType' not in made['tf_binary', n, 0], floc(f), 'a binary value that is no identifier is shown as one')
    # the name of the type
    names = {}
    for g in [g for g in P.functions.values() if g.q.endswith('FieldType::get_presentation_type') and g.blocks]:
        rep.saw(g)
        for t, tv in types.items():
            s = shown(P, g, tv)
            rep.ob('class', 'name of ' + t, len(s) == 1 and s[0] != '{?}' and names.setdefault(s[0], t) == t, floc(g), 'the type %s is named %s' % (t[3:], s))
    if v8:
        g = v8[0]
        rep.saw(g)
        st = [g.e(x.ops[0]) for x in g.all() if x.op == 'store' and fieldname(g.e(x.ops[1])) == (DECL, 'type')]
        rep.ob('hidden', 'type', bool(st) and st[-1] == ('c', types['tf_version8']), floc(g), 'the hidden version column is not of its type')
    # bool
    for g in [h for h in P.functions.values() if h.q in ('CommonFieldType::get_presentation', 'CommonFieldType::get_XML_presentation')]:
        for v in (0, 1, 255):
            s = shown(P, g, types['tf_bool'], byte=v)
            rep.ob('class', 'bool %d %s' % (v, g.q.rsplit('::', 1)[-1]), s == ['true' if v else 'false'], floc(g), 'the logical value %d is shown as %s' % (v, s))


def method_of(P, cls, name, seen=()):
    for f in P.fns(cls + '::' + name):
        return f
    base = {'GuidFieldType': 'BinaryFieldType'}.get(cls, 'CommonFieldType')
    return method_of(P, base, name, seen + (cls,)) if cls not in seen and base != cls else None


def shown(P, g, tv, byte=None):
    """constant texts a function makes its result from for a type"""
    cells = {e[1] for x in g.all() if x.op == 'load' for e in [g.e(x.id)] if e[0] == 'ld' and e[1][0] == 'fld' and e[1][3] == 'type'}
    mem = {c: tv for c in cells}
    if byte is not None:
        for x in g.all():
            if x.op == 'load' and x.raw['t'] == 'i8':
                e = g.e(x.ops[0])
                if e[0] == 'arg':
                    mem[e] = byte
    got = set()

    def on(fn, x, argv, m):
        if x.is_call and fn is g:
            q = P.callee_name(x) or ''
            if q.endswith('::basic_string') and fn.e(x.ops[0]) == ('arg', 0):
                for o in x.ops[1:2]:
                    e = fn.e(o)
                    if e[0] == 's':
                        got.add(e[1])
    AI(P, call=stdcalls, on=on).run(g, {}, mem)
    return sorted(got)


def handles(P, g, tv, types):
    s = shown(P, g, tv)
    return '{?}' in s


# ---------------------------------------------------------------- NULL
def place_of(e):
    """(base, offset) of an address"""
    acc = (0, {})
    while e[0] == 'elt' and e[3] == 1 or e[0] == 'lin':
        if e[0] == 'lin':
            bases = [t for t, c in e[2] if c == 1 and t[0] in ('arg', 'ld') and t[0] == 'arg']
            break
        acc = lin_add(acc, lin_of(e[2]), 1)
        e = e[1]
    return e, lin_make(acc)


def fold_null(e, v):
    """an expression for a column that is nullable (1) or not (0)"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == 'ld' and e[1][0] == 'fld' and e[1][2:] == ('Field', 'null_exists'):
        return ('c', v)
    r = tuple(fold_null(s, v) if isinstance(s, tuple) else s for s in e)
    if r[0] == 'sel' and r[1][0] == 'c':
        return r[2] if r[1][1] else r[3]
    if r[0] in ('lin',):
        acc = (r[1], {})
        for t, c in r[2]:
            acc = lin_add(acc, lin_scale(lin_of(t), c), 1)
        return lin_make(acc)
    if r[0] in ('zext', 'sext', 'trunc') and r[1][0] == 'c':
        return r[1]
    return r


def null_truth(c, v):
    """truth of a path condition for a nullable / not nullable column, None if it does not say"""
    c = fold_null(c, v)
    if c[0] == 'c':
        return bool(c[1])
    if c[0] == 'not' and c[1][0] == 'c':
        return not c[1][1]
    if c[0] == 'cmp' and c[2][0] == 'c' and c[3][0] == 'c':
        return {'eq': c[2][1] == c[3][1], 'ne': c[2][1] != c[3][1]}.get(c[1])
    return None


def nulls(P, rep):
    # the readers of a column
    for q, m in (('Field::get_presentation', 'get_presentation'), ('Field::get_XML_presentation', 'get_XML_presentation')):
        for f in P.fns(q):
            rep.saw(f)
            goal = [x for x in f.calls() if any(t.endswith('FieldType::' + m) for t in P.target_qs(x))]
            if not goal:
                raise Broken('%s does not ask the type of the column' % q)
            off = ('ld', ('fld', ('arg', 1), 'Field', 'offset'))
            want = lambda v: (('arg', 2), lin_make(lin_add(lin_of(off), (v, {}), 1)))
            for v in (0, 1):
                n = 0
                for p in paths(f, None, lambda x: x in goal):
                    if any(null_truth(c, v) is False for c in p.conds):
                        continue
                    n += 1
                    x = p.raw
                    ptr = [p.val(o) for i, o in enumerate(x.ops) if i != x.raw.get('sret')][1]
                    ok = place_of(fold_null(ptr, v)) == want(v)
                    rep.ob('null', '%s read %d' % (q, v), ok, loc(x), 'the value of a %s column is not read %s' % (('plain', 'nullable')[v], ('at its place', 'behind its mark')[v]))
                    tests = [c for c in p.conds if any(s[0] == 'ld' and place_of(s[1])[0] == ('arg', 2) for s in walk(c))]
                    if v == 0:
                        rep.ob('null', q + ' plain', not tests, loc(x), 'a value of a column without a mark is taken for NULL')
                    else:
                        good = [c for c in tests if mark_test(c, ('arg', 2), off, True)]
                        rep.ob('null', q + ' nullable', len(good) == len(tests) and len(good) > 0, loc(x), 'a NULL is presented as a value')
                rep.ob('null', '%s reached %d' % (q, v), n > 0, floc(f), 'values of %s columns are not presented' % ('plain', 'nullable')[v])
    # the record
    off = ('ld', ('fld', ('arg', 1), 'Field', 'offset'))
    data = ('ld', ('fld', ('arg', 0), 'TableRecord', 'data'))
    fs = [f for f in P.fns('TableRecord::is_null_value') if any(fieldname(f.e(x.ops[0])) == ('Field', 'null_exists') for x in f.all() if x.op == 'load') or any('get_null_exists' in (P.callee_name(x) or '') for x in f.calls())]
    if not fs:
        raise Broken('test of a value for NULL not found')
    for f in fs:
        rep.saw(f)
        loads = [x for x in f.all() if x.op == 'load' and x.raw['t'] == 'i8' and place_of(f.e(x.ops[0])) == (data, off)]
        fl = {s[1] for x in f.all() for s in walk(f.e(x.id)) if s[0] == 'ld' and s[1][0] == 'fld' and s[1][2:] == ('Field', 'null_exists')}
        for v in (0, 1):
            for z in (0, 1, 255):
                mem = {k: v for k in fl}
                mem.update({f.e(x.ops[0]): z for x in loads})
                res = {r for k, r, m in AI(P, call=stdcalls).run(f, {}, mem) if k == 'ret'}
                rep.ob('null', 'is_null %d %d' % (v, z), res == {int(v and z == 0)}, floc(f), 'a value of a %s column with the mark %d is %staken for NULL' % (('plain', 'nullable')[v], z, 'not ' if v and not z else ''))
    for q, shift in (('TableRecord::get_data', 1), ('TableRecord::__get_data', 1), ('TableRecord::get_raw', 0)):
        for f in P.fns(q):
            if not any(s == off for r in f.rets() if r.ops for s in walk(f.e(r.ops[0]))):
                continue
            rep.saw(f)
            for v in (0, 1):
                for p in paths(f, None, lambda x: x.op == 'ret'):
                    if any(null_truth(c, v) is False for c in p.conds):
                        continue
                    ok = place_of(fold_null(p.val(p.raw.ops[0]), v)) == (data, lin_make(lin_add(lin_of(off), (v * shift, {}), 1)))
                    rep.ob('null', '%s %d' % (q, v), ok, loc(p.raw), 'the value of a %s column is not taken from its place in the record' % ('plain', 'nullable')[v])
    # typed access
    n = 0
    for f in P.functions.values():
        if not f.q.startswith('TableRecord::get<') and f.q.split('<')[0] != 'TableRecord::get':
            continue
        for x in f.calls():
            if P.callee_name(x) in ('TableRecord::get_data', 'TableRecord::get_raw'):
                rep.saw(f)
                n += 1
                g = [c for c in facts(x) if any(s[0] == 'res' and P.callee_name(f.ins[s[1]]) == 'TableRecord::is_null_value' for s in walk(c))]
                neg_ok = any(c[0] == 'not' or c[0] == 'cmp' and (c[1] == 'eq') for c in g)
                rep.ob('null', 'typed read', P.callee_name(x) == 'TableRecord::get_data' and neg_ok, loc(x), 'a typed value is read from a NULL or including its mark')
    for q in ('TableRecord::get_string', 'TableRecord::get_xml_string'):
        for f in P.fns(q):
            for x in f.calls():
                if P.callee_name(x) in ('Field::get_presentation', 'Field::get_XML_presentation'):
                    rep.saw(f)
                    g = [c for c in facts(x) if any(s[0] == 'res' and P.callee_name(f.ins[s[1]]) == 'TableRecord::is_null_value' for s in walk(c))]
                    rep.ob('null', q, any(c[0] == 'not' or c[0] == 'cmp' and c[1] == 'eq' for c in g), loc(x), 'the text of a NULL is taken for a value')


def mark_test(c, base, off, nonzero_):
    if c[0] != 'cmp' or c[1] not in ('ne', 'eq'):
        if c[0] == 'ld':
            return place_of(c[1]) == (base, off)
        return False
    a, b = c[2], c[3]
    if b[0] == 'c':
        a, b = b, a
    return a == ('c', 0) and c[1] == 'ne' and b[0] == 'ld' and place_of(b[1]) == (base, off)


# ---------------------------------------------------------------- layout
def layout(P, rep, types):
    fs = [f for f in P.functions.values() if any((P.callee_name(x) or '') == 'Field::set_offset' for x in f.calls()) or
          any(x.op == 'store' and fieldname(f.e(x.ops[1])) == ('Field', 'offset') and f.q != 'Field::set_offset' and not f.q.startswith('Field::Field') for x in f.all())]
    fs = [f for f in fs if f.q.startswith('Table::')]
    if not fs:
        raise Broken('places of the columns not found')
    for f in fs:
        rep.saw(f)
        layout_in(P, rep, f, types)


def is_type(P, f, e):
    """the expression is the type of a column"""
    if e[0] == 'res' and f.ins[e[1]].is_call:
        return any(q.endswith('::get_type') for q in P.target_qs(f.ins[e[1]]))
    return e[0] == 'ld' and e[1][0] == 'fld' and e[1][3] == 'type' and e[1][2] != 'Tree'


def type_says(P, f, c, tv):
    """False if the condition excludes the type"""
    if c[0] == 'not':
        r = type_says(P, f, c[1], tv)
        return None if r is None else not r
    if c[0] == 'in' and is_type(P, f, c[1]):
        return tv in c[2]
    if c[0] == 'cmp':
        a, b = c[2], c[3]
        k = c[1]
        if b[0] == 'c' and a[0] != 'c':
            a, b = b, a
            k = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(k, k)
        if a[0] == 'c' and is_type(P, f, b):
            v = a[1]
            return {'eq': v == tv, 'ne': v != tv, 'ult': v < tv, 'slt': v < tv, 'ugt': v > tv, 'sgt': v > tv, 'ule': v <= tv, 'sle': v <= tv, 'uge': v >= tv, 'sge': v >= tv}[k]
    return None


def layout_in(P, rep, f, types):
    sets = [x for x in f.calls() if P.callee_name(x) == 'Field::set_offset']
    sizes_ = [x for x in f.calls() if any(q.endswith('Field::get_size') for q in P.target_qs(x))]
    reach = {}
    for x in sets:
        scc = inner_loop(f, x)
        if not scc:
            rep.ob('layout', 'every column', False, loc(x), 'the places are not given in a loop over the columns')
            continue
        hdr = [b for b in scc if any(p not in scc for p in f.pred[b])][0]
        pre = [p for p in f.pred[hdr] if p not in scc][0]
        ps = paths(f, (hdr, pre), lambda y: y is x, within=scc)
        reach[x] = {t for t, tv in types.items() if any(not any(type_says(P, f, c, tv) is False for c in p.conds) for p in ps)}
        for y in cut_short(f, scc):
            rep.ob('layout', 'every column', False, loc(y), 'the loop over the columns ends before the last of them')
        for y, why in skips(f, scc):
            rep.ob('layout', 'every column', False, loc(y), why)
        rep.ob('layout', 'every column', True, loc(x))
        # the same column moves the place on by its size
        col_ = f.e(x.ops[0])
        val = f.e(x.ops[1])
        adds = []
        if val[0] == 'ld':
            adds = [y for y in f.all() if y.op == 'store' and y.bb in scc and f.e(y.ops[1]) == val[1]]
            ok = lambda y: grows(P, f, f.e(y.ops[0]), val, col_)
            for y in adds:
                rep.ob('layout', 'by its size', ok(y), loc(y), 'the next column is not placed behind this one')
            bad = f.path_avoiding(x, lambda y: y in sets, lambda y: y in adds)
            rep.ob('layout', 'moves on', bool(adds) and bad is None, loc(x), 'two columns get the same place')
            for y in adds:
                twice = f.path_avoiding(y, lambda z: z in adds, lambda z: z in sets)
                rep.ob('layout', 'moves on once', twice is None and any(f.path_avoiding(s, lambda z: z is y, lambda z: False) is not None for s in sets), loc(y), 'a gap is left between two columns')
                before = f.path_avoiding(None, lambda z: z is y, lambda z: z in sets)
                rep.ob('layout', 'only placed columns count', before is None or any(z.bb != hdr and f.dominates(z.bb, y.bb) for z in sets), loc(y), 'a column that gets no place takes room')
            first = [y for y in f.all() if y.op == 'store' and f.e(y.ops[1]) == val[1] and y.bb not in scc and f.bdom(y.bb, x.bb) and f.e(y.ops[0])[0] == 'c']
            for y in first:
                rep.ob('layout', 'behind the removal mark', f.e(y.ops[0]) == ('c', 1), loc(y), 'the first column does not follow the removal mark')
            rep.ob('layout', 'starts', bool(first), loc(x), 'the place of the first column is not set')
        elif val[0] == 'phi':
            ph = f.ins[val[1]]
            for p, v in ph.raw['in']:
                e = f.e(v)
                if p in scc:
                    for w in phi_leaves(f, e, scc, val):
                        rep.ob('layout', 'by its size', w == val or grows(P, f, w, val, col_), loc(x), 'the next column is not placed behind this one')
                elif e[0] == 'c':
                    rep.ob('layout', 'behind the removal mark', e == ('c', 1), loc(x), 'the first column does not follow the removal mark')
        else:
            rep.ob('layout', 'by its size', False, loc(x), 'the place of a column does not follow from those before')
    V = {'tf_version', 'tf_version8'}
    for t in types:
        n = [x for x in reach if t in reach[x]]
        rep.ob('layout', 'place of ' + t, len(n) == 1, loc(sets[0]) if sets else floc(f), 'a %s column gets %s' % (t[3:], 'no place' if not n else 'more than one place'))
    vs = [x for x in reach if reach[x] & V]
    for x in vs:
        rep.ob('layout', 'version alone', reach[x] <= V, loc(x), 'other columns are placed together with the version')
        for y in reach:
            if y not in vs:
                rep.ob('layout', 'version first', f.path_avoiding(y, lambda z: z is x, lambda z: False) is None, loc(y), 'the version is not placed before the other columns')
    # the least length
    cell = ('fld', ('arg', 0), 'Table', 'recordlen')
    least = [y for y in f.all() if y.op == 'store' and f.e(y.ops[1]) == cell and (f.e(y.ops[0]) == ('c', 5) or any(s == ('c', 5) for s in walk(f.e(y.ops[0]))) )]
    rep.ob('layout', 'least length', bool(least) or any((P.callee_name(y) or '').endswith('max') for y in f.calls()), floc(f), 'a record can be shorter than the link a removed record holds')
    for y in least:
        if f.e(y.ops[0]) == ('c', 5):
            fs = facts(y)
            ok = any(c[0] == 'cmp' and (c[1] in ('slt', 'ult') and c[3] == ('c', 5) or c[1] in ('sle', 'ule') and c[3] == ('c', 4)) for c in fs)
            rep.ob('layout', 'least length exact', ok, loc(y), 'a record is lengthened that is long enough, or left too short')
    # number of columns
    cnt = ('fld', ('arg', 0), 'Table', 'num_fields')
    bounded = any(any(s == ('ld', cnt) for s in walk(c)) for x in reach for b in inner_loop(f, x) for s_ in f.nsucc[b] for c in edge_conds(f, b, s_))
    T = Terms(f)
    for x in f.calls():
        if not re.search(r'::(push_back|emplace_back)$', P.callee_name(x) or '') or f.e(x.ops[0]) != ('fld', ('arg', 0), 'Table', 'fields'):
            continue
        lp = inner_loop(f, x)
        if lp and any(any(s == ('ld', cnt) for s in walk(c)) for b in lp for s_ in f.nsucc[b] for c in edge_conds(f, b, s_)):
            rep.ob('layout', 'counted', not cut_short(f, lp), loc(x), 'not every described column is taken over')
            continue
        ups = [y for y in f.all() if y.op == 'store' and f.e(y.ops[1]) == cnt and (f.e(y.ops[0]) == lin_make(lin_add(lin_of(('ld', cnt)), (1, {}), 1)) or any(s[0] == 'size' for s in walk(f.e(y.ops[0]))))]
        miss = f.path_avoiding(x, lambda y: y in sets, lambda y: y in ups)
        rep.ob('layout', 'counted', not bounded or miss is None, loc(x), 'a column is added that is not counted, so that it gets no place')
    hidden(P, rep, f, types)
    # records of that length
    for g in P.functions.values():
        if not g.q.startswith('Table::get_record'):
            continue
        for x in g.calls():
            if P.callee_name(x) == 'V8Object::get_data' and len(x.ops) == 4:
                rep.saw(g)
                at, n = g.e(x.ops[2]), g.e(x.ops[3])
                ld = ('ld', cell)
                nr = ('arg', 1)
                ok = n == ld and at[:2] == ('op', 'mul') and set(at[2:]) == {nr, ld}
                rep.ob('layout', 'record', ok, loc(x), 'a record is not read at its number times the length of a record')


def phi_leaves(f, e, scc, stop, seen=None):
    seen = set() if seen is None else seen
    if e == stop or e in seen:
        return [e] if e == stop else []
    seen.add(e)
    if e[0] == 'phi' and f.ins[e[1]].bb in scc:
        return [w for p, v in f.ins[e[1]].raw['in'] for w in phi_leaves(f, f.e(v), scc, stop, seen)]
    return [e]


def grows(P, f, e, val, column):
    """e = val + size of that column"""
    d = lin_add(lin_of(e), lin_of(val), -1)
    if d[0] != 0 or len(d[1]) != 1:
        return False
    t, c = next(iter(d[1].items()))
    if c != 1 or t[0] != 'res' or not f.ins[t[1]].is_call:
        return False
    y = f.ins[t[1]]
    return any(q.endswith('Field::get_size') for q in P.target_qs(y)) and (f.e(y.ops[0]) == column or same_elt(f, f.e(y.ops[0]), column))


def same_elt(f, a, b):
    return a == b


def hidden(P, rep, f, types):
    made = [x for x in f.calls() if 'FieldType::Version8' in P.target_qs(x)]
    lock = ('ld', ('fld', ('arg', 0), 'Table', 'recordlock'))
    rep.ob('hidden', 'made', bool(made), floc(f), 'the hidden version column is never added')
    flags = {f.e(o) for x in f.calls() if P.callee_name(x) == 'Field::field_from_tree' for o in x.ops if f.e(o)[0] == 'alloca'}
    for x in made:
        fs = facts(x)
        rep.ob('hidden', 'locked', any(nonzero(c, lock) for c in fs), loc(x), 'a table without record locks gets a hidden version')
        rep.ob('hidden', 'no other', any(iszero(c, ('ld', a)) for c in fs for a in flags), loc(x), 'a table with a version column gets a second one')
        sets = [y for y in f.calls() if P.callee_name(y) == 'Field::set_offset']
        sk = lambda b, s: any(iszero(c, lock) or any(nonzero(c, ('ld', a)) for a in flags) for c in edge_conds(f, b, s))
        loops = [y for y in f.calls() if P.callee_name(y) == 'Field::field_from_tree']
        first = [y for y in f.all() if y.op == 'store' and fieldname(f.e(y.ops[1])) == ('Table', 'recordlock')]
        for y in first:
            miss = f.path_avoiding(y, lambda z: z in sets, lambda z: z is x, skip=sk)
            rep.ob('hidden', 'always', miss is None, loc(x), 'a table with record locks and no version column does not get the hidden one')
        push = [y for y in f.calls() if re.search(r'::(push_back|emplace_back)$', P.callee_name(y) or '') and f.e(y.ops[0]) == ('fld', ('arg', 0), 'Table', 'fields')]
        rep.ob('hidden', 'added', f.path_avoiding(x, lambda z: z in sets, lambda z: z in push) is None, loc(x), 'the hidden version column is not added to the columns')
    for g in P.fns('Field::field_from_tree'):
        T = Terms(g)
        st = [y for y in g.all() if y.op == 'store' and g.e(y.ops[1]) == ('arg', 1)]
        rep.ob('hidden', 'noticed', bool(st), floc(g), 'a version column is not noticed')
        tv = types['tf_version']
        for y in st:
            ok = False
            v = g.e(y.ops[0])
            for p in paths(g, None, lambda z: z is y):
                bad = [t for t, n in types.items() if n != tv and n != types['tf_version8'] and not any(type_says(P, g, c, n) is False for c in p.conds)]
                if v[0] == 'c':
                    rep.ob('hidden', 'noticed right', v[1] == 1 and not bad, loc(y), 'another column is taken for the version')
            sk = lambda b, s: any(type_says(P, g, c, tv) is False for c in edge_conds(g, b, s))
            miss = g.path_avoiding(None, lambda z: z.op == 'ret', lambda z: z in st, skip=sk)
            rep.ob('hidden', 'noticed always', miss is None, loc(y), 'a version column is not noticed')
