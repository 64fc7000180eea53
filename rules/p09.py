"""P09 the command line does what its help describes."""
import re
from sa.lib import *
from sa.build import Broken
from sa.terms import Terms, simple, MUT
from sa.paths import paths
from rules.p06 import ret_cases
from rules.p07 import reports

ASSUMPTIONS = ['boost::regex and the lower-casing of table names behave as documented', 'table names consist of letters, digits and underscores']
CP = 'ParsedCommand'
# what the help text of each key promises: (library operations, selects tables from a list, field with the path, other field)
ACTIONS = {
    'eax': ({'Table::export_to_xml'}, False, 'param1'),
    'ex': ({'Table::export_to_xml'}, True, 'param1'),
    'ddc': ({'T_1CD::save_config'}, False, 'param1'),
    'dc': ({'T_1CD::save_configsave'}, False, 'param1'),
    'dvc': ({'SupplierConfig::save_to_file'}, False, 'param1'),
    'dac': ({'T_1CD::save_config', 'T_1CD::save_configsave', 'SupplierConfig::save_to_file'}, False, 'param1'),
    'drc': ({'T_1CD::save_depot_config'}, False, 'param2'),
    'dpc': ({'T_1CD::save_part_depot_config'}, False, 'param2'),
    'eb': ({'Table::export_table'}, True, 'param1'),
    'ib': ({'Table::import_table'}, True, 'param1'),
    'slo': ({'T_1CD::find_and_save_lost_objects'}, False, 'param1'),
    'sts': ({'Table::get_phys_numrecords'}, False, 'param1'),
}
EFFECTS = set().union(*(a for a, _, _ in ACTIONS.values()))
OPTIONS = {'h': None, 'nv': 'Messenger::setnoverbose', 'l': 'Messenger::setlogfile', 'ne': 'ActionOpenBaseNotMonopolyChecked',
           'bf': 'ActionXMLSaveBLOBToFileChecked', 'pb': 'ActionXMLUnpackBLOBChecked', 'q': None}
FLAGS = ('ActionOpenBaseNotMonopolyChecked', 'ActionXMLSaveBLOBToFileChecked', 'ActionXMLUnpackBLOBChecked')
YES = {'1', 'y', 'yes', 'д', 'да'}


def run(P, rep):
    rep.rule('keys', 'every documented key is recognised, with the documented number of arguments, and the two forms of a key mean the same', 20)
    rep.rule('search', 'a key is looked up among all known keys, whatever its letter case', 3)
    rep.rule('arguments', 'the arguments behind a key become its parameters in their order', 3)
    rep.rule('refused', 'an unknown key, a missing argument and a second database name are reported as errors', 3)
    rep.rule('action', 'each key starts the operation its help text describes, and no other', 12)
    rep.rule('target', 'the operation gets the path, the list and the version given with its key', 12)
    rep.rule('options', 'an option takes effect before the database is opened', 6)
    rep.rule('whole', 'every key of the command line is obeyed', 2)
    rep.rule('yes', 'an answer counts as yes for the documented words only', 2)
    rep.rule('number', 'a version number that is not a whole number is refused', 2)
    rep.rule('range', 'the text before the colon is the first version, the text behind it the last', 2)
    rep.rule('select', 'of all tables exactly those matching one of the patterns are processed', 6)
    rep.rule('patterns', 'the list is split at its separators, and * and ? are its wildcards', 6)
    defs = table(P, rep)
    search(P, rep, len(defs))
    by = {}
    for k, c, n in defs:
        by.setdefault(c, []).append(k)
    run_loops(P, rep, {k: c for k, c, n in defs}, by)
    yes(P, rep)


# ---------------------------------------------------------------- the table of keys and the help text
def table(P, rep):
    G = '_ZN12CommandParse11definitionsE'
    H = '_ZN12CommandParse10helpstring'
    rec = P.records.get('CommandDefinition')
    if not rec:
        raise Broken('structure of the table of keys not found')
    size = rec['s'] if 's' in rec else None
    off = {x['n']: x['o'] for x in rec['f']}
    at, helps, where = {}, [], None
    for f in P.functions.values():
        if not f.file.endswith('ParseCommandLine.cpp') or '__cxx_global_var_init' not in f.q:
            continue
        for x in f.all():
            if x.op != 'store' and not x.is_call:
                continue
            if x.is_call and not x.ops:
                continue
            a = f.e(x.ops[1] if x.op == 'store' else x.ops[0])
            pos = {('g', G): 0}.get(a)
            if a[0] == 'gofs' and a[1] == ('g', G):
                pos = a[2]
            if pos is not None and (x.op == 'store' or len(x.ops) > 1 and f.e(x.ops[1])[0] == 's'):
                v = f.e(x.ops[0] if x.op == 'store' else x.ops[1])
                at[pos] = v[1]
                where = where or loc(x)
            if x.is_call and a[0] == 'g' and a[1].startswith(H) and len(x.ops) > 1 and f.e(x.ops[1])[0] == 's':
                helps.append((f.e(x.ops[1])[1], loc(x)))
    step = size or 72
    defs = []
    for p in sorted(at):
        if p % step == off['key']:
            b = p - off['key']
            defs.append((at[p], at.get(b + off['command'], 0), at.get(b + off['num_add_par'], 0)))
    if not defs or len(helps) != 1:
        raise Broken('the table of keys or the help text was not found')
    text, hloc = helps[0]
    known = {}
    for k, c, n in defs:
        rep.ob('keys', 'key %s' % k, k not in known and k == k.lower() and k, where, 'key %r is listed twice or cannot be matched by a lower-cased argument' % k)
        known[k] = (c, n)
    groups, documented = {}, set()
    for line in re.split(r'\r?\n', text):
        m = re.match(r'^[ .]*((?:-[A-Za-z?]+)(?:, ?-[A-Za-z?]+)*)(.*)$', line)
        if not m:
            continue
        ks = [k.strip()[1:].lower() for k in m.group(1).split(',')]
        n = len(re.findall(r'(?<!:)(?<!\[)<[^>]*>|\[[^\]:<]*\]', m.group(2)))
        cs = set()
        for k in ks:
            documented.add(k)
            d = known.get(k)
            rep.ob('keys', 'documented -%s' % k, d is not None and d[1] == n, hloc, 'the help describes -%s with %d arguments, the table of keys has %s' % (k, n, 'no such key' if d is None else '%d' % d[1]))
            if d:
                cs.add(d[0])
        rep.ob('keys', 'forms of -%s' % ks[0], len(cs) == 1, hloc, 'the forms %s mean different commands' % ', '.join(ks))
        for c in cs:
            rep.ob('keys', 'meaning of -%s' % ks[0], c not in groups, hloc, '-%s and -%s are documented as different commands but are the same' % (ks[0], groups.get(c)))
            groups[c] = ks[0]
    for k in sorted(set(known) - documented):
        rep.ob('keys', 'key %s' % k, False, where, '-%s is not documented' % k)
    for k in list(ACTIONS) + list(OPTIONS):
        rep.ob('keys', 'key -%s' % k, k in known, where, 'there is no -%s' % k)
    return defs


def sources(f, v, depth=0):
    """expressions that can have contributed to a value (flow-insensitive, through local objects)"""
    seen, out, work = set(), set(), [f.e(v) if not isinstance(v, tuple) else v]
    while work:
        e = work.pop()
        if e in seen:
            continue
        seen.add(e)
        for s in walk(e):
            out.add(s)
            if s[0] == 'res' and f.ins[s[1]].is_call:
                work += [f.e(o) for o in f.ins[s[1]].ops]
            elif s[0] == 'phi':
                work += [f.e(o) for p, o in f.ins[s[1]].raw['in']]
            elif s[0] == 'alloca':
                for y in f.all():
                    if y.op == 'store' and _root(f.e(y.ops[1])) == s:
                        work.append(f.e(y.ops[0]))
                    elif y.is_call and y.ops and not DTOR.search(y.raw.get('f') or ''):
                        tgt = {f.e(y.ops[y.raw.get('sret') or 0])} if changes(f.prog, y) else set()
                        tgt |= {f.e(o) for i, o in enumerate(y.ops) if isinstance(o, int) and f.e(o) == s and writes_arg(f.prog, y, i)}
                        if any(_root(t) == s for t in tgt):
                            work += [f.e(o) for o in y.ops]
                            if y.raw.get('f'):
                                out.add(('by', simple(f.prog.callee_name(y) or '')))
    for s in list(out):
        if s[0] == 'res' and f.ins[s[1]].is_call:
            out.add(('by', simple(f.prog.callee_name(f.ins[s[1]]) or '')))
    return out


DTOR = re.compile(r'D[012]Ev$')
CTOR = re.compile(r'C[12]E')
MORE = MUT | {'SetText', 'Add', 'Delete', 'LoadFromFile', 'operator<<', 'set_details'}


def changes(P, y):
    """the call makes or changes the object that is its first operand"""
    if y.raw.get('sret') is not None:
        return True
    q = simple(P.callee_name(y) or '').split('::')
    return bool(CTOR.search(y.raw.get('f') or '')) and len(q) > 1 and q[-1] == q[-2] or q[-1] in MORE


def _root(e):
    while e[0] in ('fld', 'elt', 'ld', 'data', 'gofs'):
        e = e[1]
    if e[0] == 'res':
        return e
    return e


def writes_arg(P, y, i):
    """a project function taking a reference through which it stores"""
    for g in P.target_fns(y):
        if i < g.nargs and project(g):
            for x in g.all():
                if x.op == 'store' and g.e(x.ops[1]) == ('arg', i):
                    return True
    return False


def fields_of(es):
    return {s[3] for s in es if s[0] == 'fld' and s[2] == CP and s[3] != 'command'}


def names_of(es):
    return {s[1].split('::')[-1] for s in es if s[0] == 'by'}


# ---------------------------------------------------------------- analysis of the arguments
def search(P, rep, n):
    f = rep.need('CommandParse::CommandParse')
    keys = [x for x in f.calls() if any(mentions_field(f.e(o), 'CommandDefinition', 'key') for o in x.ops) and
            (P.callee_name(x) or '').split('::')[-1].split('<')[0] in ('Equal', 'EqualIC', 'operator==', 'compare', 'CompareIC', 'Compare')]
    if not keys:
        raise Broken('the search for a key was not found')
    for x in keys:
        q = (P.callee_name(x) or '').split('::')[-1]
        key = [f.e(o) for o in x.ops if mentions_field(f.e(o), 'CommandDefinition', 'key')][0]
        other = [o for o in x.ops if not mentions_field(f.e(o), 'CommandDefinition', 'key')]
        src = sources(f, other[0]) if other else set()
        ns = names_of(src)
        rep.ob('search', 'letter case', q in ('EqualIC', 'CompareIC') or 'LowerCase' in ns, loc(x), 'the key is compared with its letter case')
        subs = [f.ins[s[1]] for s in src if s[0] == 'res' and method(f.ins[s[1]], 'substr')] + [y for y in f.calls() if method(y, 'substr') and ('by', simple(P.callee_name(y))) in src]
        rep.ob('search', 'without the dash', any(f.e(y.ops[2]) == ('c', 1) for y in subs if len(y.ops) > 2) or 'erase' in ns, loc(x), 'not the text behind the dash is looked up')
        idx = [s for s in walk(key) if s[0] == 'elt']
        j = idx[0][2] if idx else None
        scc = loop_of(f, x)
        inner = inner_loop(f, x)
        ph = [t for t in loop_phis(f, inner) if ('phi', t[0].id) == j]
        ok = bool(ph) and all(f.e(v) == ('c', 0) for v in ph[0][1]) and all(f.e(v) == lin_make(lin_add(lin_of(j), (1, {}), 1)) for v in ph[0][2])
        ends = []
        for b in inner:
            for s in f.nsucc[b]:
                if s in inner or throwing_block(f, s):
                    continue
                cs = edge_conds(f, b, s)
                if any(c == ('cmp', 'sge', j, ('c', n)) or c == ('cmp', 'eq', j, ('c', n)) or c == ('cmp', 'uge', j, ('c', n)) for c in cs):
                    continue
                if any(mentions_res(c, x.id) and not c[0] == 'not' for c in cs):
                    continue
                ends.append(f.blocks[b][-1])
        rep.ob('search', 'all keys', ok and not ends, loc(ends[0]) if ends else loc(x), 'the key is not looked up among all %d known keys' % n)
        # the command of the entry found
        for y in f.all():
            if y.op == 'store' and fieldname(f.e(y.ops[1])) == (CP, 'command'):
                v = f.e(y.ops[0])
                rep.ob('search', 'command of the key', fieldname(v) == ('CommandDefinition', 'command') and any(s == j for s in walk(v)), loc(y), 'not the command of the key found is taken')
        miss = unknown(f, x, inner, j, n)
        for b, s in miss:
            t = f.blocks[s][0]
            p = f.path_avoiding((b, s) if False else f.blocks[s][0], lambda y: goes_on(f, y, scc), lambda y: reports(P, y), skip=veto(f, lambda c: c[0] == 'cmp' and c[1] in ('slt', 'ult', 'ne') and c[2] == j))
            rep.ob('refused', 'unknown key', p is None or reports(P, t), loc(t), 'an unknown key is passed over silently: %s' % path_lines(p or []))
    if not any(k[0] == 'refused' for k in getattr(rep, 'seen', [])):
        pass
    arguments(P, rep, f)


def mentions_res(c, i):
    return any(s == ('res', i) for s in walk(c))


def inner_loop(f, x):
    """the smallest loop around x: blocks of a cycle through x that does not leave the header closest to it"""
    best = None
    scc = loop_of(f, x)
    heads = [h for h in scc if f.bdom(h, x.bb)]
    for h in heads:
        back = [p for p in f.pred[h] if p in scc and f.bdom(h, p)]
        if not back:
            continue
        body = {h}
        work = list(back)
        while work:
            b = work.pop()
            if b not in body:
                body.add(b)
                work += [p for p in f.pred[b] if p in scc]
        if x.bb in body and (best is None or len(body) < len(best)):
            best = body
    return best or scc


def unknown(f, x, inner, j, n):
    out = []
    for b in inner:
        for s in f.nsucc[b]:
            if s not in inner:
                cs = edge_conds(f, b, s)
                if any(c[0] == 'cmp' and c[1] in ('sge', 'uge', 'eq') and c[2] == j for c in cs):
                    out.append((b, s))
    return out


def goes_on(f, y, scc):
    """the next argument is looked at, or the function returns"""
    if y.op == 'ret':
        return True
    return y.is_call and method(y, 'front') or y.is_call and any(s[0] == 'elt' and s[1] == ('arg', 1) for o in y.ops if isinstance(o, int) for s in walk(f.e(o)))


def arguments(P, rep, f):
    par = {'param1': 0, 'param2': 1, 'param3': 2}
    got = set()
    for x in f.calls():
        if not method(x, 'operator=', 'assign') or len(x.ops) < 2:
            continue
        a = f.e(x.ops[0])
        if a[0] != 'fld' or a[2] != CP or a[3] not in par:
            continue
        src = sources(f, x.ops[1])
        elts = [s for s in src if s[0] == 'elt' and s[1] == ('arg', 1)]
        if elts:
            fs = facts(x)
            cnt = [eqc(c, ('eq',)) for c in fs]
            ok = any(e is not None and e[0] == 'phi' and n == par[a[3]] and from_zero(f, e[1]) for e, n in cnt)
            rep.ob('arguments', a[3], ok, loc(x), '%s is not argument %d of its key' % (a[3], par[a[3]] + 1))
            got.add(a[3])
            for s in elts:
                bound = any(c == ('cmp', 'slt', s[2], ('arg', 2)) or c == ('cmp', 'sgt', ('arg', 2), s[2]) for c in fs)
                rep.ob('arguments', '%s exists' % a[3], bound, loc(x), 'an argument beyond the last one is read')
                ls = [t for t in lin_of(s[2])[1] if t[0] == 'phi']
                ok = bool(ls) and all(advances(f, f.ins[t[1]], inner_loop(f, x), s[2]) for t in ls)
                rep.ob('arguments', '%s is the next one' % a[3], ok, loc(x), 'an argument is used twice or skipped')
    rep.ob('arguments', 'parameters', {'param1', 'param2'} <= got, floc(f), 'parameters are not taken from the arguments')
    # as many as the key has
    for x in f.calls():
        pass
    for b in range(len(f.blocks)):
        for s in f.nsucc[b]:
            cs = edge_conds(f, b, s)
            t = f.blocks[s][0]
            for c in cs:
                # no argument left
                if c[0] == 'cmp' and c[1] in ('sge', 'eq') and c[3] == ('arg', 2) and any(z == ('cmp', 'slt', z[2], z[3]) and mentions_field(z, 'CommandDefinition', 'num_add_par') for z in [truth(g[0], g[1]) for g in f.guards(b)] if z[0] == 'cmp'):
                    p = f.path_avoiding(t, lambda y: y.op == 'ret' or y.is_call and method(y, 'front'), lambda y: reports(P, y))
                    rep.ob('refused', 'missing argument', p is None or reports(P, t), loc(t), 'a missing argument is passed over silently: %s' % path_lines(p or []))
                if c[0] == 'not' and c[1][0] == 'res' and method(f.ins[c[1][1]], 'empty') and mentions_field(f.e(f.ins[c[1][1]].ops[0]), 'CommandParse', 'filename'):
                    p = f.path_avoiding(t, lambda y: y.op == 'ret' or y.is_call and method(y, 'front'), lambda y: reports(P, y))
                    rep.ob('refused', 'second database', p is None or reports(P, t), loc(t), 'a second database name is passed over silently: %s' % path_lines(p or []))


def from_zero(f, i):
    ph = f.ins[i]
    vs = [f.e(v) for p, v in ph.raw['in']]
    return ('c', 0) in vs and all(v == ('c', 0) or v == lin_make(lin_add(lin_of(('phi', i)), (1, {}), 1)) for v in vs)


def advances(f, ph, scc, nxt):
    """each time round the loop the counter moves to the argument just read"""
    vs = [f.e(v) for p, v in ph.raw['in'] if p in scc]
    return bool(vs) and all(v == nxt for v in vs)


# ---------------------------------------------------------------- obeying the keys
def eqc(c, ops=('eq', 'ne')):
    """(expression, constant) of a comparison for (in)equality with a constant"""
    if c[0] == 'cmp' and c[1] in ops:
        if c[2][0] == 'c':
            return c[3], c[2][1]
        if c[3][0] == 'c':
            return c[2], c[3][1]
    return None, None


def steer(f, v, start, stop=()):
    """blocks reached from start when the command is v"""
    def contradicts(c):
        e, n = eqc(c)
        if e is not None and is_field_load(e, CP, 'command'):
            return (n == v) != (c[1] == 'eq')
        if c[0] == 'in' and is_field_load(c[1], CP, 'command'):
            return v not in c[2]
        return False
    seen, work = set(), list(start)
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in stop:
            continue
        for s in f.nsucc[b]:
            if not any(contradicts(c) for c in edge_conds(f, b, s)):
                work.append(s)
    return seen


def run_loops(P, rep, keys, by):
    f = rep.need('App::Run')
    opens = [x for x in f.calls() if 'T_1CD::T_1CD' in P.target_qs(x)]
    if not opens:
        raise Broken('App::Run does not open a database')
    ob = {x.bb for x in opens}
    before = set()
    work = [0]
    while work:
        b = work.pop()
        if b not in before:
            before.add(b)
            if b not in ob:
                work += f.nsucc[b]
    after = set()
    for b in ob:
        after |= f.reachable_from(b, f.nsucc)
    cmds = {c: ks[0] for c, ks in by.items()}
    short = {keys[k]: k for k in list(ACTIONS) + list(OPTIONS) if k in keys}
    app = {g.q for g in P.functions.values() if g.file.startswith('ctool1cd/')}

    def handlers(bs):
        return [x for b in sorted(bs) for x in f.blocks[b] if x.is_call]
    for v in sorted(cmds):
        k = short.get(v, cmds[v])
        want, filt, pathf = ACTIONS.get(k, (set(), False, None))
        bs = steer(f, v, ob) & after
        got, ops = set(), []
        done = set()
        stack = [(f, x, ()) for x in handlers(bs)]
        while stack:
            g, x, via = stack.pop()
            qs = P.target_qs(x)
            for q in qs & EFFECTS:
                got.add(q)
                ops.append((g, x, q, via))
            for t in P.target_fns(x):
                if t.q in app and t not in done and t.q not in EFFECTS:
                    done.add(t)
                    stack += [(t, y, via + ((g, x),)) for y in t.calls()]
        where = floc(f)
        for g, x, q, via in ops:
            where = loc(x)
        rep.ob('action', '-%s' % k, got == want, where, '-%s starts %s' % (k, ', '.join(sorted(got)) or 'nothing') + (' instead of %s' % (', '.join(sorted(want)) or 'nothing')))
        if got != want:
            continue
        for g, x, q, via in ops:
            rep.saw(g)
            target(P, rep, k, g, x, q, via, pathf)
            if k in ('eax', 'ex', 'eb', 'ib') and q != 'Table::get_phys_numrecords':
                select(P, rep, k, g, x, filt)
            if k == 'sts':
                all_tables(P, rep, k, g, x)
        if k == 'dac':
            order = [x for g, x, q, via in ops]
    # no operation is executed before the database is opened
    options(P, rep, f, before, ob, short, cmds, opens)
    # every key
    for name, part in (('options', before), ('operations', after)):
        its = [x for b in part for x in f.blocks[b] if x.is_call and x.ops and (P.callee_name(x) or '').endswith('operator*') and 'ParsedCommand' in (P.callee_name(x) or '') and (name == 'operations') == (x.bb in after)]
        its = its or [b for b in part if any(is_field_load(c, CP, 'command') for s in f.nsucc[b] for cc in edge_conds(f, b, s) for c in walk(cc)) and (name == 'operations') == (b in after)]
        if not its:
            raise Broken('the loop over the keys was not found')
        x = its[0] if not isinstance(its[0], int) else f.blocks[its[0]][0]
        scc = loop_of(f, x)
        bad = [t for t in cut_short(f, scc) if not only_help(f, t, scc, keys['h'])]
        bad += [t for t, m in skips(f, scc)]
        rep.ob('whole', name, scc and not bad, loc(bad[0]) if bad else loc(x), 'not all keys of the command line are looked at')


def only_help(f, t, scc, h):
    ss = [s for s in f.nsucc[t.bb] if s not in scc]
    return all(any(eqc(c, ('eq',))[1] == h and is_field_load(eqc(c)[0], CP, 'command') for c in edge_conds(f, t.bb, s) + [truth(g[0], g[1]) for g in f.guards(t.bb)]) for s in ss)


def options(P, rep, f, before, ob, short, cmds, opens):
    for v in sorted(cmds):
        k = short.get(v, cmds[v])
        bs = steer(f, v, [0], ob) & before
        eff = {}
        for b in bs:
            for x in f.blocks[b]:
                if x.is_call:
                    for q in P.target_qs(x) & {'Messenger::setnoverbose', 'Messenger::setlogfile'}:
                        eff[q] = x
                if x.op == 'store':
                    a = f.e(x.ops[1])
                    if a[0] == 'fld' and a[2] == 'App' and a[3] in FLAGS:
                        eff[a[3]] = x
        want = {OPTIONS.get(k)} - {None}
        x = next(iter(eff.values()), None)
        rep.ob('options', '-%s' % k, set(eff) == want, loc(x) if x else floc(f), '-%s sets %s before the database is opened' % (k, ', '.join(sorted(eff)) or 'nothing'))
        for n, x in eff.items():
            v_ = f.e(x.ops[0]) if x.op == 'store' else f.e(x.ops[1])
            if n in ('Messenger::setnoverbose', 'ActionOpenBaseNotMonopolyChecked'):
                ok = v_ == ('c', 1)
            elif n == 'Messenger::setlogfile':
                ok = fields_of(sources(f, x.ops[1])) == {'param1'}
            else:
                y = f.ins[v_[1]] if v_[0] == 'res' else None
                ok = y is not None and 'App::IsTrueString' in P.target_qs(y) and fields_of(sources(f, y.ops[1])) == {'param1'}
            rep.ob('options', 'value of -%s' % k, ok, loc(x), 'the option is not set as asked for')
        if k == 'h':
            hs = [x for b in bs for x in f.blocks[b] if x.is_call and (method(x, 'gethelpstring') or any('helpstring' in repr(f.e(o)) for o in x.ops))]
            reach = steer(f, v, {x.bb for x in hs}) & ob
            shown = [x for x in hs if method(x, 'operator<<')]
            rep.ob('options', 'help shown', bool(hs) and not reach and bool(shown), floc(f), '-h does not show the help and end the tool')
    late = [x for b in range(len(f.blocks)) if b not in before for x in f.blocks[b] if x.op == 'store' and f.e(x.ops[1])[0] == 'fld' and f.e(x.ops[1])[2] == 'App' and f.e(x.ops[1])[3] in FLAGS]
    rep.ob('options', 'no option takes effect later', not late, loc(late[0]) if late else floc(f), 'an option is changed after the database was opened')
    for x in opens:
        e = bare(f.e(x.ops[-1]))
        e = e[1] if e[0] == 'not' else (e[2] if is_cmp(e, 'eq', e[2], ('c', 0)) else None) if e[0] == 'cmp' else None
        ok = e is not None and is_field_load(e, 'App', FLAGS[0])
        rep.ob('options', 'how the database is opened', ok, loc(x), 'the database is not opened exclusively unless -ne was given')
    for name, g in (('App::App', None),):
        for g in P.fns(name):
            if g.nargs < 3:
                continue
            for fl, d in zip(FLAGS, (0, 0, 1)):
                st = [x for x in g.all() if x.op == 'store' and fieldname(g.e(x.ops[1])) == ('App', fl)]
                rep.ob('options', 'default of %s' % fl, bool(st) and all(g.e(x.ops[0]) == ('c', d) for x in st), loc(st[0]) if st else floc(g), 'not the documented default')


def target(P, rep, k, g, x, q, via, pathf):
    """the path and the other arguments of an operation"""
    def fields(fn, o, chain):
        src = sources(fn, o)
        out = fields_of(src)
        if chain:
            for s in src:
                if s[0] == 'arg' and s[1] > 0 and s[1] < len(chain[-1][1].ops):
                    cg, cx = chain[-1]
                    if fn.args[s[1]][1] == 'ptr' and 'ParsedCommand' not in fn.name.split('E', 1)[1][:40]:
                        out |= fields(cg, cx.ops[s[1]], chain[:-1])
        return out
    if q == 'Table::get_phys_numrecords':
        for y in g.calls():
            if 'System::Classes::TFileStream::TFileStream' in P.target_qs(y):
                rep.ob('target', '-%s path' % k, fields(g, y.ops[1], via) == {pathf}, loc(y), 'the file is not the one given with the key')
        return
    i = {'Table::import_table': 1, 'Table::export_table': 1}.get(q, 1)
    got = fields(g, x.ops[i], via)
    rep.ob('target', '-%s path' % k, got == {pathf}, loc(x), 'the path is taken from %s' % (sorted(got) or 'nothing'))
    if q == 'Table::export_to_xml':
        for i, fl in ((2, FLAGS[1]), (3, FLAGS[2])):
            rep.ob('target', '-%s %s' % (k, fl), is_field_load(bare(g.e(x.ops[i])), 'App', fl), loc(x), 'argument %d is not the option %s' % (i, fl))
    if q in ('T_1CD::save_depot_config', 'T_1CD::save_part_depot_config'):
        for i in range(2, len(x.ops)):
            src = sources(g, x.ops[i])
            rep.ob('target', '-%s version' % k, 'param1' in fields_of(src) and pathf not in fields_of(src) and 'get_ver_depot_config' in names_of(src), loc(x), 'the version is not the one given with the key')
        number(P, rep, k, g, x)
    if q == 'T_1CD::save_part_depot_config':
        ranges(P, rep, g, x)


def ranges(P, rep, g, x):
    T = Terms(g)
    parts = {}
    for y in g.calls():
        if not method(y, 'substr'):
            continue
        a, n = lin_of(g.e(y.ops[2])), g.e(y.ops[3])
        pos = [t for t in a[1] if t[0] == 'res' and method(g.ins[t[1]], 'find', 'find_first_of')]
        npos = n[0] == 'res' and method(g.ins[n[1]], 'find', 'find_first_of')
        if npos and a == (0, {}):
            parts['first'] = y
            f_ = g.ins[n[1]]
        elif len(pos) == 1 and a == (1, {pos[0]: 1}):
            parts['last'] = y
            f_ = g.ins[pos[0][1]]
        else:
            rep.ob('range', 'part', False, loc(y), 'the text taken is neither the one before nor the one behind the colon')
            continue
        d = g.e(f_.ops[1])
        rep.ob('range', 'colon', d in (('c', 58), ('s', ':')), loc(y), 'not split at the colon')
    for i, n, o in ((2, 'first', 'last'), (3, 'last', 'first')):
        src = direct(g, x.ops[i])
        y = parts.get(n)
        yo = parts.get(o)
        has = lambda z: z is not None and any(s == g.e(z.ops[0]) for s in src)
        rep.ob('range', '%s version' % n, has(y) and not has(yo), loc(x), 'the %s version is not the text %s the colon' % (n, 'before' if n == 'first' else 'behind'))


def direct(g, v):
    """like sources, but without going into a copy of the other bound (a store of a plain variable)"""
    seen, out, work = set(), set(), [g.e(v)]
    while work:
        e = work.pop()
        if e in seen:
            continue
        seen.add(e)
        for s in walk(e):
            out.add(s)
            if s[0] == 'res' and g.ins[s[1]].is_call:
                work += [g.e(o) for o in g.ins[s[1]].ops if g.e(o) != ('arg', 0) and not (g.e(o)[0] == 'ld' and g.e(o)[1][0] == 'fld')]
            elif s[0] == 'phi':
                work += [g.e(o) for p, o in g.ins[s[1]].raw['in']]
            elif s[0] == 'alloca':
                for y in g.all():
                    if y.op == 'store' and g.e(y.ops[1]) == s and not (g.e(y.ops[0])[0] == 'ld' and g.e(y.ops[0])[1][0] == 'alloca'):
                        work.append(g.e(y.ops[0]))
                    elif y.is_call and y.raw.get('sret') is None and len(y.ops) > 1 and g.e(y.ops[-1]) == s and writes_arg(g.prog, y, len(y.ops) - 1):
                        out |= {g.e(o) for o in y.ops}
    return out


# ---------------------------------------------------------------- lists of tables
def all_tables(P, rep, k, g, x):
    gets = [y for y in g.calls() if 'T_1CD::get_table' in P.target_qs(y) and g.may_follow(y, x)]
    rep.ob('select', '-%s takes tables' % k, bool(gets), loc(x), 'the tables do not come from the database')
    for y in gets:
        scc = outer_loop(g, y)
        bad = cut_short(g, scc) + [t for t, m in skips(g, scc)] if scc else [y]
        rep.ob('select', '-%s all tables' % k, not bad, loc(bad[0]) if bad else loc(y), 'not all tables are looked at')
    return gets


def outer_loop(g, y):
    return inner_loop(g, y) if loop_of(g, y) else None


def select(P, rep, k, g, x, filt):
    gets = all_tables(P, rep, k, g, x)
    ms = [y for y in g.calls() if matcher(P, y)]
    stops = {y.id for y in gets}
    if not filt:
        for y in gets:
            p = g.path_avoiding(y, lambda z: z.id in stops or z.op == 'ret', lambda z: z is x)
            rep.ob('select', '-%s every table' % k, p is None and not ms, loc(x), 'a table is left out: %s' % path_lines(p or []))
        return
    rep.ob('select', '-%s patterns' % k, bool(ms), loc(x), 'the names of the tables are not compared with the patterns')
    for y in gets:
        bad = None
        for p in paths(g, y, lambda z: z is x, stop=lambda z: z.id in stops or z.op == 'ret'):
            if not any(('res', m.id) in p.conds for m in ms):
                bad = p
        rep.ob('select', '-%s only matching tables' % k, bad is None, loc(x), 'a table that matches no pattern is processed')
    for m in ms:
        bad = None
        for p in paths(g, m, lambda z: z.id in stops or z.op == 'ret', stop=lambda z: z is x):
            if ('res', m.id) in p.conds:
                bad = p
        rep.ob('select', '-%s every matching table' % k, bad is None, loc(m), 'a table that matches is left out')
        i = -1 if ANY.match(simple(P.callee_name(m) or '')) else 0
        nm = sources(g, m.ops[i])
        ns = names_of(nm)
        rep.ob('select', '-%s name of the table' % k, 'get_name' in ns and any(s == g.e(x.ops[0]) for s in nm), loc(m), 'not the name of the table is compared')
        rx_ = sources(g, m.ops[0 if i else 1])
        rep.ob('select', '-%s list' % k, fields_of(rx_) == {'param2'} or any(s[0] == 'by' and s[1].endswith('SetText') for s in rx_), loc(m), 'the patterns do not come from the list given with the key')
        icase = any(z for z in g.calls() if 'basic_regex' in (P.callee_name(z) or '') and len(z.ops) > 2 and g.e(z.ops[2])[0] == 'c' and g.e(z.ops[2])[1] & (1 << 20))
        low = 'LowerCase' in ns and any(z for z in g.calls() if method(z, 'LowerCase') and z.id != 0 and not any('get_name' in names_of(sources(g, z.ops[1])) for _ in (0,)))
        rep.ob('select', '-%s letter case' % k, icase or low, loc(m), 'upper and lower case letters are told apart')
        whole = matcher(P, m) == 'whole'
        if not whole:
            lits = {s[1] for s in rx_ if s[0] == 's'}
            whole = any(l.startswith('^') for l in lits) and any(l.endswith('$') for l in lits)
        rep.ob('select', '-%s whole name' % k, whole, loc(m), 'a pattern matches a part of the name')
        # every pattern
        if ANY.match(simple(P.callee_name(m) or '')):
            its = [iter_kind(g, g.e(o)) for o in m.ops[:2]]
            a, z = (g.e(o) for o in m.ops[:2])
            if z[0] == 'elt' and z[1] == a and (z[2][0] == 'size' or z[2][0] == 'res' and g.ins[z[2][1]].is_call and method(g.ins[z[2][1]], 'Count', 'size')):
                its = ['begin', 'end']      # an array and as many elements as the list has
            rep.ob('select', '-%s every pattern' % k, its == ['begin', 'end'], loc(m), 'not all patterns are tried')
            continue
        scc = inner_loop(g, m)
        bad = []
        for b in scc:
            for s in g.nsucc[b]:
                if s in scc or throwing_block(g, s):
                    continue
                cs = edge_conds(g, b, s)
                if not any(c == ('res', m.id) or mentions_size(g, c) or end_exit(g, c, scc) for c in cs):
                    bad.append(g.blocks[b][-1])
        bad += [t for t, w in skips(g, scc)]
        rep.ob('select', '-%s every pattern' % k, not bad, loc(bad[0]) if bad else loc(m), 'not all patterns are tried')
    patterns(P, rep, k, g)


ANY = re.compile(r'(std|boost(::\w+)*)::any_of$')


def matcher(P, y):
    """'whole' / 'part': the call compares a name with a pattern (or, any_of, with all of them)"""
    q = simple(P.callee_name(y) or '')
    if q.split('::')[-1] == 'regex_match':
        return 'whole'
    if q.split('::')[-1] == 'regex_search':
        return 'part'
    if ANY.match(q):
        got, seen, work = set(), set(), list(P.target_fns(y))
        while work:
            h = work.pop()
            if h in seen or len(seen) > 40:
                continue
            seen.add(h)
            for x in h.calls():
                n = simple(P.callee_name(x) or '').split('::')[-1]
                if n in ('regex_match', 'regex_search'):
                    got.add({'regex_match': 'whole', 'regex_search': 'part'}[n])
                else:
                    work += P.target_fns(x)
        return next(iter(got)) if len(got) == 1 else None
    return None


def patterns(P, rep, k, g):
    reps = [y for y in g.calls() if (P.callee_name(y) or '').split('::')[-1] == 'StringReplace']
    T = Terms(g)
    chain = []
    for y in reps:
        o = 1 if y.raw.get('sret') == 0 else 0
        a, b = T.t(y.ops[o + 1]), T.t(y.ops[o + 2])
        fl = T.t(y.ops[o + 3]) if len(y.ops) > o + 3 else ('c', 0)
        if a[0] == 's' and b[0] == 's':
            chain.append((y, a[1], b[1], fl))
            rep.ob('patterns', '-%s %r everywhere' % (k, a[1]), fl[0] == 'c' and fl[1] & 1, loc(y), 'only the first %r of the list is replaced' % a[1])
    if not chain:
        raise Broken('%s: how the list of tables is split was not understood' % g.q)
    order = sorted(chain, key=lambda c: sum(1 for d in chain if d is not c and g.dominates(d[0], c[0])))
    for y, a, b, fl in order:
        scc = loop_of(g, y)
        once = [d for d in order if d[0] is not y and not g.dominates(d[0], y) and not g.dominates(y, d[0])]
        if once or scc:
            raise Broken('%s: the replacements are not made one after the other' % g.q)
    sep = set()
    for ch in '*? \t,;\nabz_019':
        t = ch
        for y, a, b, fl in order:
            t = t.replace(a, b) if fl == ('c', 1) else t.replace(a, b, 1)
        want = {'*': '.*', '?': '.', ' ': '\n', '\t': '\n', ',': '\n', ';': '\n'}.get(ch, ch)
        y = next((c[0] for c in order if c[1] == ch), order[0][0])
        rep.ob('patterns', '-%s %r' % (k, ch), t == want, loc(y), '%r in a list becomes %r' % (ch, t))
    sets = [y for y in g.calls() if method(y, 'SetText')]
    for y in sets:
        # the text that is split is what the replacements made
        src = sources(g, y.ops[1])
        rep.ob('patterns', '-%s list' % k, fields_of(src) == {'param2'} and 'StringReplace' in names_of(src), loc(y), 'not the list given with the key is split')
        late = [c[0] for c in order if not g.dominates(c[0], y)]
        rep.ob('patterns', '-%s before splitting' % k, not late, loc(late[0]) if late else loc(y), 'the list is split before it was prepared')
    for y in g.calls():
        if method(y, 'Delete', 'erase') and 'TStringList' in (P.callee_name(y) or ''):
            ok = has_fact(y, lambda c: c[0] == 'res' and method(g.ins[c[1]], 'empty'))
            rep.ob('patterns', '-%s only empty ones dropped' % k, ok, loc(y), 'a pattern is dropped')


# ---------------------------------------------------------------- values
def yes(P, rep):
    f = rep.need('App::IsTrueString')
    eqs = {x.id: x for x in f.calls() if method(x, 'Equal', 'EqualIC', 'operator==')}
    T = Terms(f)
    words = {}
    for i, x in eqs.items():
        ls = [T.t(o)[1] for o in x.ops if T.t(o)[0] == 's']
        if ls:
            words[i] = ls[0]
            other = [o for o in x.ops if T.t(o)[0] != 's']
            ok = method(x, 'EqualIC') or 'LowerCase' in names_of(sources(f, other[0]))
            rep.ob('yes', 'letter case of %s' % ls[0], ok, loc(x), 'the word is compared with its letter case')
    true = set()
    bad = None
    for p in paths(f, None, lambda x: x.op == 'ret'):
        v = bare(p.val(p.raw.ops[0]))
        pos = {words[c[1]] for c in p.conds if c[0] == 'res' and c[1] in words}
        if v == ('c', 1):
            if not pos:
                bad = p
            true |= pos
        elif v[0] == 'res' and v[1] in words:
            true.add(words[v[1]])
        elif v == ('c', 0):
            if pos:
                bad = p
        else:
            raise Broken('%s: result not understood' % f.q)
    rep.ob('yes', 'words', true == YES and bad is None, floc(f), 'counts as yes: %s' % ', '.join(sorted(true)))


def number(P, rep, k, f, x):
    """the operation x is reached only with numbers that are the whole text"""
    ys = [y for y in f.calls() if (P.callee_name(y) or '').split('::')[-1] in ('stoi', 'stol', 'stoll') and f.may_follow(y, x)]
    if not ys:
        raise Broken('%s: how a version number is read was not understood' % f.q)
    for y in ys:
        cnt = f.e(y.ops[1])

        def whole(c):
            return c[0] == 'cmp' and c[1] == 'eq' and any(mentions_size(f, s) for s in c[2:]) and any(s[0] == 'ld' and s[1] == cnt for z in c[2:] for s in walk(z))
        bad = None
        for start in [y] + ([(y.raw['u'], y.bb)] if y.op == 'invoke' else []):
            for p in paths(f, start, lambda z: z is x, stop=lambda z: z in ys):
                if not any(whole(c) for c in p.conds):
                    bad = p
        rep.ob('number', '-%s whole number %d' % (k, ys.index(y)), bad is None and cnt != ('c', 0), loc(y), 'a text that is not a whole number is accepted')
    for y in f.calls():
        if 'T_1CD::get_ver_depot_config' in P.target_qs(y):
            odd = [v for v in values(f, f.e(y.ops[1])) if v != ('c', 0) and not (v[0] == 'res' and f.ins[v[1]] in ys)]
            rep.ob('number', '-%s value' % k, not odd, loc(y), 'the number used is %s' % ', '.join(show(v, f) for v in odd))


def values(f, e, seen=None):
    """the values an expression can stand for, through phis and local variables"""
    seen = set() if seen is None else seen
    if e in seen:
        return set()
    seen.add(e)
    if e[0] == 'phi':
        return set().union(*(values(f, f.e(v), seen) for p, v in f.ins[e[1]].raw['in']))
    if e[0] == 'ld' and e[1][0] == 'alloca':
        st = [z for z in f.all() if z.op == 'store' and f.e(z.ops[1]) == e[1]]
        if st:
            return set().union(*(values(f, f.e(z.ops[0]), seen) for z in st))
    return {e}


def bare(e):
    """the boolean itself, without comparisons with zero"""
    while e[0] == 'cmp' and e[1] == 'ne' and ('c', 0) in e[2:]:
        e = e[3] if e[2] == ('c', 0) else e[2]
    return e
