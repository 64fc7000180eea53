"""P12 the XML export of a table is well-formed and tells the values under their own columns."""
import re
from sa.lib import *
from sa.ir import walk
from sa.build import Broken
from sa.terms import Terms, simple
from sa.text import TextAI, norm
from sa.absint import AI
from sa.bits import Bits
from rules.p11 import inner

ASSUMPTIONS = ['names of tables and columns contain no character that is special in XML',
               'values contain no control characters (XML 1.0 has no way to write them)']
PARENT = {'Table': None, 'Fields': 'Table', 'Records': 'Table', 'Field': 'Fields', 'Record': 'Records'}
ATTRS = {'Name': 'name', 'Type': 'type', 'Length': 'length', 'Precision': 'precision', 'NotNull': 'null_exists'}
SPECIAL = {'&': '&amp;', '<': '&lt;', '>': '&gt;', "'": '&apos;', '"': '&quot;'}
WS = ' \t\r\n'
START = ('T', (), '', ())


def run(P, rep):
    rep.rule('document', 'on every path the text written is a well-formed document: tags are closed in order, text stands inside elements', 14)
    rep.rule('columns', 'every column is described by its own name, type, length, precision and NULL mark', 6)
    rep.rule('values', 'the element of a column holds the value of that column, an element without a value stands for NULL', 2)
    rep.rule('every', 'no column is left out, of the description and of a record', 2)
    rep.rule('escape', 'each character that is special in XML is replaced by its entity wherever it stands, the others are kept', 7)
    rep.rule('texts', 'the text of a value is escaped, or made of characters that need no escaping', 9)
    rep.rule('base64', 'binary data is written as the base64 digits of its bytes, in groups of three, with padding and whole line ends', 12)
    fs = [f for f in P.functions.values() if f.q == 'Table::export_to_xml']
    if not fs:
        raise Broken('XML export not found')
    for f in fs:
        document(P, rep, f)
    escape(P, rep)
    texts(P, rep)
    base64(P, rep)


# ---------------------------------------------------------------- the document
class Bad(Exception):
    pass


def isname(c):
    return c.isalnum() or c in '_-.:' or ord(c) > 127


def feed(st, pieces, ev):
    """run the text through an XML reader; ev(kind, ...) reports elements, attributes and character data"""
    mode, stack, buf, attr = st
    for p in pieces:
        if p[0] != 't':
            if mode in ('open', 'lt', 'close') and buf == '':
                buf, mode = p, 'open' if mode in ('open', 'lt') else mode
            elif mode == 'av':
                attr = attr + (p,)
            elif mode == 'T':
                if not stack:
                    raise Bad('text outside of the document element')
                ev('text', stack, p)
            else:
                raise Bad('a value stands in the middle of %s' % WHERE.get(mode, mode))
            continue
        for c in p[1]:
            if mode == 'T':
                if c == '<':
                    if buf:
                        ev('text', stack, ('t', buf))
                    mode, buf = 'lt', ''
                elif not stack:
                    if c not in WS and c != '﻿':
                        raise Bad('text outside of the document element')
                elif c == '&':
                    buf, mode = buf + c, 'ent'
                elif buf or c not in WS:
                    buf += c
            elif mode == 'ent':
                buf += c
                if c == ';':
                    mode = 'T'
                elif not (c.isalnum() or c == '#'):
                    raise Bad('& stands unescaped')
            elif mode == 'lt':
                if c == '?':
                    mode, buf = 'pi', ''
                elif c == '!':
                    mode, buf = 'cm', ''
                elif c == '/':
                    mode, buf = 'close', ''
                elif isname(c):
                    mode, buf = 'open', c
                else:
                    raise Bad('< is not followed by a name')
            elif mode == 'pi':
                buf = (buf + c)[-2:]
                if buf == '?>':
                    mode, buf = 'T', ''
            elif mode == 'cm':
                buf = (buf + c)[-3:]
                if buf == '-->':
                    mode, buf = 'T', ''
            elif mode == 'open':
                if isinstance(buf, str) and isname(c):
                    buf += c
                else:
                    if not buf:
                        raise Bad('an element without a name')
                    if not stack and buf != 'Table':
                        raise Bad('the document element is not <Table>')
                    if len(stack) > 7:
                        raise Bad('elements are not closed')
                    stack = stack + (buf,)
                    ev('open', stack, buf)
                    buf = ''
                    if c == '>':
                        mode = 'T'
                    elif c == '/':
                        mode = 'slash'
                    elif c in WS:
                        mode = 'tag'
                    else:
                        raise Bad('the name of an element is followed by %r' % c)
            elif mode == 'tag':
                if c == '>':
                    mode = 'T'
                elif c == '/':
                    mode = 'slash'
                elif isname(c):
                    mode, buf = 'an', c
                elif c not in WS:
                    raise Bad('%r stands in a tag' % c)
            elif mode == 'an':
                if c == '=':
                    mode = 'eq'
                elif isname(c):
                    buf += c
                else:
                    raise Bad('an attribute without a value')
            elif mode == 'eq':
                if c != '"':
                    raise Bad('the value of an attribute is not quoted')
                mode, attr = 'av', ()
            elif mode == 'av':
                if c == '"':
                    ev('attr', stack, buf, norm(attr))
                    mode, buf, attr = 'ae', '', ()
                elif c in '<&':
                    raise Bad('%r stands in the value of an attribute' % c)
                else:
                    attr = attr + (('t', c),)
            elif mode == 'ae':
                mode = {'>': 'T', '/': 'slash'}.get(c, 'tag' if c in WS else None)
                if mode is None:
                    raise Bad('%r follows the value of an attribute' % c)
            elif mode == 'slash':
                if c != '>':
                    raise Bad('/ is not followed by >')
                ev('empty', stack, stack[-1])
                stack, mode = stack[:-1], 'T' if len(stack) > 1 else 'end'
            elif mode == 'close':
                if c == '>':
                    if not stack or stack[-1] != buf:
                        raise Bad('</%s> closes <%s>' % (tagname(buf), tagname(stack[-1]) if stack else ''))
                    ev('close', stack, buf)
                    stack, buf, mode = stack[:-1], '', 'T' if len(stack) > 1 else 'end'
                elif isinstance(buf, str) and isname(c):
                    buf += c
                else:
                    raise Bad('the name in a closing tag goes on with %r' % c)
            elif mode == 'end':
                if c not in WS:
                    raise Bad('text behind the document element')
    if mode == 'T' and buf:
        ev('text', stack, ('t', buf))
        buf = ''
    return (mode, stack, buf, norm(attr))


WHERE = {'tag': 'a tag', 'an': 'the name of an attribute', 'eq': 'a tag', 'ae': 'a tag', 'slash': 'a tag', 'pi': 'the declaration', 'cm': 'a comment', 'open': 'a name', 'close': 'a name',
         'end': 'the end of the document', 'ent': 'an entity'}


def tagname(b):
    if isinstance(b, str):
        return b
    return 'column' if b[0] == 'field' else '?'


def getter(P, t, ints=False):
    """(what, field term) of a value read from a field's description"""
    if t[0] == 'ld' and t[1][0] == 'fld' and t[1][2] == 'Field':
        return (t[1][3], t[1][1])
    if t[0] == 'ld' and t[1][0] == 'fld' and t[1][2].endswith('FieldType'):
        b = t[1][1]
        if b[0] == 'ld' and b[1][0] == 'fld' and b[1][3] == 'type_manager':
            return (t[1][3], b[1][1])
    if t[0] == 'call' and t[1].startswith('Field::get_') and len(t) == 3:
        return ({'presentation_type': 'type'}.get(t[1][11:], t[1][11:]), t[2])
    if t[0] == 'call' and re.match(r'\w*FieldType::get_', t[1]) and len(t) == 3:
        b = t[2]
        if b[0] == 'call' and b[1] == 'Field::get_type_manager':
            return (t[1].split('::get_')[1].replace('presentation_type', 'type'), b[2])
        if b[0] == 'ld' and b[1][0] == 'fld' and b[1][3] == 'type_manager':
            return (t[1].split('::get_')[1].replace('presentation_type', 'type'), b[1][1])
    return None


def document(P, rep, f):
    rep.saw(f)
    state = {}      # write site -> message or None
    seen = {'attr': {}, 'value': {}, 'names': set()}
    cells = {}

    def ext(ai, fn, x, q, env, m):
        if fn is not f:
            return None
        T = ai.T(fn)
        last = q.split('::')[-1]
        sret = x.raw.get('sret')
        if sret is not None:
            d = fn.e(x.ops[sret])
            ts = [T.t(o) for i, o in enumerate(x.ops) if i != sret]
            targets = {simple(t) for t in P.target_qs(x)} | {q}
            if any(t.startswith('Field::get_') or re.match(r'\w*FieldType::get_presentation_type', t) for t in targets):
                g = getter(P, ('call', next(iter(sorted(t for t in targets if '::get_' in t)))) + tuple(ts))
                if g:
                    m[('T', d)] = (('field',) + g,)
                    return (None,)
            if any(t.endswith('::get_xml_string') for t in targets):
                m[('T', d)] = (('xml', ts[1] if len(ts) > 1 else None, ts[0]),)
                return (None,)
            if any(t.endswith('::get_XML_presentation') for t in targets):
                m[('T', d)] = (('xml', ts[0], ts[1] if len(ts) > 1 else None),)
                return (None,)
            if any(t == 'toXML' for t in targets):
                m[('T', d)] = (('clean',),)
                return (None,)
        if q.endswith('TFileStream::TFileStream') and x.ops:
            m[('X', fn.e(x.ops[0]))] = START
            return None
        if last in ('Write', 'WriteString') and x.ops:
            k = ('X', fn.e(x.ops[0]))
            if k not in m:
                return None
            if last == 'WriteString':
                ps = content(ai, fn, x.ops[1], m, env)
            else:
                ps = raw(P, ai, fn, x, m, env)
            site(ai, fn, x, k, ps, env, m)
            if m[k] is None:
                return 'dead'
            return None
        if last == 'operator++' and x.ops:
            it = T.t(x.ops[0])
            for k in list(m):
                if k[0] == 'X' and m[k]:
                    open_ = [b for b in m[k][1] if not isinstance(b, str) and it in walk(b)]
                    if open_:
                        state[x] = 'the element of a column is still open when the next column is taken'
                        m[k] = None
                        return 'dead'
            clear(env)
        return None

    def content(ai, fn, o, m, env):
        e = fn.e(o)
        if fieldname(e) == ('Table', 'name'):
            return (('table', 'name'),)
        if e[0] in ('sel',):
            return (('sel', ai.T(fn).e(e)),)
        ps = ai.pieces(fn, o, m, env)
        out = []
        for p in ps:
            if p[0] == '?' and isinstance(p[1], tuple):
                t = p[1]
                g = getter(P, t)
                if g:
                    p = ('field',) + g
                elif t[0] == 'sel':
                    p = t[:1] + (t,)
                elif t[0] == 'call' and t[1].endswith('get_name') and ('arg', 0) in t:
                    p = ('table', 'name')
                elif fieldname(t) == ('Table', 'name'):
                    p = ('table', 'name')
            out.append(p)
        return tuple(out)

    def site(ai, fn, x, k, ps, env, m):
        T = ai.T(fn)
        # a choice between texts
        for i, p in enumerate(ps):
            if p[0] == 'sel':
                t = p[1]
                g = getter(P, t[1]) if t[1][0] != 'not' else getter(P, t[1][1])
                a, b = (t[2], t[3]) if t[1][0] != 'not' else (t[3], t[2])
                if g and a[0] == 's' and b[0] == 's':
                    ps = ps[:i] + (('choice', g, a[1], b[1]),) + ps[i + 1:]
        events = []

        def ev(kind, stack, *a):
            events.append((kind, stack) + a)
        try:
            m[k] = feed(m[k], ps, ev)
            state.setdefault(x, None)
            if m[k][0] in ('open', 'av') and any(p[:2] == ('field', 'name') for p in ps):
                seen['names'].add(x)
        except Bad as b:
            state[x] = str(b)
            m[k] = None
            return
        for e in events:
            kind, stack = e[:2]
            if kind == 'open':
                b = e[2]
                par = stack[-2] if len(stack) > 1 else None
                if isinstance(b, str):
                    ok = b in PARENT and PARENT[b] == par
                else:
                    ok = par == 'Record'
                    if ok and b[:2] != ('field', 'name'):
                        state[x] = 'the name of an element is not the name of a column'
                if not ok:
                    state[x] = '<%s> stands in <%s>' % (tagname(b), tagname(par) if par else 'no element')
            elif kind == 'attr':
                name, ps_ = e[2], e[3]
                own = stack[-1]
                v = ps_[0] if len(ps_) == 1 else None
                if own == 'Table' and name == 'Name':
                    ok = v == ('table', 'name')
                    seen['attr'].setdefault(('Table', 'Name', x), []).append((ok, 'the name of the table is %r' % (ps_,)))
                elif own == 'Field' and name in ATTRS:
                    g = None
                    if v and v[0] == 'field':
                        g = v[1:]
                    elif v and v[0] == 'num':
                        g = getter(P, v[1])
                    elif v and v[0] == 'choice' and (v[2], v[3]) == ('false', 'true'):
                        g = v[1]
                    elif v and v[0] == 't' and v[1] in ('true', 'false') and -10 in env and env[-10][0] == (v[1] == 'false'):
                        g = ('null_exists', env[-10][1])
                    ok = bool(g) and g[0] == ATTRS[name]
                    seen['attr'].setdefault(('Field', name, x), []).append((ok, '%s is not the %s of the column' % (name, ATTRS[name])))
                    fk = ('F', k)
                    prev = m.get(fk)
                    if g and prev is not None and prev != g[1]:
                        seen['attr'].setdefault(('Field', name, x), []).append((False, '%s is taken from another column' % name))
                    if g:
                        m[fk] = g[1]
            elif kind == 'text':
                own = stack[-1]
                p = e[2]
                if isinstance(own, str):
                    ok, why = False, 'text stands in <%s>' % own
                else:
                    ft = own[2] if len(own) > 2 else None
                    null = env.get(-11)
                    if p[0] == 'xml':
                        ok, why = p[1] == ft, 'the value of another column stands in the element'
                        if ok and not (null and null == (False, ft)):
                            ok, why = False, 'a value is written without asking whether it is NULL'
                    elif p[0] in ('clean', 't'):
                        ok, why = env.get(-12) is True, 'the value of a column is replaced by other text'
                        if p[0] == 't' and ok and env.get(-13) is True:
                            ok, why = False, 'the name of the file with the value is replaced by other text'
                    else:
                        ok, why = False, 'text that is not escaped stands in the element'
                m[('V', k)] = 1
                seen['value'].setdefault(x, []).append((ok, why))
            elif kind in ('close', 'empty'):
                own = e[2]
                if not isinstance(own, str):
                    if ('V', k) not in m:
                        ft = own[2] if len(own) > 2 else None
                        null = env.get(-11)
                        ok = null == (True, ft) or env.get(-13) is False
                        seen['value'].setdefault(x, []).append((ok, 'the element of a value that is not NULL is empty'))
                    clear(env)
                    m.pop(('V', k), None)
                m.pop(('F', k), None) if own == 'Field' else None

    def clear(env):
        for n in (-10, -11, -13):
            env.pop(n, None)

    def edge(fn, x, taken, env):
        if fn is not f:
            return True
        s = x.raw['s'][0 if taken else 1]
        for c in edge_conds(fn, x.bb, s):
            pol, e = (False, c[1]) if c[0] == 'not' else (True, c)
            if e[0] == 'cmp' and e[1] in ('eq', 'ne') and ('c', 0) in e[2:]:
                e2 = e[2] if e[3] == ('c', 0) else e[3]
                pol, e = pol == (e[1] == 'ne'), e2
            if e == ('arg', 2):
                old = env.get(-12)
                if old is not None and old != pol:
                    return False
                env[-12] = pol
                continue
            T = TT(fn)
            t = T.e(e)
            g = getter(P, t)
            if g and g[0] == 'null_exists':
                env[-10] = (pol, g[1])
            elif e[0] == 'res' and fn.ins[e[1]].is_call:
                y = fn.ins[e[1]]
                qs = {simple(q).split('::')[-1] for q in P.target_qs(y)}
                if 'is_null_value' in qs and len(y.ops) > 1:
                    env[-11] = (pol, T.t(y.ops[1]))
                elif 'save_blob_to_file' in qs:
                    env[-13] = pol
        return True

    tt = {}

    def TT(fn):
        return tt.setdefault(fn, Terms(fn))
    ai = TextAI(P, ext, edge, limit=200000)
    res = ai.run(f)
    for x, msg in sorted(state.items(), key=lambda i: i[0].id):
        rep.ob('document', 'text %s' % loc(x), msg is None, loc(x), msg or '')
    ends = [dict(m) for k, v, m in res if k == 'ret']
    fin = {s for m in ends for k, s in m.items() if k[0] == 'X'}
    bad = [s for s in fin if s[0] != 'end']
    rep.ob('document', 'end', not bad and bool(fin), floc(f), 'the document ends inside <%s>' % (tagname(bad[0][1][-1]) if bad and bad[0][1] else '') if bad or fin else 'no document is written on the way to a return')
    none = [m for m in ends if not any(k[0] == 'X' for k in m)]
    rep.ob('document', 'written', not none, floc(f), 'the export may return without having written a document')
    for (el, name, x), rs in sorted(seen['attr'].items(), key=lambda i: i[0][2].id):
        b = [w for ok, w in rs if not ok]
        rep.ob('columns', '%s of <%s>' % (name, el), not b, loc(x), b[0] if b else '')
    for n in ATTRS:
        if not any(k[:2] == ('Field', n) for k in seen['attr']):
            rep.ob('columns', '%s of <Field>' % n, False, floc(f), 'a column is described without its %s' % n)
    if not any(k[:2] == ('Table', 'Name') for k in seen['attr']):
        rep.ob('columns', 'Name of <Table>', False, floc(f), 'the document does not name its table')
    for x, rs in sorted(seen['value'].items(), key=lambda i: i[0].id):
        b = [w for ok, w in rs if not ok]
        rep.ob('values', 'value %s' % loc(x), not b, loc(x), b[0] if b else '')
    for x in sorted(seen['names'], key=lambda y: y.id):
        scc = inner(f, x, loop_of(f, x))
        if not f.in_loop(x):
            rep.ob('every', 'column %s' % loc(x), False, loc(x), 'only one column is written')
            continue
        cs, sk = cut_short(f, scc), skips(f, scc)
        rep.ob('every', 'columns of the loop at %s' % loc(x), not cs and not sk, loc((cs + sk + [x])[0]), 'the loop over the columns leaves some of them out')
        head = [b for b in scc if any(p not in scc for p in f.pred[b])]
        for h in head:
            p = f.path_avoiding(f.blocks[h][0], lambda w: w.bb != h and w.bb in scc and h in f.nsucc[w.bb] and w is f.blocks[w.bb][-1], lambda w: w is x or w.bb not in scc)
            rep.ob('every', 'column written at %s' % loc(x), p is None, loc(x), 'a column may be passed over: %s' % (path_lines(p) if p else ''))


def raw(P, ai, fn, x, m, env):
    """pieces of a Write of a buffer"""
    e = fn.e(x.ops[1])
    n = fn.e(x.ops[2])
    if e[0] == 'data':
        e = e[1]
    if e[0] == 's' and n[0] == 'c':
        bs = e[1].encode('utf8')
        if n[1] == len(bs):
            return (('t', e[1]),)
    if e[0] == 'alloca' and ('T', e) not in m:
        for y in fn.all():
            if y.is_call and (P.callee_name(y) or '').startswith('llvm.memcpy') and fn.e(y.ops[0]) == e:
                s = fn.e(y.ops[1])
                if s[0] == 's' and n == ('c', len(s[1].encode('utf8'))):
                    return (('t', s[1]),)
    if n == ('size', e) or n[0] == 'res' and fn.ins[n[1]].is_call and simple(P.callee_name(fn.ins[n[1]]) or '').split('::')[-1] in ('size', 'length') and fn.e(fn.ins[n[1]].ops[0]) == e:
        return ai.expr(fn, e, m, env)
    return (('?', 'bytes'),)


# ---------------------------------------------------------------- special characters
def escape(P, rep):
    f = P.fn1('toXML')
    rep.saw(f)
    chains = []
    direct = [x for x in f.calls() if simple(P.callee_name(x) or '').endswith('StringReplace')]
    if direct:
        def ext(ai, fn, x, q, env, m):
            if q.endswith('StringReplace') and x.raw.get('sret') is not None:
                T = ai.T(fn)
                src = ai.pieces(fn, x.ops[1], m, env)
                frm, to = ai.pieces(fn, x.ops[2], m, env), ai.pieces(fn, x.ops[3], m, env)
                fl = ai.val(fn, x.ops[4], env) if len(x.ops) > 4 else 0
                m[('T', fn.e(x.ops[0]))] = (('rep', src[0] if len(src) == 1 else None, frm, to, fl, x.id),)
                return (None,)
            return None
        ai = TextAI(P, ext, limit=20000, start={})
        res = ai.run(f, {}, {('T', ('arg', 1)): (('in',),)})
        outs = {dict(m).get(('T', ('arg', 0))) for k, v, m in res if k == 'ret'}
        for o in outs:
            ch = []
            p = o[0] if o and len(o) == 1 else None
            while p and p[0] == 'rep':
                ch.append(p)
                p = p[1]
            ch.reverse()
            whole = p == ('in',)
            rep.ob('escape', 'result', whole, floc(f), 'the result does not come from the argument by the replacements')
            done = {}
            for i, r in enumerate(ch):
                a = r[2][0][1] if len(r[2]) == 1 and r[2][0][0] == 't' else None
                b = r[3][0][1] if len(r[3]) == 1 and r[3][0][0] == 't' else None
                done.setdefault(a, []).append((i, b, r[4], f.ins[r[5]]))
            for c, ent in SPECIAL.items():
                ds = done.pop(c, [])
                y = ds[0][3] if ds else None
                rep.ob('escape', 'character %s' % c, len(ds) == 1, loc(y) if y else floc(f), 'the character %s is replaced %d times' % (c, len(ds)))
                for i, b, fl, y in ds[:1]:
                    rep.ob('escape', 'entity %s' % ent, b == ent, loc(y), '%s is replaced by %r' % (c, b))
                    rep.ob('escape', 'all %s' % c, isinstance(fl, int) and fl & 1 == 1, loc(y), 'only the first %s is replaced' % c)
                    if c == '&':
                        rep.ob('escape', 'order', i == 0, loc(y), '& is replaced after an entity was put in')
            for a, ds in done.items():
                rep.ob('escape', 'other %r' % a, False, loc(ds[0][3]), '%r is replaced as well' % a)
        rep.ob('escape', 'returned', bool(outs) and None not in outs, floc(f), 'the function may return without a result')
        replace(P, rep)
        return
    # one character at a time
    for c, want in list(SPECIAL.items()) + [('a', 'a'), ('Z', 'Z'), (';', ';'), (' ', ' '), ('\x80', '\x80')]:
        got = one_char(P, f, c)
        rep.ob('escape', 'character %r' % c, got == {want}, floc(f), '%r becomes %s' % (c, sorted(map(str, got))))
    for x in f.all():
        if x.op == 'load' and x.raw.get('t') == 'i8' and f.in_loop(x):
            scc = inner(f, x, loop_of(f, x))
            rep.ob('escape', 'whole text', not cut_short(f, scc) and not skips(f, scc), loc(x), 'the loop does not run over the whole text')


def one_char(P, f, c):
    """what is appended for a character in one pass of the loop"""
    out = set()
    code = ord(c)
    cells = {}
    for x in f.all():
        if x.op == 'load' and x.raw.get('t') == 'i8':
            cells[f.e(x.ops[0])] = code

    class One(TextAI):
        def step(self, fn, x, env, m, depth):
            if x.op == 'load' and x.raw.get('t') == 'i8' and fn is f:
                env[x.id] = code
                return None
            return TextAI.step(self, fn, x, env, m, depth)

    def ext(ai, fn, x, q, env, m):
        last = q.split('::')[-1]
        if last in ('operator+=', 'append', 'push_back') and fn is f:
            add = ai.pieces(fn, x.ops[1], m, env) if ai.isptr(fn, x.ops[1]) else (ai.char(fn, x.ops[1], env),)
            if not ai.isptr(fn, x.ops[1]) and add[0][0] != 't':
                add = (('t', c),)
            m['app'] = m.get('app', ()) + add if len(m.get('app', ())) < 3 else m['app']
            return (None,)
        return None
    heads = []
    ai = One(P, ext, limit=20000)
    res = ai.run(f)
    for k, v, m in res:
        a = dict(m).get('app', ())
        if not a:
            continue
        ps = norm(a)
        s = ps[0][1] if len(ps) == 1 and ps[0][0] == 't' else '?'
        out.add(s)
    # several passes append the same text again
    base = {s for s in out if not any(s != o and s.replace(o, '') == '' for o in out)}
    return base


def replace(P, rep):
    """StringReplace finds from where it left off and goes on behind what it put in"""
    for f in P.fns('System::SysUtils::StringReplace'):
        rep.saw(f)
        T = Terms(f)
        finds = [x for x in f.calls() if simple(P.callee_name(x) or '').endswith('basic_string::find')]
        reps = [x for x in f.calls() if simple(P.callee_name(x) or '').endswith('basic_string::replace')]
        if not finds or not reps:
            rep.ob('escape', 'replacement', False, floc(f), 'texts are neither searched nor replaced')
            continue
        x, y = finds[0], reps[0]
        old, new = ('arg', 2), ('arg', 3)
        size = lambda e, o: e == ('size', o) or e[0] == 'res' and f.ins[e[1]].is_call and simple(P.callee_name(f.ins[e[1]]) or '').split('::')[-1] in ('size', 'length') and f.e(f.ins[e[1]].ops[0]) == o
        rep.ob('escape', 'search', T.t(x.ops[1]) == old, loc(x), 'another text is searched')
        pos = f.e(x.id)
        a = [f.e(o) for o in y.ops]
        a = a[1:] if y.raw.get('sret') == 0 else a
        rep.ob('escape', 'replaced part', len(a) >= 4 and a[1] == pos and size(a[2], old) and a[3] == new, loc(y), 'another part is replaced, or by another text')
        st = x.ops[2] if len(x.ops) > 2 else None
        from rules.p11 import cases
        starts = []
        if st is not None and isinstance(st, int) and f.ins.get(st) is not None and f.ins[st].op == 'phi':
            for pb, v in f.ins[st].raw['in']:
                starts.append(f.e(v))
        elif st is not None:
            starts.append(f.e(st))
        good = True
        loops = False
        for e in starts:
            if e == ('c', 0):
                continue
            l = lin_of(e)
            rest = dict(l[1])
            ok = l[0] == 0 and rest.pop(pos, 0) == 1 and len(rest) == 1 and all(c == 1 and size(t, new) for t, c in rest.items())
            good = good and ok
            loops = loops or ok
        rep.ob('escape', 'goes on', good and loops, loc(x), 'the search does not go on behind the text put in')
        scc = loop_of(f, x)
        npos = lambda c: c[0] == 'cmp' and c[1] == 'eq' and pos in c[2:]
        flag = lambda c: iszero(c, ('op', 'and', ('arg', 4), ('c', 1))) or c[0] == 'cmp' and c[1] == 'eq' and ('c', 0) in c[2:] and any(s == ('arg', 4) for s in walk(c)) or c[0] == 'not' and any(s == ('arg', 4) for s in walk(c))
        for b in sorted(scc):
            for s in f.nsucc[b]:
                if s in scc or throwing_block(f, s):
                    continue
                cs = edge_conds(f, b, s)
                rep.ob('escape', 'end of the search', any(npos(c) or flag(c) for c in cs), loc(f.blocks[b][-1]), 'the search ends for another reason than that nothing is left')


# ---------------------------------------------------------------- texts of values
def texts(P, rep):
    types = enum_values(P, 'type_fields')
    fs = [f for f in P.functions.values() if f.q.endswith('FieldType::get_XML_presentation')]
    if not fs:
        raise Broken('values in XML not found')
    for f in sorted(fs, key=lambda f: f.q):
        rep.saw(f)
        cls = f.q.split('::')[0]
        tcell = {f.e(x.ops[0]) for x in f.all() if x.op == 'load' and fieldname(f.e(x.ops[0])) == ('CommonFieldType', 'type')}
        kinds = {v: n for n, v in types.items()}
        use = sorted(kinds) if tcell else [None]
        done = set()
        for t in use:
            res = outcome(P, f, {c: t for c in tcell} if t is not None else {})
            for ps in sorted(res, key=repr):
                n = kinds.get(t, '')
                ok, why = clean(P, cls, n, ps)
                if cls != 'CommonFieldType' and ps == (('t', '{?}'),):
                    continue
                rep.ob('texts', '%s %s' % (cls, n), ok, floc(f), why)


def project_string(P, fn, x, m, ai=None):
    """what a small function of the project makes of strings: the possible results"""
    g = P.functions.get(x.callee)
    if g is None or len(g.blocks) > 40 or '::' in g.q or g.q in ('toXML', 'base64_encode', 'GUIDas1C', 'GUIDasMS', 'hexstring') or g is fn:
        return None
    if ai is None:
        return ()
    cells = {}
    for i, o in enumerate(x.ops):
        if i != x.raw.get('sret') and ai.isptr(fn, o):
            cells[('T', ('arg', i))] = ai.pieces(fn, o, m)
    return frozenset(outcome(P, g, cells))


def safe(ps):
    return all(p[0] == 't' and SAFE.match(p[1]) or p[0] in ('num', 'digits', 'esc') or p[0] == 'alt' and p[1] and all(safe(a) for a in p[1]) for p in ps)


def outcome(P, f, cells):
    def ext(ai, fn, x, q, env, m):
        sret = x.raw.get('sret')
        T = ai.T(fn)
        targets = {simple(t) for t in P.target_qs(x)} | {q}
        last = {t.split('::')[-1] for t in targets if t}
        stream = lambda o: ('S', fn.e(o))
        if 'readBlob' in last and len(x.ops) >= 4:
            m[stream(x.ops[1])] = ('blob', fn.e(x.ops[2]), fn.e(x.ops[3]))
            return (None,)
        if q == 'base64_encode':
            m[stream(x.ops[1])] = ('b64', m.get(stream(x.ops[0])))
            return (None,)
        if 'GetBytes' in last or 'GetMemory' in last:
            r = ('bytes', m.get(stream(x.ops[-1] if sret is not None else x.ops[0])))
            m[('T', fn.e(x.id))] = (r,)
            return (None,)
        if sret is None:
            return None
        d = ('T', fn.e(x.ops[sret]))
        if 'toXML' in last:
            m[d] = (('esc', ai.pieces(fn, x.ops[1], m, env)),)
        elif 'toUtf8' in last:
            src = src_of(P, fn, x.ops[2], m)
            m[d] = (('utf8', src),)
        elif 'get_presentation' in last or 'get_fast_presentation' in last:
            own = fn.e(x.ops[1]) == ('arg', 1) and fn.e(x.ops[2]) == ('arg', 2)
            m[d] = (('pres', own),)
        elif project_string(P, fn, x, m) is not None:
            m[d] = (('alt', project_string(P, fn, x, m, ai)),)
        elif any(t and t.startswith(('BinaryDecimal', 'BinaryGuid::')) for t in targets):
            m[d] = (('digits',),)         # the digits of a number, a date or a GUID: P21
        elif last & {'from_binary', 'from_varbinary', 'GUIDas1C', 'GUIDasMS'} or 'hexstring' in last:
            m[d] = (('digits',),)
        else:
            return None
        return (None,)

    def src_of(P, fn, o, m):
        e = fn.e(o)
        b = e
        while b[0] in ('fld', 'ld', 'elt', 'data'):
            b = b[1]
        if ('S', b) in m:
            return ('bytes', m[('S', b)])
        return m.get(('T', e), (('?', e),))[0]

    class A(TextAI):
        def expr(self, fn, e, m, env=None, o=None):
            if ('T', e) in m:
                return m[('T', e)]
            b = e
            while b[0] in ('fld', 'ld', 'elt', 'data'):
                b = b[1]
            if ('S', b) in m and e != b:
                return (('bytes', m[('S', b)]),)
            return TextAI.expr(self, fn, e, m, env, o)
    ai = A(P, ext, limit=20000)
    ai.track = lambda e: TextAI.local(e) or e in cells
    res = ai.run(f, {}, dict(cells))
    return {dict(m).get(('T', ('arg', 0)), (('?', 'nothing'),)) for k, v, m in res if k == 'ret'}


SAFE = re.compile(r'^[^<>&]*$')


def part_ok(p):
    """a text taken from bytes with their length"""
    return p[0] == 'part' and len(p) >= 3 and any(s[0] == 'size' or s[0] == 'call' and s[1].endswith(('GetSize', '::size')) for t in p[2:] if isinstance(t, tuple) for s in walk(t))


def clean(P, cls, n, ps):
    p = ps[0] if len(ps) == 1 else None
    blob = lambda b: isinstance(b, tuple) and b[0] == 'blob' and key(b[1]) == 0 and key(b[2]) == 4
    if n in ('tf_varchar', 'tf_char', 'tf_version', 'tf_version8') and cls == 'CommonFieldType':
        ok = p is not None and p[0] == 'esc' and p[1] == (('pres', True),)
        return ok, 'the text of a %s value is not the escaped text of the value: %s' % (n[3:], ps)
    if n == 'tf_string' and cls == 'CommonFieldType':
        ok = p is not None and p[0] == 'esc' and len(p[1]) == 1 and p[1][0][0] == 'utf8' and p[1][0][1][0] == 'bytes' and blob(p[1][0][1][1])
        return ok, 'the value is not the escaped text of its blob'
    if n == 'tf_text' and cls == 'CommonFieldType':
        ok = p is not None and p[0] == 'esc' and len(p[1]) == 1 and part_ok(p[1][0]) and p[1][0][1][0] == 'bytes' and blob(p[1][0][1][1])
        return ok, 'the value is not the escaped text of its blob'
    if n == 'tf_image' and cls == 'CommonFieldType':
        ok = p is not None and p[0] == 'utf8' and p[1][0] == 'bytes' and p[1][1] is not None and p[1][1][0] == 'b64' and blob(p[1][1][1])
        return ok, 'the value is not its blob in base64'
    if safe(ps):
        return True, ''
    if p is not None and p[0] == 'pres':
        return cls in ('NumericFieldType', 'DatetimeFieldType', 'GuidFieldType') and p[1], 'the text of the value is not escaped'
    if p is not None and p[0] == '?' and cls in ('NumericFieldType', 'DatetimeFieldType', 'GuidFieldType'):
        return True, ''      # put together from single characters; P21 decides exactly which
    return False, 'the text of the value is not escaped: %s' % (ps,)


def key(e):
    """byte offset in the value of a part of the blob's address"""
    if e[0] == 'ld':
        a = e[1]
        off = 0
        while a[0] in ('elt', 'fld'):
            if a[0] == 'elt' and a[2][0] == 'c':
                off += a[2][1] * a[3]
            else:
                return None
            a = a[1]
        return off if a == ('arg', 2) else None
    return None


# ---------------------------------------------------------------- base64
DIGITS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def base64(P, rep):
    f = P.fn1('base64_encode')
    rep.saw(f)
    inp, out = ('arg', 0), ('arg', 1)
    reads = [x for x in f.calls() if method(x, 'Read') and f.e(x.ops[0]) == inp]
    writes = [x for x in f.calls() if method(x, 'Write') and f.e(x.ops[0]) == out]
    if not reads or not writes:
        rep.ob('base64', 'transfer', False, floc(f), 'nothing is read or written')
        return
    buf = f.e(reads[0].ops[1])
    B = Bits(f)

    def place_in(e):
        """number of the input byte a loaded value is"""
        if e[0] != 'ld':
            return None
        b, k = slot(e[1])
        return k if b == buf else None

    def digit(o):
        """index bits of a table lookup, or the character"""
        while isinstance(o, int) and f.ins[o].op in ('sext', 'zext', 'trunc'):
            o = f.ins[o].ops[0]
        if isinstance(o, dict):
            return ('c', o.get('v'))
        x = f.ins[o]
        if x.op != 'load':
            return None
        e = f.e(x.ops[0])
        if e[0] == 'elt' and e[1][0] == 's':
            tab = e[1][1]
        else:
            return None
        y = f.ins.get(x.ops[0]) if isinstance(x.ops[0], int) else None
        idx = [p for p in (y.ops[1:] if y is not None else []) if not (isinstance(p, dict) and p.get('v') == 0)]
        if not idx:
            return None
        return ('d', tab.rstrip('\0'), B.of(idx[-1]))
    groups = []
    for w in writes:
        e, n = f.e(w.ops[1]), f.e(w.ops[2])
        if n == ('c', 8):
            groups.append((w, e))
        else:
            # a line end
            cell = None
            src = [y for y in f.calls() if (P.callee_name(y) or '').startswith('llvm.memcpy') and f.e(y.ops[0]) == e]
            txt = None
            for y in src:
                txt = bytes_of(P, f.e(y.ops[1]))
            if txt is None and e[0] in ('s', 'g'):
                txt = bytes_of(P, e)
            if txt is None:
                sts = {}
                for y in f.all():
                    if y.op == 'store':
                        b, k = slot(f.e(y.ops[1]))
                        if b == e and k is not None and f.e(y.ops[0])[0] == 'c':
                            sts[k] = f.e(y.ops[0])[1]
                txt = b''.join(bytes([v & 255, v >> 8]) for k, v in sorted(sts.items())) or None
            rep.ob('base64', 'line end', txt is not None and txt.rstrip(b'\0') in (b'\r\0\n', b'\n') and n == ('c', len(txt) if len(txt or b'') % 2 == 0 else len(txt) + 1), loc(w),
                   'a line does not end with CR LF: %r' % (txt,))
    rep.ob('base64', 'groups', len(groups) >= 1, floc(f), 'no group of four characters is written')
    for w, e in groups:
        for k in range(4):
            sts = []
            for y in f.all():
                if y.op == 'store':
                    pl = slot(f.e(y.ops[1]))
                    if pl == (e, k) and f.path_avoiding(y, lambda z: z is w, lambda z: z is not y and z.op == 'store' and slot(f.e(z.ops[1])) == pl):
                        sts.append(y)
            rep.ob('base64', 'character %d at %s' % (k, loc(w)), bool(sts), loc(w), 'the character is not set')
            for y in sts:
                vals = [(y.ops[0], None)]
                o = y.ops[0]
                while isinstance(o, int) and f.ins[o].op in ('sext', 'zext', 'trunc'):
                    o = f.ins[o].ops[0]
                if isinstance(o, int) and f.ins[o].op == 'phi':
                    vals = [(v, pb) for pb, v in f.ins[o].raw['in']]
                    bb = f.ins[o].bb
                elif isinstance(o, int) and f.ins[o].op == 'select':
                    vals = [(f.ins[o].ops[1], (o, True)), (f.ins[o].ops[2], (o, False))]
                for v, pb in vals:
                    d = digit(v)
                    if d and d[0] == 'c':
                        ok = d[1] == 61 and k >= 2 and pad_ok(P, f, y, pb, k, bb if isinstance(pb, int) else None)
                        rep.ob('base64', 'padding %d at %s' % (k, loc(w)), ok, loc(y), 'the group is padded with %r, or where a byte is left' % d[1])
                        continue
                    want = [b for n in range(3) for b in [(n, i) for i in range(7, -1, -1)]][6 * k:6 * k + 6][::-1]
                    got = None
                    if d and d[1] == DIGITS:
                        bits = d[2]
                        if all(b == 0 for b in bits[6:]):
                            got = [(place_in(b[0]), b[1]) if isinstance(b, tuple) else b for b in bits[:6]]
                    rep.ob('base64', 'digit %d at %s' % (k, loc(y)), got == want, loc(y), 'the digit is not made of the bits it stands for' if d and d[1] == DIGITS else 'the digit is not taken from the base64 alphabet')
    # what is read: whole groups of three, then the rest
    for x in reads:
        n = f.e(x.ops[2])
        if f.in_loop(x):
            rep.ob('base64', 'group read', n == ('c', 3) and slot(f.e(x.ops[1])) == (buf, 0), loc(x), 'a group is not three bytes')
            scc = loop_of(f, x)
            p = f.path_avoiding(x, lambda z: z is x or z.op == 'ret', lambda z: any(z is w for w, e in groups))
            rep.ob('base64', 'group written', p is None, loc(x), 'a group may be read and not written')
        else:
            gone = lambda c: c[0] == 'cmp' and any(s[0] == 'res' and f.ins[s[1]].is_call and method(f.ins[s[1]], 'GetSize') for s in walk(c)) and (('c', 0) in c[2:] and c[1] in ('sle', 'ule', 'eq') or ('c', 1) in c[2:] and c[1] in ('slt', 'ult'))
            p = f.path_avoiding(None, lambda z: z.op == 'ret', lambda z: z is x, skip=veto(f, gone))
            rep.ob('base64', 'rest read', p is None, loc(x), 'bytes may be left that are not read')
            p = f.path_avoiding(x, lambda z: z.op == 'ret', lambda z: any(z is w for w, e in groups))
            rep.ob('base64', 'rest written', p is None, loc(x), 'the rest may be read and not written')
            zero = {}
            for y in f.all():
                if y.op == 'store' and f.e(y.ops[0]) == ('c', 0) and f.dominates(y, x):
                    b, k = slot(f.e(y.ops[1]))
                    if b == buf and k is not None:
                        zero[k] = y
            z2 = [y for y in f.calls() if (P.callee_name(y) or '').startswith('llvm.memset') and f.e(y.ops[0]) == buf and f.dominates(y, x)]
            rep.ob('base64', 'rest padded', {1, 2} <= set(zero) or bool(z2), loc(x), 'the bytes behind the end are not zero')
    size = lambda e: e[0] == 'res' and f.ins[e[1]].is_call and method(f.ins[e[1]], 'GetSize') and f.e(f.ins[e[1]].ops[0]) == inp or e[0] == 'size'
    lp = [x for x in reads if f.in_loop(x)]
    for x in lp:
        ok = False
        for c in facts(x):
            if c[0] == 'cmp' and c[1] in ('slt', 'ult', 'ne', 'sgt', 'ugt', 'sge', 'uge', 'sle', 'ule'):
                for s in walk(c):
                    if s[0] == 'op' and s[1] in ('sdiv', 'udiv') and s[3] == ('c', 3) and size(s[2]) and c[1] in ('slt', 'ult', 'ne', 'sgt', 'ugt'):
                        ok = True
                if any(s == ('c', 3) for s in c[2:]) and any(size(s) or fieldname(s) for s in walk(c)):
                    ok = True
                l = c[2:]
                if any(size(s) for s in walk(c)):
                    ok = ok or any(s[0] == 'lin' and abs(s[1]) in (3, 2) for s in walk(c))
        rep.ob('base64', 'number of groups', ok, loc(x), 'the groups are not counted from the length of the data')
    rest = [x for x in reads if not f.in_loop(x)]
    rep.ob('base64', 'rest', bool(rest), floc(f), 'the bytes behind the last whole group are not written')


def pad_ok(P, f, y, pb, k, bb):
    """the padding is taken only if fewer than k bytes are left"""
    cs = []
    if isinstance(pb, tuple):
        s = f.ins[pb[0]]
        cs = [truth_(c, t) for c, t in f.decomp(s.ops[0], pb[1])]
    elif pb is not None:
        b = pb
        cs = edge_conds(f, b, bb)
        while len(f.pred[b]) == 1:
            cs += edge_conds(f, f.pred[b][0], b)
            b = f.pred[b][0]
    for c in cs:
        if c[0] == 'cmp':
            op, a, b = c[1], c[2], c[3]
            if a[0] == 'c':
                op = {'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}.get(op, op)
                a, b = b, a
            if b[0] != 'c':
                continue
            if op in ('sle', 'ule') and b[1] == k - 1 or op in ('slt', 'ult') and b[1] == k or op == 'eq' and b[1] == k - 1:
                return True
            if k == 3 and op == 'ne' and b[1] == 3:
                return True
    return False


def truth_(c, t):
    from sa.ir import truth
    return truth(c, t)


def slot(e):
    """(array, number of the element)"""
    if e[0] == 'elt':
        b, k = slot(e[1])
        if e[2][0] == 'c' and k is not None:
            return b, k + e[2][1]
        return b, None
    return e, 0


def bytes_of(P, e):
    if e[0] == 's':
        return e[1].encode('utf8')
    if e[0] == 'g':
        g = P.globals.get(e[1])
        if not g:
            return None
        i = g.get('init') if isinstance(g, dict) else None
        return const_bytes(i)
    return None


def const_bytes(i):
    if not isinstance(i, dict):
        return None
    if i.get('k') == 's16':
        return i['v'].encode('utf-16-le') if isinstance(i['v'], str) else b''.join(bytes([v & 255, v >> 8]) for v in i['v'])
    if i.get('k') == 's':
        return i['v'].encode('utf8')
    if i.get('k') in ('agg', 'arr', 'data'):
        out = b''
        for v in i.get('v') or i.get('e') or []:
            if isinstance(v, dict):
                out += v['v'].to_bytes((v.get('w') or 8) // 8, 'little')
            else:
                out += int(v).to_bytes(2, 'little')
        return out
    return None
