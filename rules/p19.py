"""P19 only a file whose header fits is taken for a database, only a page of the right kind for an object."""
from sa.lib import *
from sa.absint import AI, stdcalls, width, uns, sgn
from sa.terms import simple
from sa.text import TextAI
from rules.p01 import VERS

ASSUMPTIONS = [
    'memcmp, strncmp and the comparison of strings follow the language standard',
    'the database is opened by the one class that represents it (the GUI front end uses it as well)',
]
HEAD = 24                       # length of the header of the file
SIG, OSIG = b'1CDBMSV8', b'1CDBOBV8'
KB4, MAXP = 0x1000, 0x10000


def within(e, struct, name):
    """offset of the address inside the named member, or None"""
    if e[0] == 'fld' and e[2] == struct and e[3] == name:
        return 0
    if e[0] == 'elt' or e[0] == 'idx' or e[0] == 'off':
        b = within(e[1], struct, name)
        k = e[2]
        if isinstance(k, tuple):
            k = k[1] if k[0] == 'c' else None
        if b is not None and isinstance(k, int):
            return b + k
    return None


def literal(o):
    """bytes of a constant text operand"""
    if isinstance(o, dict) and o.get('k') in ('s', 'bytes') and isinstance(o.get('v'), str):
        return bytes.fromhex(o['h']) if o.get('h') else o['v'].encode('utf8')
    return None


class Page(AI):
    """constant propagation over the contents of a page: `fields` {(struct, member): number or bytes}"""

    def __init__(self, P, fields, call, on=None, track=None):
        AI.__init__(self, P, call=call, on=on, limit=400000, track=track)
        self.fields = fields

    def where(self, fn, o, env, m):
        """known bytes an address points into -> (bytes, offset) or None"""
        if isinstance(o, dict):
            b = literal(o)
            return (b + b'\0', 0) if b is not None else None
        if ('bytes', o) in m:
            return m[('bytes', o)], 0
        e = fn.e(o)
        for (s, n), v in self.fields.items():
            if isinstance(v, bytes):
                k = within(e, s, n)
                if k is not None:
                    return v, k
        x = fn.ins.get(o) if o >= fn.nargs else None
        if x is not None and x.op == 'getelementptr':
            b = self.where(fn, x.ops[0], env, m)
            k = [self.val(fn, i, env) for i in x.ops[1:]]
            if b is not None and len(k) in (1, 2) and all(isinstance(i, int) for i in k) and (len(k) == 1 or k[0] == 0):
                return b[0], b[1] + sgn(k[-1], 64)
        return None

    def content(self, fn, o, w, env, m):
        e = fn.e(o)
        for (s, n), v in self.fields.items():
            if not isinstance(v, bytes) and e[0] == 'fld' and e[2] == s and e[3] == n:
                return uns(v, w)
        p = self.where(fn, o, env, m)
        if p is not None and 0 <= p[1] and p[1] + w // 8 <= len(p[0]):
            return int.from_bytes(p[0][p[1]:p[1] + w // 8], 'little')
        return None

    def step(self, fn, x, env, m, depth):
        if x.op == 'load':
            v = self.content(fn, x.ops[0], width(x.raw.get('t')), env, m)
            if v is not None:
                env[x.id] = v
                return None
        return AI.step(self, fn, x, env, m, depth)

    def compare(self, fn, x, q, argv, env, m):
        """comparison of known bytes with a known text; constants copied into a local array"""
        if q.startswith('llvm.memcpy') and isinstance(x.ops[0], int) and fn.e(x.ops[0])[0] == 'alloca':
            b = literal(x.ops[1])
            n = self.val(fn, x.ops[2], env)
            if b is not None and isinstance(n, int):
                m[('bytes', fn.e(x.ops[0])[1])] = (b + bytes(n))[:n]
                return (None,)
            return None
        if q == 'std::equal' and len(x.ops) in (3, 4):
            a, z, b = (self.where(fn, o, env, m) for o in x.ops[:3])
            if a and z and b and a[0] is z[0]:
                p, q_ = a[0][a[1]:z[1]], b[0][b[1]:b[1] + z[1] - a[1]]
                return (int(p == q_),)
            return None
        if q not in ('memcmp', 'strncmp', 'bcmp', 'std::memcmp', 'std::strncmp') or len(x.ops) < 3:
            return None
        a, b = (self.where(fn, o, env, m) for o in x.ops[:2])
        n = argv[2]
        if a is None or b is None or not isinstance(n, int):
            return None
        p, q_ = a[0][a[1]:a[1] + n], b[0][b[1]:b[1] + n]
        if len(p) < n or len(q_) < n:
            return (1,)
        return (int(p != q_),)


def flips(sig):
    return [(i, sig[:i] + bytes([sig[i] ^ 1]) + sig[i + 1:]) for i in range(len(sig))]


def opening(P, op, ver=None, read=HEAD, sig=SIG, page=KB4, size=None, blocks=None, mem=None):
    """does opening reach the first object ('reached'), and how does it end"""
    hit = set()
    fields = {('v8con', 'sig'): sig, ('v8con', 'pagesize'): page, ('v8con', 'length'): blocks}
    keys = [('fld', ('arg', 0), 'T_1CD', n) for n in ('version', 'pagesize', 'length')]

    def call(ai, fn, x, argv, m, env):
        q = simple(P.callee_name(x) or '')
        ts = P.target_qs(x)
        last = {t.split('::')[-1] for t in ts}
        if q == 'T_1CD::init':
            return (None,)
        if q in ('V8Object::V8Object', 'MemBlockManager::get_block') or q == 'T_1CD::get_block':
            hit.add(loc(x))
            return 'dead'
        if q in ('std::operator==', 'std::operator!=') or q.endswith('::compare'):
            es = [fn.e(a) for a in x.ops]
            lit = [e[1] for e in es if e[0] == 's']
            if len(lit) == 1:
                eq = lit[0] == ver
                return ((0 if eq else 1) if q.endswith('compare') else int(eq if q.endswith('==') else not eq),)
        r = ai.compare(fn, x, q, argv, env, m)
        if r is not None:
            return r
        if stream(ts):
            if last & {'Read'}:
                return (read,)
            if last & {'ReadBuffer'}:
                return (read,) if read == HEAD else 'dead'
            if last & {'GetSize'}:
                return (size,)
        return stdcalls(ai, fn, x, argv, m, env)
    ai = Page(P, fields, call, track=lambda e: e[0] == 'alloca' or e in keys)
    out = ai.run(op, None, mem)
    return bool(hit), {k for k, v, m in out}


def stream(ts):
    return any(re.match(r'(System::Classes::)?T\w*Stream::', t) for t in ts)


def listing(P, op, ver, n, length):
    """is a table made for a list of n tables in an object of this length"""
    hit = set()
    old = VERS.index(ver) < 2
    new = ver == '8.3.8.0'
    page = 0x2000 if new else KB4
    root = 'root_80' if old else 'root_81'
    fields = {('v8con', 'sig'): SIG, ('v8con', 'pagesize'): page, ('v8con', 'length'): 7, (root, 'numblocks'): n}
    keys = [('fld', ('arg', 0), 'T_1CD', k) for k in ('version', 'pagesize', 'length', 'num_tables')]

    def call(ai, fn, x, argv, m, env):
        q = simple(P.callee_name(x) or '')
        ts = P.target_qs(x)
        last = {t.split('::')[-1] for t in ts}
        if q == 'T_1CD::init':
            return (None,)
        if q == 'Table::Table':
            hit.add(loc(x))
            return 'dead'
        if q in ('std::operator==', 'std::operator!=') or q.endswith('::compare'):
            es = [fn.e(a) for a in x.ops]
            lit = [e[1] for e in es if e[0] == 's']
            if len(lit) == 1:
                eq = lit[0] == ver
                return ((0 if eq else 1) if q.endswith('compare') else int(eq if q.endswith('==') else not eq),)
        r = ai.compare(fn, x, q, argv, env, m)
        if r is not None:
            return r
        if q == 'V8Object::get_len':
            return (length if not new else 1 << 20,)
        if any(t.endswith('TMemoryStream::GetSize') for t in ts) or stream(ts) and last & {'GetSize'}:
            if x in base_sizes:
                return (7 * page,)
            return (length,)
        if stream(ts) and last & {'Read', 'ReadBuffer'}:
            return (HEAD,)
        return stdcalls(ai, fn, x, argv, m, env)

    # the size of the file is asked for before any object exists
    objs = [x for x in op.calls() if simple(P.callee_name(x) or '') == 'V8Object::V8Object']
    base_sizes = {x for x in op.calls() if any(t.endswith('::GetSize') for t in P.target_qs(x)) and not any(op.may_follow(o, x) for o in objs)}
    ai = Page(P, fields, call, track=lambda e: e[0] == 'alloca' or e in keys)
    ai.run(op)
    return bool(hit)


def run(P, rep):
    rep.rule('whole', 'a file that is shorter than the header or carries another signature is refused', 9)
    rep.rule('version', 'exactly the known format versions are accepted', 7)
    rep.rule('page', 'exactly the possible page sizes are accepted', 10)
    rep.rule('size', 'the file has exactly as many whole pages as the header says', 8)
    rep.rule('kind', 'a page is taken for an object only when it carries the signature of its kind', 10)
    rep.rule('length', 'an object is taken only when its header can list the pages its length needs', 6)
    rep.rule('tables', 'the list of tables is read only as far as the object that holds it reaches', 8)

    op = rep.need('T_1CD::open')
    good = dict(ver='8.3.8.0', page=0x2000, size=7 * 0x2000, blocks=7)

    def refused(rule, what, **kw):
        hit, ends = opening(P, op, **dict(good, **kw))
        rep.ob(rule, what, not hit and ends <= {'exc'}, floc(op), 'such a file is taken for a database' if hit else 'opening returns without an error')

    def accepted(rule, what, **kw):
        hit, ends = opening(P, op, **dict(good, **kw))
        rep.ob(rule, what, hit, floc(op), 'such a database is refused')

    accepted('whole', 'whole header with the signature')
    for n in (0, 1, HEAD - 1):
        refused('whole', 'only %d bytes of header' % n, read=n)
    for i, s in flips(SIG):
        refused('whole', 'another byte %d of the signature' % i, sig=s)
    for v in VERS:
        kw = dict(good, ver=v) if v == '8.3.8.0' else dict(ver=v, size=7 * KB4, blocks=7, page=0)
        hit, ends = opening(P, op, **kw)
        rep.ob('version', 'format ' + v, hit, floc(op), 'a database of this format is refused')
    for v in ('8.3.9.0', '8.2.14.1', '0.0.0.0'):
        for p in (KB4, 0x2000):
            hit, ends = opening(P, op, ver=v, page=p, size=8 * p, blocks=8)
            rep.ob('version', 'unknown format %s, pages of 0x%x' % (v, p), not hit and ends <= {'exc'}, floc(op), 'a database of an unknown format is accepted')
    for p in (0x1000, 0x2000, 0x4000, 0x8000, 0x10000):
        accepted('page', 'page size 0x%x' % p, page=p, size=7 * p)
    for p in (0, 1, 0x200, 0x800, 0xfff, 0x1001, 0x1800, 0x3000, 0x5000, 0xc000, 0x10001, 0x18000, 0x20000, 0x80000000, 0xfffff000):
        refused('page', 'page size 0x%x' % p, page=p, size=7 * p)
    for v in VERS[:5]:
        for p in (0, 0x2000):
            hit, ends = opening(P, op, ver=v, page=p, size=8 * KB4, blocks=8)
            rep.ob('page', 'format %s has pages of 4 KiB (header says %d)' % (v, p), hit, floc(op), 'a database with pages of 4 KiB is refused')
    for v, p in (('8.2.14.0', KB4), ('8.1.0.0', KB4), ('8.3.8.0', KB4), ('8.3.8.0', MAXP)):
        for what, size, blocks in (('one byte more than whole pages', 5 * p + 1, 5), ('one byte less than whole pages', 5 * p - 1, 5),
                                   ('half a page more', 5 * p + p // 2, 5), ('one page more than the header says', 6 * p, 5), ('one page less than the header says', 4 * p, 5)):
            hit, ends = opening(P, op, ver=v, page=p, size=size, blocks=blocks)
            rep.ob('size', 'format %s, pages of 0x%x: %s' % (v, p, what), not hit and ends <= {'exc'}, floc(op), 'such a file is taken for a database')
        big = (1 << 33) // p
        hit, ends = opening(P, op, ver=v, page=p, size=big * p, blocks=big)
        rep.ob('size', 'format %s, pages of 0x%x: 8 GiB' % (v, p), hit, floc(op), 'such a database is refused')

    # --- the version is the four numbers of the header in their order
    g = rep.need('v8con::getver')
    want = ['ver1', 'ver2', 'ver3', 'ver4']
    for k, v, m in TextAI(P).run(g):
        if k != 'ret':
            continue
        ps = dict(m).get(('T', ('arg', 0)), ())
        if any(p[0] == '?' for p in ps) or not ps:
            got = []
            order = [x for x in g.all() if x.op == 'load' and fieldname(g.e(x.ops[0])) and fieldname(g.e(x.ops[0]))[0] == 'v8con']
            got = [fieldname(g.e(x.ops[0]))[1] for x in order]
            ok = got == want
        else:
            got = [p[1] if p[0] == 't' else p[1][1][3] if p[0] == 'num' and p[1][0] == 'ld' else show(p, g) if False else str(p[0]) for p in ps]
            ok = got == ['ver1', '.', 'ver2', '.', 'ver3', '.', 'ver4']
        rep.ob('version', 'the version is made of the four numbers of the header', ok, floc(g), 'it is made of %s' % got)

    kinds(P, rep)

    for ver in VERS:
        head = 12 if VERS.index(ver) < 2 else 36
        for n, length, ok in ((3, head + 12, True), (3, head + 13, True), (3, head + 11, False), (1, head + 4, True), (2, head + 7, False),
                              (-1, head + 64, False), (0x3fffffff, head + 4, False), (0x40000001, head + 4, False), (1, head - 1, False), (1, 4, False)):
            hit = listing(P, op, ver, n, length)
            rep.ob('tables', 'format %s: %d tables in %d bytes' % (ver, n, length), hit == ok, floc(op),
                   'the list of tables is read beyond its object' if hit else 'a whole list of tables is refused')


def kinds(P, rep):
    init = rep.need('V8Object::init', lambda f: f.nargs == 3)
    vers = {i: v for i, v in enumerate(VERS, 1)}
    en = enum_values(P, 'db_ver')
    num = {}
    for n, v in en.items():
        t = n.replace('ver', '').replace('_', '.')
        num[t] = v

    def taken(ver, block, fields, page):
        keys = [('fld', ('arg', 0), 'V8Object', k) for k in ('type', 'len', 'fatlevel', 'numblocks')]

        def call(ai, fn, x, argv, m, env):
            q = simple(P.callee_name(x) or '')
            if q == 'T_1CD::get_version':
                return (num[ver],)
            if q == 'T_1CD::get_pagesize':
                return (page,)
            if q in ('T_1CD::get_block', 'T_1CD::get_block_for_write', 'MemBlockManager::get_block'):
                return (1,) if q == 'T_1CD::get_block' else (None,)
            r = ai.compare(fn, x, q, argv, env, m)
            if r is not None:
                return r
            return stdcalls(ai, fn, x, argv, m, env)
        ai = Page(P, fields, call, track=lambda e: e[0] == 'alloca' or e in keys)
        return {k for k, v, m in ai.run(init, {2: block})}

    D, F = 'v838ob_data', 'v838ob_free'
    for ver in ('8.0.3.0', '8.2.14.0', '8.3.8.0'):
        new = ver == '8.3.8.0'
        for block, what in ((1, 'list of free pages'), (2, 'root object'), (1000, 'object')):
            page = 0x2000 if new else KB4
            sig = (b'\x1c\xff' if block == 1 else b'\x1c\xfd') if new else OSIG

            def fields(s, ln=0, fat=0):
                r = {('v8ob', 'sig'): s, ('v8ob', 'len'): ln, (D, 'sig'): s, (F, 'sig'): s, (D, 'len'): ln, (D, 'fatlevel'): fat}
                return r
            k = taken(ver, block, fields(sig), page)
            rep.ob('kind', 'format %s, %s: its own signature' % (ver, what), 'ret' in k, floc(init), 'an object with its own signature is refused')
            bad = flips(sig)
            if new:
                bad.append(('1 (the other kind)', b'\x1c\xfd' if block == 1 else b'\x1c\xff'))
            for i, s in bad:
                k = taken(ver, block, fields(s), page)
                rep.ob('kind', 'format %s, %s: another byte %s' % (ver, what, i), k <= {'exc'}, floc(init), 'a page of another kind is taken for the object')
    for ver, page, cases_ in (
            ('8.2.14.0', KB4, ((0, 0, True), (1, 0, True), (1018 * 0x3ff000, 0, True), (1018 * 0x3ff000 + 1, 0, False), (0xffffffff, 0, False))),
            ('8.3.8.0', KB4, None), ('8.3.8.0', MAXP, None)):
        if cases_ is None:
            n = page // 4 - 6
            per = page // 4 * page
            cases_ = ((0, 0, True), (1, 0, True), (n * page, 0, True), (n * page + 1, 0, False), (n * page + page + 1, 0, False), (1 << 40, 0, False),
                      (1, 1, True), (n * per, 1, True), (n * per + 1, 1, False), (1 << 62, 1, False))
        sig = OSIG if ver != '8.3.8.0' else b'\x1c\xfd'
        for ln, fat, ok in cases_:
            k = taken(ver, 5, {('v8ob', 'sig'): sig, ('v8ob', 'len'): ln, (D, 'sig'): sig, (D, 'len'): ln, (D, 'fatlevel'): fat}, page)
            rep.ob('length', 'format %s, pages of 0x%x, level %d: %d bytes' % (ver, page, fat, ln), ('ret' in k) if ok else k <= {'exc'}, floc(init),
                   'an object longer than its header can list is taken' if not ok else 'a whole object is refused')
