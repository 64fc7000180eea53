"""P24 positions and lengths beyond 4 GiB: computed in 64 bits, never cut to 32."""
from sa.lib import *
from sa.build import Broken

ASSUMPTIONS = ['positions inside a container (cf, cfu, epf) have 32 bits', 'a page has at most 64 KiB', 'numbers of pages, of blob blocks and of records have 32 bits, as the formats store them',
               'the list of tables and the file of free pages hold 4 bytes per table or page and stay below 4 GiB']
FULL = 1 << 32
ARITH = ('add', 'sub', 'mul', 'shl')
STREAMS = {'Seek', 'SetSize', 'SetPosition', 'Read', 'Write', 'CopyFrom', 'ReadBuffer', 'WriteBuffer'}
LENGTHS = {'get_len', 'GetSize', 'get_fileoffset', 'Seek', 'GetPosition', 'get_length'}


def run(P, rep):
    rep.rule('computed', 'a position or length in a file is computed in 64 bits', 25)
    rep.rule('kept', 'a length of a file is not cut to 32 bits', 3)
    rep.rule('wide', 'positions and lengths are held and passed in 64 bits', 8)
    for f in P.functions.values():
        if 'cfapi' in f.file:
            continue                    # positions in a container have 32 bits
        W = Sizes(P, f)
        for x in f.all():
            if x.is_call:
                computed(P, rep, f, W, x)
            elif x.op == 'icmp':
                compared(P, rep, f, W, x)
            elif x.op == 'store':
                stored(P, rep, f, W, x)
            elif x.op == 'trunc' and x.raw['t'] in ('i32', 'i16', 'i8'):
                kept(P, rep, f, W, x)
    for q, what in WIDE:
        if 'r' in what:
            for f in P.fns(q):
                returned(P, rep, f)
    wide(P, rep)


def returned(P, rep, f):
    W = Sizes(P, f)
    for x in f.rets():
        if not x.ops or W_bits(f, x.ops[0]) != 64 or f.e(x.ops[0])[0] == 'c':
            continue
        vs = [q for _, q in f.ins[x.ops[0]].raw['in']] if isinstance(x.ops[0], int) and x.ops[0] >= f.nargs and f.ins[x.ops[0]].op == 'phi' else [x.ops[0]]
        for v in vs:
            if f.e(v)[0] == 'c':
                continue
            bad = narrow(f, v, W)
            rep.ob('computed', '%s: returns %s' % (f.q, show(f.e(v), f)[:60]), bad is None, loc(x), 'the position is computed in 32 bits')


class Sizes:
    """upper bounds of unsigned values, from their types and the way they are computed"""

    def __init__(self, P, f):
        self.P, self.f, self.m = P, f, {}

    def bits(self, v):
        f = self.f
        if isinstance(v, int) and v >= f.nargs:
            t = f.ins[v].raw.get('t') or ''
        elif isinstance(v, int):
            t = f.args[v][1] if v < len(f.args) else ''
        else:
            t = v.get('t', '') if isinstance(v, dict) else ''
        return int(t[1:]) if t[:1] == 'i' and t[1:].isdigit() else 64

    def top(self, v, depth=0):
        if v in self.m if not isinstance(v, dict) else False:
            return self.m[v]
        if not isinstance(v, dict):
            self.m[v] = (1 << self.bits(v)) - 1
        r = self._top(v, depth)
        if not isinstance(v, dict):
            self.m[v] = r
        return r

    def _top(self, v, depth):
        """the bound without wrapping: what the value would be in unbounded arithmetic"""
        f, P = self.f, self.P
        e = f.e(v)
        if e[0] == 'c':
            return abs(e[1])
        if e[0] == 'ld' and e[1][0] == 'fld' and e[1][3] in ('pagesize', 'page_size'):
            return 65536
        if e[0] == 'ld' and e[1][0] == 'fld' and e[1][3] in ('num_indexes', 'num_fields'):
            return 1 << 16
        if not isinstance(v, int) or v < f.nargs or depth > 30:
            return (1 << self.bits(v)) - 1
        x = f.ins[v]
        w = (1 << self.bits(v)) - 1
        t = lambda k: self.top(x.ops[k], depth + 1)
        if x.op in ('zext', 'sext', 'freeze'):
            return t(0)
        if x.op == 'trunc':
            return min(w, t(0))
        if x.op == 'add':
            # a counter of a loop stays a counter
            return t(0) + t(1)
        if x.op == 'sub':
            return t(0)
        if x.op == 'mul':
            return t(0) * t(1)
        if x.op == 'shl':
            c = f.e(x.ops[1])
            return t(0) << c[1] if c[0] == 'c' else w
        if x.op in ('lshr', 'ashr'):
            c = f.e(x.ops[1])
            return t(0) >> c[1] if c[0] == 'c' else t(0)
        if x.op == 'udiv' or x.op == 'sdiv':
            c = f.e(x.ops[1])
            return t(0) // c[1] if c[0] == 'c' and c[1] > 0 else t(0)
        if x.op in ('urem', 'srem'):
            return max(0, t(1) - 1)
        if x.op == 'and':
            return min(t(0), t(1))
        if x.op in ('or', 'xor'):
            return max(t(0), t(1)) * 2 - 1 if max(t(0), t(1)) else 0
        if x.op == 'select':
            return max(self.top(x.ops[1], depth + 1), self.top(x.ops[2], depth + 1))
        if x.op == 'phi':
            return min(w, max(self.top(q, depth + 1) if not (isinstance(q, int) and q >= f.nargs and self.depends(q, x.id)) else 0 for _, q in x.raw['in']) if len(x.raw['in']) < 8 else w) or w
        if e[0] == 'min':
            return min(self.etop(s) for s in e[1:] if isinstance(s, tuple))
        n = (P.callee_name(x) or '').split('::')[-1] if x.is_call else ''
        if x.is_call and ('min' in n) and len(x.ops) >= 2 and 'std' in (P.callee_name(x) or '') or n.startswith('__sa_min'):
            return min(t(0), t(1))
        if x.is_call and 'get_pagesize' in n:
            return 65536
        return w

    def etop(self, e):
        if e[0] == 'c':
            return abs(e[1])
        return (1 << 64) - 1

    def depends(self, v, target, depth=0, seen=None):
        """v is computed from target (a counter)"""
        f = self.f
        seen = seen if seen is not None else set()
        if v == target:
            return True
        if not isinstance(v, int) or v < f.nargs or v in seen or depth > 30:
            return False
        seen.add(v)
        x = f.ins[v]
        ops = [q for _, q in x.raw['in']] if x.op == 'phi' else [o for o in x.ops] if x.op in ARITH + ('zext', 'sext', 'trunc', 'select', 'freeze') else []
        return any(self.depends(o, target, depth + 1, seen) for o in ops)


def narrow(f, v, W, depth=0):
    """an arithmetic operation in 32 bits, widened afterwards, whose result may not fit: the instruction, or None"""
    if not isinstance(v, int) or v < f.nargs or depth > 16:
        return None
    x = f.ins[v]
    if x.op in ('zext', 'sext', 'freeze'):
        return narrow_op(f, x.ops[0], W) or narrow(f, x.ops[0], W, depth + 1) if x.op != 'freeze' else narrow(f, x.ops[0], W, depth + 1)
    if x.op in ('add', 'mul', 'shl', 'sub', 'select', 'or'):
        for o in x.ops[-2:] if x.op == 'select' else x.ops:
            r = narrow(f, o, W, depth + 1)
            if r is not None:
                return r
    if x.op == 'phi' and len(x.raw['in']) < 6:
        for _, o in x.raw['in']:
            if o != v and not W.depends(o, v):
                r = narrow(f, o, W, depth + 1)
                if r is not None:
                    return r
    return None


def narrow_op(f, v, W, depth=0):
    """v: a value of 32 bits or less that is computed by an operation that may overflow"""
    if not isinstance(v, int) or v < f.nargs:
        return None
    x = f.ins[v]
    if x.op in ARITH and W.bits(v) <= 32:
        if x.op == 'sub':
            return None
        if x.op == 'add':
            # i + 1: a counter; otherwise the parts decide
            for o in x.ops:
                r = narrow_op(f, o, W)
                if r is not None:
                    return r
            small = min(W.top(o) for o in x.ops)
            if small <= 65536 * 4:
                return None
        if W.top(v) >= FULL:
            # divided before: (a / b) * b is no larger than a
            if x.op in ('mul', 'shl') and rounds_down(f, x, W):
                return None
            return x
        return None
    if x.op == 'trunc' and W.bits(x.ops[0]) == 64 and isinstance(x.ops[0], int) and x.ops[0] >= f.nargs:
        y = f.ins[x.ops[0]]
        return x if y.op in ('add', 'mul', 'shl') and W.top(y.id) >= FULL else None
    if x.op == 'phi' and depth < 3:
        for _, o in x.raw['in']:
            if not W.depends(o, v):
                r = narrow_op(f, o, W, depth + 1)
                if r is not None:
                    return r
    if x.op in ('zext', 'sext', 'freeze', 'and', 'or', 'select'):
        for o in x.ops:
            r = narrow_op(f, o, W, depth)
            if r is not None:
                return r
    return None


def rounds_down(f, x, W):
    """(a / b) * b of a value of 32 bits"""
    for o in x.ops:
        if isinstance(o, int) and o >= f.nargs and f.ins[o].op in ('udiv', 'lshr') and W.bits(f.ins[o].ops[0]) <= 32:
            if x.op == 'shl' or f.e(f.ins[o].ops[1]) in [f.e(q) for q in x.ops]:
                return True
    return False


def is_position(P, f, x, k):
    """operand k of the call is a position or a length in a file of the base or in a stream"""
    o = x.ops[k]
    if W_bits(f, o) != 64:
        return False
    for q in P.target_qs(x):
        c, _, n = q.rpartition('::')
        if n in STREAMS or c.split('::')[-1] in ('V8Object', 'Index') and n not in ('V8Object', 'Index'):
            return True
    return False


def W_bits(f, v):
    if isinstance(v, int) and v >= f.nargs:
        t = f.ins[v].raw.get('t') or ''
    elif isinstance(v, int):
        t = f.args[v][1] if v < len(f.args) else ''
    else:
        t = v.get('t', '') if isinstance(v, dict) else ''
    return int(t[1:]) if t[:1] == 'i' and t[1:].isdigit() else 0


def computed(P, rep, f, W, x):
    for k in range(len(x.ops)):
        if not is_position(P, f, x, k):
            continue
        e = f.e(x.ops[k])
        if e[0] == 'c':
            continue
        bad = narrow(f, x.ops[k], W)
        n = sorted(q.split('::')[-1] for q in P.target_qs(x))[:1]
        rep.saw(f)
        rep.ob('computed', '%s: %s of %s' % (f.q, show(e, f)[:60], n[0] if n else '?'), bad is None, loc(x),
               'the position is computed in 32 bits: %s' % (show(f.e(bad.id), f)[:80] if bad is not None else ''))


BASE_LENGTHS = {'V8Object::get_len', 'V8Object::get_fileoffset', 'Table::get_file_offset', 'Index::get_start_offset', 'Index::get_rootblock'}
BASE_FIELDS = {('V8Object', 'len'), ('Index', 'start'), ('Index', 'rootblock')}


def is_length(P, f, v, depth=0):
    """the value comes from the length of a file of the base, or from a position in one"""
    if not isinstance(v, int) or v < f.nargs or depth > 12:
        return False
    x = f.ins[v]
    e = f.e(v)
    if x.is_call and e[0] != 'ld':
        return bool((P.target_qs(x) | {P.callee_name(x) or ''}) & BASE_LENGTHS)
    if e[0] == 'ld':
        return e[1][0] == 'fld' and tuple(e[1][2:4]) in BASE_FIELDS
    if x.op in ('add', 'sub', 'mul', 'shl', 'select', 'freeze', 'zext', 'sext'):
        return any(is_length(P, f, o, depth + 1) for o in x.ops)
    if x.op == 'phi':
        return any(is_length(P, f, o, depth + 6) for _, o in x.raw['in'])
    return False


def any_length(P, f, v, depth=0):
    if is_length(P, f, v):
        return True
    if isinstance(v, int) and v < f.nargs and v > 0 and W_bits(f, v) == 64 and any(f.q == q for q, _ in WIDE):
        return True
    if not isinstance(v, int) or v < f.nargs or depth > 8:
        return False
    x = f.ins[v]
    if x.is_call:
        return bool({t.split('::')[-1] for t in P.target_qs(x)} & LENGTHS) and x.raw.get('t') == 'i64'
    if x.op in ('add', 'sub', 'mul', 'shl', 'freeze', 'zext', 'sext'):
        return any(any_length(P, f, o, depth + 1) for o in x.ops)
    return False


def compared(P, rep, f, W, x):
    sides = x.ops
    if not any(any_length(P, f, o) for o in sides):
        return
    for o in sides:
        if f.e(o)[0] == 'c' or is_length(P, f, o):
            continue
        bad = narrow(f, o, W)
        rep.ob('computed', '%s: %s against a length' % (f.q, show(f.e(o), f)[:60]), bad is None, loc(x),
               'what is compared with a length is computed in 32 bits: %s' % (show(f.e(bad.id), f)[:80] if bad is not None else ''))


HOLDERS = {'Index', 'V8Object', 'Table', 'MemBlock', 'T_1CD', 'TStream', 'TWrapperStream', 'TFileStream', 'TMemoryStream'}


def stored(P, rep, f, W, x):
    p = f.e(x.ops[1])
    if W.bits(x.ops[0]) != 64 or f.e(x.ops[0])[0] == 'c' or isinstance(x.ops[0], dict):
        return
    field = p[0] == 'fld' and p[3] in ('len', 'length', 'm_position', 'Position', 'start', 'rootblock')
    c = f.q.split('::')[-2] if '::' in f.q else ''
    if not field and c not in HOLDERS:
        return
    bad = narrow(f, x.ops[0], W)
    if field or bad is not None:
        rep.saw(f)
        rep.ob('computed', '%s: %s kept as %s' % (f.q, show(f.e(x.ops[0]), f)[:60], p[3] if field else show(p, f)[:30]), bad is None, loc(x), 'a position or length is computed in 32 bits')


SMALL_TYPES = ('free80', 'data80')


def kept(P, rep, f, W, x):
    v = x.ops[0]
    given = isinstance(v, int) and 0 < v < f.nargs and W.bits(v) == 64 and f.q in {q for q, _ in WIDE}
    if not is_length(P, f, v) and not given:
        return
    rep.saw(f)
    why = small(P, f, x, v)
    rep.ob('kept', '%s: %s' % (f.q, show(f.e(v), f)[:70]), why is not None, loc(x), 'a length of a file is cut to %s bits' % x.raw['t'][1:])


def small(P, f, x, v):
    """why a length fits into 32 bits"""
    src = sources(P, f, v)
    # the list of tables
    roots = [s for s in src if s.is_call and f.e(s.ops[0])[0] == 'ld' and f.e(s.ops[0])[1][0] == 'fld' and f.e(s.ops[0])[1][3] in ('root_object', 'free_blocks')]
    if src and len(roots) == len(src):
        return 'the list of tables'
    # the object is one of free pages, or of the old format that holds less
    types = enum_values(P, 'v8objtype')
    want = {types.get(t) for t in SMALL_TYPES} | {types.get('free838')}
    for c in facts(x):
        if c[0] == 'cmp' and c[1] == 'eq' and any(s[0] == 'ld' and s[1][0] == 'fld' and s[1][3] == 'type' for s in c[2:] if isinstance(s, tuple)):
            if any(s[0] == 'c' and s[1] in want for s in c[2:]):
                return 'kind of object'
    if f.q in ('V8Object::get_free_block', 'V8Object::set_block_as_free'):
        return 'the file of free pages counts pages'
    # the formats up to 8.3.7 store positions in the file of indexes, the later ones numbers of pages
    if page_number(f, v):
        return 'a position in the file of indexes, as the format stores it'
    return None


def page_number(f, v):
    x = f.ins[v]
    vs = [q for _, q in x.raw['in']] if x.op == 'phi' else x.ops[1:] if x.op == 'select' else []
    return any(isinstance(q, int) and q >= f.nargs and f.ins[q].op in ('udiv', 'lshr') for q in vs)


def sources(P, f, v, depth=0):
    if not isinstance(v, int) or v < f.nargs or depth > 12:
        return []
    x = f.ins[v]
    if x.is_call:
        return [x]
    ops = [q for _, q in x.raw['in']] if x.op == 'phi' else x.ops
    return [s for o in ops if not isinstance(o, dict) for s in sources(P, f, o, depth + 1)]


WIDE = [('V8Object::get_data', (2, 3)), ('V8Object::set_data', (-2, -1)), ('V8Object::set_len', (1,)), ('V8Object::get_fileoffset', (1, 'r')), ('V8Object::get_len', ('r',)),
        ('Table::get_file_offset', ('r',)), ('Index::get_start_offset', ('r',)), ('Index::get_rootblock', ('r',))]
FIELDS = [('V8Object', 'len'), ('System::Classes::TStream', 'm_position'), ('System::Classes::TStream', 'm_size'), ('Index', 'start'), ('Index', 'rootblock')]


def wide(P, rep):
    """the types that hold positions and lengths"""
    for cls, fld in FIELDS:
        for c, r in P.records.items():
            if c == cls:
                for d in r['f']:
                    if d['n'] == fld:
                        rep.ob('wide', '%s::%s' % (cls, fld), d['z'] >= 8, '/repo/src/%s:%d' % (r['file'], r['line']), 'only %d bytes' % d['z'])
    for q, what in WIDE:
        for f in P.fns(q):
            for k in what:
                if k == 'r':
                    t = f.raw['ret']
                elif k >= 0:
                    t = f.args[k][1] if k < len(f.args) else 'ptr'
                else:
                    t = f.args[k][1] if len(f.args) > 2 else 'ptr'
                if t == 'ptr' or t == 'void':
                    continue
                rep.ob('wide', '%s: %s' % (q, 'what it returns' if k == 'r' else 'argument %s' % k), t == 'i64', floc(f), 'only %s bits' % t[1:])
