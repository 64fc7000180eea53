"""P21 GUIDs, binary values, decimal numbers and dates are shown with exactly the digits they are stored with."""
from itertools import product
from sa.lib import *
from sa import mem
from sa.mem import Mem, Stop
from sa.absint import uns
from sa.build import Broken

ASSUMPTIONS = [
    'strings, vectors, arrays and maps of the standard library behave as documented',
    'stored numbers and dates consist of decimal digits, as the format requires',
    'the bytes of a value are judged by classes of digits (0, 1 to 9, a to f), each digit by its place: its value is kept symbolic',
]
AS1C = [12, 13, 14, 15, None, 10, 11, None, 8, 9, None, 0, 1, None, 2, 3, 4, 5, 6, 7]
ASMS = [3, 2, 1, 0, None, 5, 4, None, 7, 6, None, 8, 9, None, 10, 11, 12, 13, 14, 15]
LOW, HIGH, NZ = (0, 9), (10, 15), (1, 9)
NAME = {LOW: '0-9', HIGH: 'a-f'}


def d(s, k=0):
    return ('lin', ((s, 1),), k)


def byte(h, l):
    """value of a byte made of two digits (names or numbers)"""
    t, c = [], 0
    for v, f in ((h, 16), (l, 1)):
        if isinstance(v, int):
            c += v * f
        else:
            t.append((v, f))
    if not t:
        return c
    if len(t) == 1 and t[0][1] == 1 and c == 0:
        return d(l)
    bits = []
    for v in (l, h):
        bits += [(v, i) for i in range(4)] if not isinstance(v, int) else [(v >> i) & 1 for i in range(4)]
    while bits and bits[-1] == 0:
        bits.pop()
    return ('b', tuple(bits))


def show_text(t):
    if t is None:
        return 'not known'
    out = ''
    for c in t:
        if isinstance(c, int):
            out += chr(c)
        elif c is None:
            out += '?'
        elif c[0] == 'lin' and len(c[1]) == 1 and c[1][0][1] == 1:
            out += '<%s%s>' % (c[1][0][0], '' if c[2] == 48 else ':a-f' if c[2] == 87 else '+%d' % c[2])
        else:
            out += '<%s>' % (c,)
    return out


def rvals(M, fn, args, mem):
    try:
        return M.run(fn, args, mem)
    except Stop:
        return None


def ob(rep, rule, inst, ok, loc, msg=''):
    """an obligation; when a library function without a model was met on the way, a failure decides nothing"""
    if not ok and mem.MISSED:
        rep.notes.append('undecided, for want of a model of %s: %s, %s' % (mem.MISSED[0][:80], rule, inst))
        ok = True
    del mem.MISSED[:]
    rep.ob(rule, inst, ok, loc, msg)


def judge(rep, rule, inst, f, ends, want, what):
    """ends: exits of the run; want: check of one returning exit -> None or a complaint"""
    bad = None
    if ends is None:
        bad = 'it does not come to an end'
    else:
        rets = [e for e in ends if e[0] == 'ret']
        if not rets:
            bad = 'it never returns'
        for k, v, m in ends:
            if k == 'exc' and bad is None:
                bad = 'it ends with an error'
            elif k == 'ret' and bad is None:
                bad = want(v, dict(m))
    ob(rep, rule, inst, bad is None, floc(f), '%s: %s' % (what, bad) if bad else '')


OUT = ('out',)


def shown(expect):
    def w(v, m):
        c = m.get((OUT, 0))
        t = c[1] if isinstance(c, tuple) and c[0] == 'str' else None
        if t == expect:
            return None
        return 'the text is %s instead of %s' % (show_text(t), show_text(expect))
    return w


def kinds_of_bytes(n):
    """the contents of n bytes for each mixture of the two classes of digits: (name, ranges, cells)"""
    for hi, lo in product((LOW, HIGH), repeat=2):
        R = {}
        for i in range(n):
            R['%dh' % i] = hi
            R['%dl' % i] = lo
        yield 'digits %s, %s' % (NAME[hi], NAME[lo]), R
    R = {}
    for i in range(n):
        R['%dh' % i] = HIGH if i % 3 == 0 else LOW
        R['%dl' % i] = HIGH if i % 2 else LOW
    yield 'mixed digits', R


def hexed(R, order):
    t = []
    for i in order:
        if i is None:
            t.append(45)
            continue
        for k in 'hl':
            s = '%d%s' % (i, k)
            t.append(d(s, 48 if R[s] == LOW else 87))
    return tuple(t)


def cells(n):
    return {(('rec',), i): byte('%dh' % i, '%dl' % i) for i in range(n)}


REC = ('p', ('rec',), 0)
RES = ('p', OUT, 0)
THIS = ('p', ('this',), 0)


def over(M, n):
    """bytes of the value that were read beyond its length"""
    return sorted(o for ob, o in M.reads if ob == ('rec',) and isinstance(o, int) and not 0 <= o < n)


def fields_of(P):
    r = P.records.get('CommonFieldType')
    if not r:
        raise Broken('the class of the types of fields (CommonFieldType) is not found')
    o = {f['n']: f['o'] for f in r['f']}
    for n in ('type', 'length', 'precision'):
        if n not in o:
            raise Broken('member %s of a type of a field is not found' % n)
    return o


def method_of(P, rep, q):
    return rep.need(q, lambda f: True)


def run(P, rep):
    rep.rule('guid', 'a GUID is shown with the digits of its bytes in the order of its notation', 4)
    rep.rule('parse', 'the text of a GUID gives back its bytes, a text of another length is refused', 4)
    rep.rule('compare', 'GUIDs are equal, ordered and empty by their bytes', 8)
    rep.rule('hex', 'a binary value is shown with two digits for each of its bytes, in order', 3)
    rep.rule('number', 'a number is shown with its sign and all its digits, without needless zeros', 6)
    rep.rule('date', 'the parts of a date are shown in their places', 4)
    rep.rule('bounds', 'a value is read from its own bytes', 3)
    guids(P, rep)
    binaries(P, rep)
    numbers(P, rep)
    dates(P, rep)


def type_field(P, cls, kind, length, precision, flags=None):
    """memory of a type of a field"""
    o = fields_of(P)
    ty = enum_values(P, 'type_fields')[kind]
    m = {(('this',), 'class'): cls, (('this',), o['type']): ty, (('this',), o['length']): length, (('this',), o['precision']): precision}
    if 'len' in o:
        m[(('this',), o['len'])] = length
    for n, v in (flags or {}).items():
        for g in P.globals:
            if P.globals[g].get('name', '').endswith('::' + n):
                m[(('g', g), 0)] = v
    return m


def presenters(P, cls):
    """the two presentations of a type of a field as (function, arguments behind the record)"""
    out = []
    for meth, rest in (('get_presentation', (0, 0, None, 0)), ('get_XML_presentation', (0, None))):
        for f in P.fns('%s::%s' % (cls, meth)):
            out.append((f, meth == 'get_XML_presentation', rest))
    return out


def guids(P, rep):
    entries = []
    for q, order in (('BinaryGuid::as_1C', AS1C), ('BinaryGuid::as_MS', ASMS), ('GUID_to_string', AS1C), ('GUIDas1C', AS1C), ('GUIDasMS', ASMS)):
        for f in P.fns(q):
            entries.append((f, f.q, [RES, REC], {}, order))
    for cls in ('BinaryFieldType', 'GuidFieldType'):
        for f, xml, rest in presenters(P, cls):
            for ms in (0, 1):
                for show, ignore in ((1, 0), (0, 1), (1, 1)):
                    if cls == 'GuidFieldType':
                        if ms or (show, ignore) != (1, 0):
                            continue
                    a = [RES, THIS, REC] + list(rest)
                    if xml:
                        a = [RES, THIS, REC, None, ignore]
                    else:
                        a = [RES, THIS, REC, 0, 0, ignore, 0]
                    inst = f.q if cls == 'GuidFieldType' else '%s, %s notation, %s' % (f.q, 'MS' if ms else '1C', 'asked for' if ignore else 'set')
                    entries.append((f, inst, a, type_field(P, cls, 'tf_binary', 16, 0, {'showGUIDasMS': ms, 'showGUID': show}), ASMS if ms else AS1C))
    if not any(f.q.startswith('BinaryGuid') for f, *_ in entries):
        raise Broken('the class of GUIDs (BinaryGuid) is not found')
    for f, inst, args, mem, order in entries:
        rep.saw(f)
        for nm, R in kinds_of_bytes(16):
            M = Mem(P, R)
            m = cells(16)
            m.update(mem)
            ends = rvals(M, f, args, m)
            judge(rep, 'guid', '%s, %s' % (inst, nm), f, ends, shown(hexed(R, order)), 'the GUID is shown wrong')
            bad = over(M, 16)
        ob(rep, 'bounds', inst, not bad, floc(f), 'bytes behind the GUID are read: %s' % bad)

    # reading
    ctors = P.fns('BinaryGuid::BinaryGuid')
    text = [f for f in ctors if f.nargs == 2 and 'basic_string' in f.name]
    raw = [f for f in ctors if f.nargs == 2 and f.name.endswith('EPKc')]
    none = [f for f in ctors if f.nargs == 1]
    cop = [f for f in ctors if f.nargs == 2 and 'ERKS_' in f.name]
    if not text or not raw:
        raise Broken('the constructors of a GUID are not found')
    STR = ('p', ('str',), 0)
    classes = (('digits 0-9', lambda n: (LOW, 48)), ('digits a-f', lambda n: (HIGH, 87)), ('digits A-F', lambda n: (HIGH, 55)),
               ('mixed digits', lambda n: ((LOW, 48), (HIGH, 87), (HIGH, 55))[n % 3]))

    def spelled(order, cls):
        R, t, k = {}, [], 0
        for i in order:
            if i is None:
                t.append(45)
                continue
            for h in 'hl':
                s = '%d%s' % (i, h)
                r, off = cls(k)
                k += 1
                R[s] = r
                t.append(d(s, off))
        return R, tuple(t)

    def got(obj, base=0):
        def w(v, m):
            for i in range(16):
                if m.get((obj, base + i)) != byte('%dh' % i, '%dl' % i):
                    return 'byte %d of the GUID is not made of its digits' % i
            return None
        return w
    orders = (('36 characters', AS1C), ('32 characters', list(range(16))))
    for f in text:
        rep.saw(f)
        for on, order in orders:
            for cn, cls in classes:
                R, t = spelled(order, cls)
                M = Mem(P, R)
                ends = rvals(M, f, [THIS, STR], {(('str',), 0): ('str', t)})
                judge(rep, 'parse', 'text of %s, %s' % (on, cn), f, ends, got(('this',)), 'the GUID is read wrong')
        for n in (0, 1, 31, 33, 35, 37, 38, 64):
            M = Mem(P, {})
            ends = rvals(M, f, [THIS, STR], {(('str',), 0): ('str', (49,) * n)})
            bad = None
            if ends is None or any(k == 'ret' for k, v, m in ends):
                bad = 'a text of %d characters is taken for a GUID' % n
            else:
                for k, v, m in ends:
                    if v is None or v != '_ZTI17DetailedException' and '_ZTI17DetailedException' not in M.bases(v):
                        bad = 'the error is none of the errors of the library (%s)' % v
            ob(rep, 'parse', 'text of %d characters is refused' % n, bad is None, floc(f), bad or '')
    for f in P.fns('string_to_GUID'):
        rep.saw(f)
        for on, order in orders:
            R, t = spelled(order, classes[3][1])
            M = Mem(P, R)
            ends = rvals(M, f, [STR, THIS], {(('str',), 0): ('str', t)})
            g = got(('this',))
            judge(rep, 'parse', '%s: %s' % (f.q, on), f, ends, lambda v, m: 'a GUID is not recognised' if v != 1 else g(v, m), 'the GUID is read wrong')
        for n in (0, 31, 35, 37):
            M = Mem(P, {})
            ends = rvals(M, f, [STR, THIS], {(('str',), 0): ('str', (49,) * n), (('this',), 3): 77})
            judge(rep, 'parse', '%s: %d characters' % (f.q, n), f, ends,
                  lambda v, m: 'it is taken for one' if v != 0 else None if m.get((('this',), 3)) == 77 else 'the GUID is changed', 'a text that is no GUID')
    for f in raw + cop:
        rep.saw(f)
        R = next(iter(kinds_of_bytes(16)))[1]
        M = Mem(P, R)
        ends = rvals(M, f, [THIS, REC], cells(16))
        judge(rep, 'parse', '%s from %s' % (f.q, 'bytes' if f in raw else 'another'), f, ends, got(('this',)), 'the bytes are not taken')
        bad = over(M, 16)
        ob(rep, 'bounds', '%s from %s' % (f.q, 'bytes' if f in raw else 'another'), not bad, floc(f), 'bytes behind the GUID are read: %s' % bad)
    for f in none:
        M = Mem(P, {})
        ends = rvals(M, f, [THIS], {})
        judge(rep, 'parse', 'a new GUID is empty', f, ends, lambda v, m: None if all(m.get((('this',), i)) == 0 for i in range(16)) else 'it is not', 'a GUID without value')

    # comparing
    OTHER = ('p', ('other',), 0)
    R = next(iter(kinds_of_bytes(16)))[1]
    same = {}
    for i in range(16):
        same[(('this',), i)] = same[(('other',), i)] = byte('%dh' % i, '%dl' % i)

    def says(n):
        return lambda v, m: None if v == n else 'the answer is %s' % {0: 'no', 1: 'yes'}.get(v, 'not known')
    for name, eq, first_greater, first_less in (('operator==', 1, 0, 0), ('operator!=', 0, 1, 1), ('operator>', 0, 1, 0)):
        for f in P.fns('BinaryGuid::' + name):
            rep.saw(f)
            ends = rvals(Mem(P, R), f, [THIS, OTHER], dict(same))
            judge(rep, 'compare', '%s: the same bytes' % f.q, f, ends, says(eq), 'equal GUIDs')
            for i in range(16):
                for a, b, r in ((0x90, 0x7f, first_greater), (0x10, 0x7f, first_less), (5, 6, first_less), (6, 5, first_greater)):
                    m = dict(same)
                    m[(('this',), i)], m[(('other',), i)] = a, b
                    if name == 'operator>' and i < 15:       # what follows must not matter
                        m[(('this',), i + 1)], m[(('other',), i + 1)] = b, a
                    ends = rvals(Mem(P, R), f, [THIS, OTHER], m)
                    judge(rep, 'compare', '%s: byte %d is %d and %d' % (f.q, i, a, b), f, ends, says(r), 'GUIDs that differ in one byte')
    for f in P.fns('BinaryGuid::is_empty'):
        rep.saw(f)
        ends = rvals(Mem(P, {}), f, [THIS], {(('this',), i): 0 for i in range(16)})
        judge(rep, 'compare', '%s: all bytes 0' % f.q, f, ends, says(1), 'an empty GUID')
        for i in range(16):
            for v in (1, 0x10, 0x80, 0xff):
                m = {(('this',), k): 0 for k in range(16)}
                m[(('this',), i)] = v
                ends = rvals(Mem(P, {}), f, [THIS], m)
                judge(rep, 'compare', '%s: byte %d is %d' % (f.q, i, v), f, ends, says(0), 'a GUID that is not empty')


def binaries(P, rep):
    n = 0
    for cls in ('BinaryFieldType',):
        for f, xml, rest in presenters(P, cls):
            rep.saw(f)
            for ln, show, ignore in ((3, 0, 0), (3, 1, 1), (16, 0, 0), (17, 1, 0), (1, 0, 0)):
                for nm, R in kinds_of_bytes(ln):
                    M = Mem(P, R)
                    m = cells(ln)
                    m.update(type_field(P, cls, 'tf_binary', ln, 0, {'showGUIDasMS': 0, 'showGUID': show}))
                    a = [RES, THIS, REC, None, ignore] if xml else [RES, THIS, REC, 0, 0, ignore, 0]
                    ends = rvals(M, f, a, m)
                    judge(rep, 'hex', '%s of %d bytes%s, %s' % (f.q, ln, ', GUIDs shown' if show else '', nm), f, ends, shown(hexed(R, range(ln))), 'the value is shown wrong')
                    n += 1
                bad = over(M, ln)
                ob(rep, 'bounds', '%s of %d bytes%s' % (f.q, ln, ', GUIDs shown' if show else ''), not bad, floc(f), 'bytes behind the value are read: %s' % bad)
    for f, xml, rest in presenters(P, 'BinaryFieldType'):
        for ln, k in ((5, 0), (5, 3), (5, 5), (5, 7), (16, 16), (40, 1)):
            n_ = min(k, ln)
            for nm, R in kinds_of_bytes(n_ + 1):
                M = Mem(P, R)
                m = {(('rec',), i + 2): v for (_, i), v in cells(n_ + 1).items() if i < ln}
                m[(('rec',), 0)], m[(('rec',), 1)] = k, 0        # the length in front of the value
                m.update(type_field(P, 'BinaryFieldType', 'tf_varbinary', ln, 0, {'showGUIDasMS': 0, 'showGUID': 0}))
                a = [RES, THIS, REC, None, 0] if xml else [RES, THIS, REC, 0, 0, 0, 0]
                ends = rvals(M, f, a, m)
                judge(rep, 'hex', '%s of variable length, %d of %d bytes, %s' % (f.q, k, ln, nm), f, ends, shown(hexed(R, range(n_))), 'the value is shown wrong')
            bad = [o for o in over(M, n_ + 2)]
            ob(rep, 'bounds', '%s of variable length, %d of %d bytes' % (f.q, k, ln), not bad, floc(f), 'bytes behind the value are read: %s' % bad)
    for f in P.fns('hexstring'):
        rep.saw(f)
        if f.nargs == 3:
            for ln in (0, 1, 5):
                for nm, R in kinds_of_bytes(ln):
                    ends = rvals(Mem(P, R), f, [RES, REC, ln], cells(ln))
                    judge(rep, 'hex', '%s of %d bytes, %s' % (f.q, ln, nm), f, ends, shown(hexed(R, range(ln))), 'the bytes are shown wrong')
        else:
            for ln in (0, 1, 5):
                for nm, R in kinds_of_bytes(ln):
                    def extra(M, fn, x, q, av, m, ln=ln):
                        if any(t.endswith('::Read') for t in (P.target_qs(x) or ())) and len(av) == 3:
                            k = m.get((('pos',), 0), 0)
                            if isinstance(av[2], int):
                                c = min(ln - k, av[2])
                                for i in range(c):
                                    M.store(m, M.move(av[1], i), byte('%dh' % (k + i), '%dl' % (k + i)))
                                m[(('pos',), 0)] = k + c
                                return (c,)
                        if any(t.endswith(('::GetSize', '::GetPosition')) for t in (P.target_qs(x) or ())):
                            return (ln if q.endswith('Size') else m.get((('pos',), 0), 0),)
                        return None
                    ends = rvals(Mem(P, R, extra), f, [RES, ('p', ('stream',), 0)], {})
                    judge(rep, 'hex', '%s of a stream of %d bytes, %s' % (f.q, ln, nm), f, ends, shown(hexed(R, range(ln))), 'the bytes are shown wrong')
    for f in P.fns('from_hex_digit'):
        rep.saw(f)
        for c in range(128):
            h = '0123456789abcdef'.find(chr(c).lower())
            if h < 0:
                continue
            ends = rvals(Mem(P, {}), f, [c], {})
            judge(rep, 'hex', '%s of %s' % (f.q, chr(c)), f, ends, lambda v, m: None if v == h else 'its value is %s' % v, 'a digit')


def patterns(n):
    """which of n digits are zero: all patterns, or a selection"""
    if n <= 5:
        return list(product((0, 1), repeat=n))
    out = [tuple(1 for _ in range(n)), tuple(0 for _ in range(n))]
    for i in range(n):
        out.append(tuple(int(k != i) for k in range(n)))
        out.append(tuple(int(k == i) for k in range(n)))
        out.append(tuple(int(k >= i) for k in range(n)))
        out.append(tuple(int(k < i) for k in range(n)))
    return sorted(set(out))


def numbers(P, rep):
    fs = presenters(P, 'NumericFieldType')
    if not fs:
        raise Broken('the presentation of numbers (NumericFieldType) is not found')
    for f, xml, rest in fs:
        rep.saw(f)
        for length, prec in ((1, 0), (1, 1), (2, 0), (2, 1), (3, 2), (4, 0), (4, 4), (5, 2), (10, 0), (15, 3), (32, 10)):
            size = (length + 2) // 2
            beyond = set()
            first = None
            for sign in (0, 1):
                for pat in patterns(length):
                    R, ds = {}, []
                    for i, nz in enumerate(pat):
                        s = 'd%d' % (i + 1)
                        R[s] = NZ
                        ds.append(s if nz else 0)
                    R['after'] = LOW
                    nib = [sign] + ds
                    if len(nib) % 2:
                        nib.append('after')      # the unused half of the last byte
                    m = type_field(P, 'NumericFieldType', 'tf_numeric', length, prec)
                    for i in range(0, len(nib), 2):
                        m[(('rec',), i // 2)] = byte(nib[i], nib[i + 1])
                    whole, frac = ds[:length - prec], ds[length - prec:]
                    while whole and whole[0] == 0:
                        whole = whole[1:]
                    while frac and frac[-1] == 0:
                        frac = frac[:-1]
                    t = [d(s, 48) if s else 48 for s in whole] or [48]
                    if frac:
                        t += [46] + [d(s, 48) if s else 48 for s in frac]
                    want = [tuple(t)] if sign else [tuple([45] + t)]
                    if not sign and not any(pat):
                        want.append(tuple(t))
                    a = [RES, THIS, REC, None, 0] if xml else [RES, THIS, REC, 0, 0, 0, 0]
                    M = Mem(P, R)
                    ends = rvals(M, f, a, m)
                    bad = None
                    if ends is None:
                        bad = 'it does not come to an end'
                    for k, v, mm in ends or ():
                        c = dict(mm).get((OUT, 0))
                        c = c[1] if isinstance(c, tuple) and c[0] == 'str' else None
                        if k != 'ret' or c not in want:
                            bad = 'the text is %s instead of %s' % (show_text(c), show_text(want[0])) if k == 'ret' else 'it ends with an error'
                    if bad and first is None:
                        first = '%s number, digits %s: %s' % ('positive' if sign else 'negative', ' '.join(str(s) for s in ds), bad)
                    beyond |= set(over(M, size))
            ob(rep, 'number', '%s: %d digits, %d of them behind the point' % (f.q, length, prec), first is None, floc(f), first or '')
            ob(rep, 'bounds', '%s: %d digits, %d of them behind the point' % (f.q, length, prec), not beyond, floc(f), 'bytes behind the number are read: %s' % sorted(beyond))


def dates(P, rep):
    Y, MO, D, H, MI, S = (0, 1, 2, 3), (4, 5), (6, 7), (8, 9), (10, 11), (12, 13)
    human = (D, '.', MO, '.', Y, ' ', H, ':', MI, ':', S)
    xmlf = (Y, '-', MO, '-', D, 'T', H, ':', MI, ':', S)
    flat = (Y, MO, D, H, MI, S)
    todo = []
    for f, xml, rest in presenters(P, 'DatetimeFieldType'):
        todo.append((f, [RES, THIS, REC, None, 0] if xml else [RES, THIS, REC, 0, 0, 0, 0], xmlf if xml else human))
    if not todo:
        raise Broken('the presentation of dates (DatetimeFieldType) is not found')
    for q, form in (('date_to_string', human), ('date_to_string1C', flat)):
        for f in P.fns(q):
            todo.append((f, [RES, REC], form))
    pats = patterns(14)
    for t in ((0, 0, 0, 1, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0), (1, 1, 1, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1), (1, 0, 0, 1, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0)):
        pats.append(t)

    def setup(pat):
        R, ds = {}, []
        for i, nz in enumerate(pat):
            s = 'd%d' % i
            R[s] = NZ
            ds.append(s if nz else 0)
        m = type_field(P, 'DatetimeFieldType', 'tf_datetime', 0, 0)
        for i in range(7):
            m[(('rec',), i)] = byte(ds[2 * i], ds[2 * i + 1])
        return R, ds, m
    for f, a, form in todo:
        rep.saw(f)
        beyond = set()
        for pat in pats:
            R, ds, m = setup(pat)
            t = []
            for p in form:
                if isinstance(p, str):
                    t.append(ord(p))
                else:
                    t += [d(ds[i], 48) if ds[i] else 48 for i in p]
            M = Mem(P, R)
            ends = rvals(M, f, a, m)
            judge(rep, 'date', '%s: zero digits %s' % (f.q, ','.join(str(i) for i, z in enumerate(pat) if not z) or 'none'), f, ends, shown(tuple(t)), 'the date is shown wrong')
            beyond |= set(over(M, 7))
        ob(rep, 'bounds', f.q, not beyond, floc(f), 'bytes behind the date are read: %s' % sorted(beyond))
    # the times of files: the parts handed to the conversion of the system
    r = P.records.get('System::_SYSTEMTIME') or P.records.get('_SYSTEMTIME')
    for f in P.fns('time1CD_to_FileTime'):
        rep.saw(f)
        if not r:
            raise Broken('the record of a time of the system is not found')
        off = {x['n']: x['o'] for x in r['f']}
        seen = []

        def extra(M, fn, x, q, av, m):
            if q.endswith('SystemTimeToFileTime'):
                seen.append({n: M.aslin(m.get((av[0][1], av[0][2] + o))) if isinstance(av[0], tuple) and av[0][0] == 'p' else None for n, o in off.items()})
                return (None,)
            if 'FileTime' in q and fn is f:
                return (None,)
            return None
        beyond = set()
        for pat in pats[:12]:
            R, ds, m = setup(pat)
            del seen[:]
            M = Mem(P, R, extra)
            rvals(M, f, [RES, REC], m)
            bad = None if seen else 'no time is handed on'
            for st in seen:
                for n, p in (('wYear', Y), ('wMonth', MO), ('wDay', D), ('wHour', H), ('wMinute', MI), ('wSecond', S)):
                    t = {}
                    for k, i in enumerate(reversed(p)):
                        if ds[i]:
                            t[ds[i]] = 10 ** k
                    w = ('lin', tuple(sorted(t.items())), 0) if t else 0
                    if st.get(n) != w:
                        bad = '%s is not made of its digits' % n
            ob(rep, 'date', '%s: zero digits %s' % (f.q, ','.join(str(i) for i, z in enumerate(pat) if not z) or 'none'), bad is None, floc(f), bad or '')
            beyond |= set(over(M, 7))
        ob(rep, 'bounds', f.q, not beyond, floc(f), 'bytes behind the date are read: %s' % sorted(beyond))
