"""P17 container files: what is written into a container is what is read from it."""
from sa.lib import *
from sa.absint import AI, stdcalls, sgn
from sa.terms import simple
from sa.report import Broken

ASSUMPTIONS = [
    'streams behave as documented (reading, writing and seeking in a file or in memory: System.Classes)',
    'the block structure is decided for containers with up to three chains and two free blocks and for every length at the limits of their blocks',
    'a container that is damaged may be read in part',
]
LAST = 0x7fffffff
HEAD = 31           # length of the header of a block: CR LF, 8 digits, space, 8 digits, space, 8 digits, space, CR LF
DIR = 16            # the directory begins right behind the header of the container
PAGE = 512
T0 = ('arg', 0)


def fld(c, n, b=T0):
    return ('fld', b, c, n)


DATA = ('S', 'data')
SRC = ('S', 'src')
FREEHEAD = fld('stFileHeader', 'next_page_addr', fld('V8Catalog', 'file_header'))


class Sim(AI):
    """the functions of a container on an abstract file: blocks with their headers, and which piece of the source lies where"""

    def __init__(self, P, limit=6000):
        AI.__init__(self, P, call=self.hook, limit=limit)
        self.lost = None
        self.depth = 0

    def step(self, fn, x, env, m, depth):
        if x.op == 'alloca':
            env[x.id] = ('L', fn.q, self.depth, x.id)
            return None
        return AI.step(self, fn, x, env, m, depth)

    def stream(self, v):
        return v if isinstance(v, tuple) and v and v[0] in ('S', 'L') else None

    def hdr(self, v):
        return ('hdr', v)

    def hook(self, ai, fn, x, argv, m, env):
        P = self.P
        q = simple(P.callee_name(x) or '')
        qs = P.target_qs(x) or {q}
        last = sorted(qs)[0].split('::')[-1]
        s = self.stream(argv[0]) if argv else None
        if q in ('operator new', 'operator new[]'):
            return (('S', fn.q, self.depth, x.id),)
        if q.startswith('operator delete') or last in ('Acquire', 'Release'):
            return (None,)
        if last == 'TMemoryStream' and s:
            m[('len', s)] = 0
            m[('pos', s)] = 0
            return (None,)
        if q.startswith('__sa_m'):
            if all(isinstance(a, int) for a in argv):
                w = width_of(q)
                a, b = (sgn(v, w) if '_s' in q else v for v in argv)
                return ((min(a, b) if 'min' in q else max(a, b)) & ((1 << w) - 1),)
            return (None,)
        if 'TStream::' in sorted(qs)[0] or any('Stream::' in t for t in qs):
            if s is None:
                if last in ('GetSize', 'Seek', 'Read', 'ReadBuffer', 'Write', 'WriteBuffer', 'CopyFrom', 'SetSize'):
                    self.lose(x, 'a stream that cannot be followed')
                    return (None,)
                return None
            return self.streamcall(fn, x, last, s, argv, m)
        if q.startswith('stBlockHeader::'):
            if last == 'size':
                return (HEAD,)
            h = self.hdr(argv[0])
            if last == 'stBlockHeader':
                m[h] = (0, 0, 0)
                return (None,)
            if last == 'create':
                m[h] = tuple(argv[1:4])
                return (None,)
            part = {'data_size': 0, 'page_size': 1, 'next_page_addr': 2}.get(last[4:])
            if part is None:
                return None
            cur = m.get(h)
            if last.startswith('get'):
                return (cur[part] if cur else None,)
            cur = list(cur or (None, None, None))
            cur[part] = argv[1]
            m[h] = tuple(cur)
            return (None,)
        if q == 'stFileHeader::size':
            return (16,)
        if q.startswith('llvm.mem'):
            if 'memcpy' in q and self.hdr(argv[1]) in m:
                m[self.hdr(argv[0])] = m[self.hdr(argv[1])]
            return (None,)
        g = P.functions.get(x.callee)
        if g is not None and g.q in ('V8Catalog::write_block', 'V8Catalog::free_block', 'V8Catalog::get_nextblock', 'read_block', 'stBlockHeader::size') and self.depth < 3:
            self.depth += 1
            outs = self.run(g, dict(enumerate(argv)), {k: v for k, v in m.items() if k[0] != 'alloca'})
            self.depth -= 1
            alts = []
            for kind, v, mm in outs:
                if kind == 'ret':
                    mm = dict(mm)
                    ch = {k: None for k in m if k not in mm and k[0] != 'alloca'}
                    ch.update(mm)
                    alts.append(('alt', v, ch))
            return alts if alts else 'dead'
        return stdcalls(ai, fn, x, argv, m, env)

    def lose(self, x, why):
        self.lost = self.lost or (x, why)

    def streamcall(self, fn, x, last, s, argv, m):
        pos, size = m.get(('pos', s)), m.get(('len', s))
        if last == 'GetSize':
            return (size,)
        if last == 'Seek':
            w = argv[2]
            o = sgn(argv[1], 64) if isinstance(argv[1], int) else None
            if o is None or w is None:
                self.lose(x, 'a position that is not determined')
                m.pop(('pos', s), None)
                return (None,)
            p = o if w == 0 else (pos or 0) + o if w == 1 else (size or 0) + o
            m[('pos', s)] = p
            return (p & (1 << 64) - 1,)
        if last == 'SetSize':
            m[('len', s)] = argv[1]
            m[('pos', s)] = min(pos or 0, argv[1] or 0)
            return (None,)
        if not isinstance(pos, int) or not isinstance(size, int) or len(argv) > 2 and not isinstance(argv[2], int):
            self.lose(x, 'a position or a length that is not determined')
            return (None,)
        if last in ('Read', 'ReadBuffer'):
            n = argv[2]
            if n == HEAD:
                m[self.hdr(argv[1])] = m.get(('blk', s, pos)) or (None, None, None)
                if ('blk', s, pos) not in m:
                    self.log(m, ('nohead', pos))
            else:
                self.log(m, ('read', s, pos, n))
            m[('pos', s)] = pos + n
            return (n,)
        if last in ('Write', 'WriteBuffer'):
            n = argv[2]
            h = m.get(self.hdr(argv[1]))
            if h is not None and n == HEAD:
                m[('blk', s, pos)] = h
            else:
                self.log(m, ('fill', s, pos, n))
            m[('pos', s)] = pos + n
            m[('len', s)] = max(size, pos + n)
            return (n,)
        if last == 'CopyFrom':
            o, n = self.stream(argv[1]), argv[2]
            if o is None or n is None:
                self.lose(x, 'a copy that cannot be followed')
                return (None,)
            n = sgn(n, 64)
            op = m.get(('pos', o))
            if n == 0:
                op, n = 0, m.get(('len', o))
            n = min(n, m.get(('len', o)) - op)
            if n > 0:
                self.log(m, ('copy', s, pos, o, op, n))
            m[('pos', o)] = op + n
            m[('pos', s)] = pos + n
            m[('len', s)] = max(size, pos + n)
            return (n,)
        return (None,)

    def log(self, m, e):
        m['log'] = m.get('log', ()) + (e,)


def width_of(q):
    n = ''.join(c for c in q.split('_')[-1] if c.isdigit())
    return int(n or 64)


class File:
    """a container built for an experiment"""

    def __init__(self, empty=False):
        self.m = {('len', DATA): 16, ('pos', DATA): 0, FREEHEAD: LAST,
                  fld('stFileHeader', 'page_size', fld('V8Catalog', 'file_header')): PAGE,
                  fld('V8Catalog', 'data'): DATA, fld('V8Catalog', 'is_emptymodified'): 0, fld('V8Catalog', 'is_modified'): 0}
        self.chains = {}
        if not empty:
            self.add('dir', [PAGE], 24)

    def block(self, page):
        a = self.m[('len', DATA)]
        self.m[('len', DATA)] = a + HEAD + page
        return a

    def link(self, blocks, datas):
        for i, (a, p) in enumerate(blocks):
            self.m[('blk', DATA, a)] = (datas[i], p, blocks[i + 1][0] if i + 1 < len(blocks) else LAST)

    def add(self, name, pages, n):
        bs = [(self.block(p), p) for p in pages]
        self.link(bs, [n] + [0] * (len(bs) - 1))
        self.chains[name] = bs
        return bs[0][0]

    def interleave(self, *specs):
        """chains whose blocks alternate: [(name, pages, length)]"""
        todo = {n: list(p) for n, p, _ in specs}
        got = {n: [] for n, _, _ in specs}
        while any(todo.values()):
            for n, _, _ in specs:
                if todo[n]:
                    p = todo[n].pop(0)
                    got[n].append((self.block(p), p))
        for n, _, k in specs:
            free = n == 'free'
            self.link(got[n], [LAST] * 9 if free else [k] + [0] * 9)
            if free:
                self.m[FREEHEAD] = got[n][0][0] if got[n] else LAST
            else:
                self.chains[n] = got[n]
        self.free = got.get('free', [])


def chain(m, a):
    out = []
    while a != LAST:
        h = m.get(('blk', DATA, a))
        if h is None or None in h or len(out) > 40 or any(a == b for b, _ in out):
            return None
        out.append((a, h))
        a = h[2]
    return out


def judge(before, m, r, n, src0, own):
    """the container after the source of n bytes was written -> what is wrong with it"""
    if not isinstance(r, int):
        return 'the place of the first block is not determined'
    c = chain(m, r)
    if c is None or not c:
        return 'the chain of blocks is broken'
    if c[0][1][0] != n:
        return 'the first block does not carry the length'
    # what lies where
    pieces = []
    for e in m.get('log', ()):
        if e[0] == 'copy' and e[1] == DATA:
            if e[3] == SRC:
                pieces.append((e[2], e[4], e[5]))
        if e[0] == 'nohead':
            return 'a header is read where none is'
    got = src0
    left = n
    for a, (d, p, nx) in c:
        k = min(left, p)
        if k and (a + HEAD, got, k) not in pieces:
            return 'the bytes from %d on are not in their block' % (got - src0)
        got += k
        left -= k
    if left:
        return 'the chain is too short for the data'
    # every block belongs to one chain
    use = {a: 'new' for a, _ in c}
    for name, bs in before.chains.items():
        if name == own:
            continue
        got = chain(m, bs[0][0])
        if [a for a, _ in got or []] != [a for a, _ in bs] or any(h[1] != p for (a, h), (_, p) in zip(got, bs)) or got[0][1][0] != before.m[('blk', DATA, bs[0][0])][0]:
            return 'another chain of blocks has been changed'
        for a, _ in bs:
            if a in use:
                return 'a block belongs to two chains'
            use[a] = name
    free = chain(m, m.get(FREEHEAD))
    if free is None:
        return 'the list of free blocks is broken'
    for a, _ in free:
        if a in use:
            return 'a block that is in use is in the list of free blocks'
        use[a] = 'free'
    pos = 16
    blocks = sorted((k[2], v) for k, v in m.items() if k[0] == 'blk' and k[1] == DATA)
    for a, h in blocks:
        if a not in use and not (a == 16 and own != 'dir' and not before.chains):
            return 'a block belongs to no chain and is lost'
        if a != pos:
            return 'blocks overlap or leave a gap'
        pos = a + HEAD + (h[1] or 0)
    if pos > m[('len', DATA)] and pos - m[('len', DATA)] > 0:
        return 'the last block is not whole'
    inside = [(a, h[1]) for a, h in blocks]
    for e in m.get('log', ()):
        if e[0] in ('copy', 'fill') and e[1] == DATA:
            p, k = (e[2], e[5]) if e[0] == 'copy' else (e[2], e[3])
            home = [a for a, pg in inside if a + HEAD <= p and p + k <= a + HEAD + pg]
            if not home:
                return 'data is written over the header of a block'
            if use.get(home[0]) not in ('new',) and not (home[0] == 16 and not before.chains):
                return 'data is written into a block of another chain'
    if m.get(fld('V8Catalog', 'is_modified')) != 1:
        return 'the container does not know that it was modified'
    if m.get(FREEHEAD) != before.m[FREEHEAD] and m.get(fld('V8Catalog', 'is_emptymodified')) != 1:
        return 'the new list of free blocks is not recorded'
    return None


def one(P, f, args, mem, what):
    s = Sim(P)
    outs = s.run(f, args, mem)
    rets = [(v, dict(mm)) for k, v, mm in outs if k == 'ret']
    return rets, s.lost


def experiments():
    """(name, container, start, lengths, own chain)"""
    def boundaries(pages):
        out, t = {0, 1, 2}, 0
        for p in pages:
            t += p
            out |= {t - 1, t, t + 1}
        return sorted(n for n in out | {t + 700} if n >= 0)
    for free in ([], [40], [10, 30], [0], [25, 0]):
        for old in (None, [20], [20, 30], [5, 15, 25], [0], [0, 12]):
            f = File()
            specs = [('other', [33, 44], 70), ('free', free, 0)]
            if old:
                specs.append(('own', old, max(sum(old) - 1, 0)))
            f.interleave(*specs)
            f.add('third', [12], 12)
            start = f.chains['own'][0][0] if old else 0
            for n in boundaries((old or []) + free):
                yield 'old blocks %s, free blocks %s, %d bytes' % (old or 'none', free or 'none', n), f, start, n, 'own'


def run(P, rep):
    rep.rule('write', 'data written lies in a chain of blocks of its own, whole and in order', 60)
    rep.rule('free', 'blocks that are released go to the list of free blocks, all and once', 3)
    rep.rule('read', 'the data of a chain of blocks is read whole, in order and without anything else', 20)
    rep.rule('kept', 'what is written into a file of a container reaches the container with its name and times', 40)
    rep.rule('directory', 'the directory lists the files of the container, each with its places', 20)
    rep.rule('pack', 'data is packed and unpacked as the kind of the container says', 5)
    rep.rule('header', 'the header of a block is written and read in one form', 12)
    rep.rule('recognised', 'a container is recognised, and nothing else is taken for one', 20)
    wb = rep.need('V8Catalog::write_block')
    fb = rep.need('V8Catalog::free_block')
    for f in (wb, fb):
        rep.saw(f)
    for name, f, start, n, own in experiments():
        for explicit in (False, True):
            m = dict(f.m)
            m[('len', SRC)] = n + (9 if explicit else 0)
            m[('pos', SRC)] = 4 if explicit else 3
            rets, lost = one(P, wb, {0: None, 1: SRC, 2: start, 3: 0, 4: n if explicit else 0xffffffff}, m, name)
            check(rep, 'write', name + (', from the middle of a stream' if explicit else ''), wb, f, rets, lost, n, 4 if explicit else 0, own, start)
    # the directory: whole pages, at its place
    for n in (12, PAGE - 1, PAGE, PAGE + 1, 3 * PAGE):
        f = File()
        f.interleave(('other', [33, 44], 70), ('free', [40], 0))
        m = dict(f.m)
        m[('len', SRC)], m[('pos', SRC)] = n, 0
        rets, lost = one(P, wb, {1: SRC, 2: DIR, 3: 1, 4: 0xffffffff}, m, 'directory')
        check(rep, 'write', 'directory of %d bytes' % n, wb, f, rets, lost, n, 0, 'dir', DIR)
    for n in (0, 12, PAGE + 20):
        f = File(empty=True)
        m = dict(f.m)
        m[('len', SRC)], m[('pos', SRC)] = n, 0
        rets, lost = one(P, wb, {1: SRC, 2: DIR, 3: 1, 4: 0xffffffff}, m, 'directory')
        check(rep, 'write', 'first directory of %d bytes' % n, wb, f, rets, lost, n, 0, 'dir', DIR)
        if n:
            rets, lost = one(P, wb, {1: SRC, 2: 0, 3: 0, 4: 0xffffffff}, m, 'first file')
            check(rep, 'write', 'first file, of %d bytes' % n, wb, f, rets, lost, n, 0, None, 0)
    # releasing
    for pages in ([10], [10, 20], [10, 20, 30]):
        for free in ([], [40], [40, 50]):
            f = File()
            f.interleave(('own', pages, 5), ('other', [33], 7), ('free', free, 0))
            rets, lost = one(P, fb, {1: f.chains['own'][0][0]}, dict(f.m), 'free')
            msg = None
            if lost:
                msg = lost[1]
            for r, m in rets:
                got = chain(m, m.get(FREEHEAD))
                want = {a for a, _ in f.chains['own'] + f.free}
                if got is None:
                    msg = 'the list of free blocks is broken'
                elif sorted(a for a, _ in got) != sorted(want):
                    msg = 'the list of free blocks does not hold what was released'
                elif any(h[1] != f.m[('blk', DATA, a)][1] for a, h in got):
                    msg = 'the size of a block was changed'
                elif m.get(fld('V8Catalog', 'is_emptymodified')) != 1 or m.get(fld('V8Catalog', 'is_modified')) != 1:
                    msg = 'the new list of free blocks is not recorded'
            rep.ob('free', 'chain of %d, %d free' % (len(pages), len(free)), not msg and bool(rets), floc(fb), msg or '')
    for a in (0, LAST):
        f = File()
        rets, lost = one(P, fb, {1: a}, dict(f.m), 'free')
        rep.ob('free', 'nothing to release (%#x)' % a, bool(rets) and all({k: v for k, v in m.items() if k in f.m or k[0] == 'blk'} == f.m for r, m in rets), floc(fb), 'releasing no block changes the container')
    reading(P, rep)
    keeping(P, rep)
    packing(P, rep)
    layout(P, rep)


def reading(P, rep):
    rb = rep.need('read_block')
    rep.saw(rb)
    OUT = ('S', 'out')
    for pages in ([10], [10, 20], [10, 20, 30], [PAGE], [0, 12], [9, 0, 12]):
        t = sum(pages)
        for n in sorted({0, 1, pages[0], pages[0] + 1, t - 1, t}):
            if n > t:
                continue
            f = File()
            f.interleave(('other', [33, 44], 70), ('own', pages, n))
            f.add('third', [12], 12)
            m = dict(f.m)
            m[('len', OUT)] = 7     # what an earlier use left
            m[('pos', OUT)] = 3
            rets, lost = one(P, rb, {0: DATA, 1: f.chains['own'][0][0], 2: OUT}, m, 'read')
            msg = lost[1] if lost else None
            if not rets:
                msg = 'the chain is not read'
            for r, mm in rets:
                want, left = [], n
                at = 0
                for a, p in f.chains['own']:
                    k = min(p, left)
                    if k:
                        want.append(('copy', OUT, at, DATA, a + HEAD, k))
                    at += k
                    left -= k
                got = [e for e in mm.get('log', ()) if e[0] == 'copy']
                if got != want:
                    msg = msg or 'of the chain %s is read' % ([(e[4], e[5]) for e in got],)
                elif mm.get(('len', OUT)) != n or r != OUT:
                    msg = msg or 'what is read has another length'
            rep.ob('read', 'blocks %s, %d bytes' % (pages, n), not msg, floc(rb), msg or '')
    for a in (LAST, 0xffffffff, 100000):
        f = File()
        f.interleave(('other', [33, 44], 70))
        m = dict(f.m)
        m[('len', OUT)] = 7
        m[('pos', OUT)] = 3
        rets, lost = one(P, rb, {0: DATA, 1: a, 2: OUT}, m, 'read')
        rep.ob('read', 'no block (%#x)' % a, bool(rets) and all(mm.get(('len', OUT)) == 0 and not mm.get('log') for r, mm in rets), floc(rb), 'something is read where no block is')


def check(rep, rule, name, fn, f, rets, lost, n, src0, own, start):
    msg = None
    if lost:
        msg = '%s (%s)' % (lost[1], loc(lost[0]))
    elif not rets:
        msg = 'writing does not come to an end'
    for r, m in rets:
        msg = msg or judge(f, m, r, n, src0, own)
        if not msg and start and r != start:
            msg = 'the data is moved to another place than the directory says'
    rep.ob(rule, name, not msg, floc(fn), msg or '')


CAT, SELF, FDATA, NESTED = ('O', 'parent'), ('O', 'catalog'), ('S', 'fdata'), ('O', 'nested')
CFU = ('S', 'cfu')
F1, F2, F3 = ('F', 1), ('F', 2), ('F', 3)


class Keeper(Sim):
    """the files of a container and its directory; what is written to a stream is kept with its values"""
    changed = True      # a block that is written comes to lie at a new place

    def __init__(self, P, limit=6000, same=False):
        Sim.__init__(self, P, limit)
        self.same = same

    def content(self, fn, x, m, n):
        e = fn.e(x.ops[1])
        if e in m:
            return (m[e],)
        got = [(rec_off(self.P, k[2], k[3]), v) for k, v in m.items() if k[0] == 'fld' and k[1] == e and n != 4]
        if got:
            return tuple(v for o, v in sorted(got, key=lambda t: t[0] or 0))
        return (e,)

    def streamcall(self, fn, x, last, s, argv, m):
        if last in ('Write', 'WriteBuffer'):
            n = argv[2]
            pos, size = m.get(('pos', s)), m.get(('len', s))
            if pos is None or not isinstance(n, int):
                self.log(m, ('put', s, pos, n, self.content(fn, x, m, n)))
                if n == ('size', 'name'):
                    n = 10000
                elif not isinstance(n, int):
                    self.lose(x, 'data of a length that is not determined')
                    return (None,)
            else:
                self.log(m, ('put', s, pos, n, self.content(fn, x, m, n)))
            m[('pos', s)] = (pos or 0) + n
            m[('len', s)] = max(size or 0, (pos or 0) + n)
            return (n,)
        return Sim.streamcall(self, fn, x, last, s, argv, m)

    def ev(self, m, *e):
        m['ev'] = m.get('ev', ()) + (e,)

    def hook(self, ai, fn, x, argv, m, env):
        P = self.P
        q = simple(P.callee_name(x) or '')
        qs = P.target_qs(x) or {q}
        last = sorted(qs)[0].split('::')[-1]
        a = argv + [None] * 6
        if any(t.endswith('fromUtf8') for t in qs):
            self.ev(m, 'name', fn.e(x.ops[2]) if len(x.ops) > 2 else None)
            return (None,)
        if q.startswith('std::') and last == 'data':
            return (('bytes', 'name'),)
        if q.startswith('std::') and last == 'size':
            return (('size', 'name'),)
        if last == 'write_to_stream' and 'V8Time' in sorted(qs)[0]:
            s = self.stream(a[1])
            if s:
                self.log(m, ('put', s, m.get(('pos', s)), 8, (fn.e(x.ops[0])[-1],)))
                m[('pos', s)] = m.get(('pos', s), 0) + 8
                m[('len', s)] = m[('pos', s)]
            return (None,)
        if q == 'V8Catalog::write_datablock':
            self.ev(m, 'data', a[0], a[1], a[2], a[3], a[4])
            return (a[2] if self.same else 777,)
        if q == 'V8Catalog::write_block':
            s = self.stream(a[1])
            self.ev(m, 'block', a[0], tuple(e[2:] for e in m.get('log', ()) if e[0] == 'put' and e[1] == s), a[2], a[3], a[4])
            if a[0] == SELF:
                m[fld('V8Catalog', 'is_modified')] = 1
                m[fld('V8Catalog', 'is_emptymodified')] = 1
                m[FREEHEAD] = 4242
            return (a[2] if self.same else 888,)
        if q == 'V8Catalog::free_block':
            self.ev(m, 'free', a[1])
            return (None,)
        if q == 'V8Catalog::fatmodified':
            self.ev(m, 'fat', a[1])
            return (None,)
        if q == 'V8Catalog::data_empty':
            return (m.get('empty', 0),)
        if q == 'V8Catalog::is_destructed':
            return (0,)
        if q in ('V8Catalog::~V8Catalog', 'V8Catalog::Flush') and a[0] == NESTED:
            self.ev(m, 'nested')
            m[fld('V8File', '_datamodified')] = 1
            return (None,)
        if q in ('V8File::close', 'V8File::flush') and isinstance(a[0], tuple) and a[0][0] == 'F':
            self.ev(m, q.split('::')[1], a[0])
            if a[0] != F3:      # closing a file writes it into the container
                m[('closed', a[0])] = 1
                m[fld('V8Catalog', 'is_modified')] = 1
                m[fld('V8Catalog', 'is_emptymodified')] = 1
                m[FREEHEAD] = 4141
            return (None,)
        if q in ('V8File::get_start_header', 'V8File::get_start_data') and isinstance(a[0], tuple) and a[0][0] == 'F':
            return ((1000 if q.endswith('header') else 2000) + a[0][1] + (0 if m.get(('closed', a[0])) else 500),)
        if q == 'V8File::get_next' and isinstance(a[0], tuple) and a[0][0] == 'F':
            return (m.get(('next', a[0]), 0),)
        if q == 'V8File::~V8File':
            m[fld('V8Catalog', 'first')] = m.get(('next', a[0]), 0)
            return (None,)
        if q == 'V8File::set_data_modified':
            self.ev(m, 'modified', a[0], a[1])
            return (None,)
        if q == 'V8File::get_destructed':
            return (m.get('destructed', 0),)
        if q == 'V8File::open':
            yes = {fld('V8File', 'is_opened'): 1}
            return [('alt', 1, yes), ('alt', 0, {'failed': 1})]
        if q == 'V8File::try_open':
            if m.get(fld('V8File', 'is_opened')) == 1:
                return (1,)
            return [('alt', 1, {fld('V8File', 'is_opened'): 1}), ('alt', 0, {'failed': 1})]
        if q == 'V8Catalog::get_file':
            return [0, F1]
        if q == 'V8Catalog::read_datablock':
            self.ev(m, 'fetch', a[0], a[1])
            return (FDATA,)
        if q == 'V8File::V8File':
            k = m.get('made', 0)
            m['made'] = k + 1
            self.ev(m, 'made', argv[0], a[1], a[3], a[4], a[5])
            return (None,)
        if q == 'read_block':
            if a[1] == 16:
                m[('pos', ('S', 'fat'))] = 0
                return (('S', 'fat'),)
            return (a[2] if self.stream(a[2]) else ('S', 'head'),)
        if last in ('ZDeflateStream', 'ZInflateStream'):
            s, t = self.stream(a[0]), self.stream(a[1])
            log = m.get('log', ())
            self.ev(m, last, s, m.get(('pos', s)), m.get(('len', s)), tuple(e[2:] for e in log if e[0] == 'copy' and e[1] == s), t, m.get(('pos', t)))
            return (None,)
        if q in ('operator new', 'operator new[]') and fn.q == 'V8Catalog::createFile':
            return (F3,)
        if q.startswith('std::unique_ptr'):
            if last in ('get', 'operator->', 'operator*'):
                return (m.get(('p', argv[0])),)
            if last == 'unique_ptr':
                m[('p', argv[0])] = argv[1]
                return (None,)
        if 'exists' in last:
            return None
        return Sim.hook(self, ai, fn, x, argv, m, env)

    def step(self, fn, x, env, m, depth):
        if x.op in ('load', 'call') and 'name' not in m:
            pass
        return Sim.step(self, fn, x, env, m, depth)


def outs_of(P, f, args, mem, same=False):
    s = Keeper(P, same=same)
    s.exc = False
    outs = s.run(f, args, mem)
    return [(v, dict(mm)) for k, v, mm in outs if k == 'ret'], s.lost


def is_name(P, e):
    return e == fld('V8File', 'name')


def head_ok(P, put, names):
    """what was written as the header of a file"""
    want = [(0, 8), (8, 8), (16, 4), (20, ('size', 'name')), (10020, 4)]
    if len(put) != 5 or [(p[0], p[1]) for p in put] != want:
        return 'the header of a file is laid out as %s' % ([(p[0], p[1]) for p in put],)
    if put[0][2] != ('_time_create',) or put[1][2] != ('_time_modify',):
        return 'the times of a file are not written in their places'
    if put[2][2] != (0,) or put[4][2] != (0,):
        return 'the header of a file does not hold the zeros around its name'
    if not names or names[-1] != fld('V8File', 'name'):
        return 'the name in the header is not that of the file'
    return None


def keeping(P, rep):
    V = 'V8File'
    # closing and flushing a file
    for q in ('V8File::close', 'V8File::flush'):
        f = rep.need(q)
        rep.saw(f)
        for dm in (0, 1):
            for hm in (0, 1):
                for nested in (0, NESTED):
                    for same in (False, True):
                        m = {fld(V, 'parent'): CAT, fld(V, 'is_opened'): 1, fld(V, 'data'): FDATA, fld(V, '_datamodified'): dm, fld(V, 'is_headermodified'): hm,
                             fld(V, 'self'): nested, fld(V, 'start_data'): 11, fld(V, 'start_header'): 22, fld(V, 'flushed'): 0, fld(V, '_selfzipped'): 0,
                             ('pos', FDATA): 5, ('len', FDATA): 9}
                        rets, lost = outs_of(P, f, {}, m, same)
                        msg = lost[1] if lost else None if rets else 'the file is not closed'
                        for _, mm in rets:
                            msg = msg or kept(P, mm, dm or bool(nested), hm, same, q)
                            if not msg and nested and mm['ev'][0] != ('nested',):
                                msg = 'the container inside of the file is not written first'
                        rep.ob('kept', '%s, data %s, header %s%s%s' % (q, 'changed' if dm else 'unchanged', 'changed' if hm else 'unchanged', ', with a container inside' if nested else '', ', place kept' if same else ''), not msg, floc(f), msg or '')
    f = rep.need('V8File::write_and_close')
    rep.saw(f)
    for n in (-1, 6):
        for same in (False, True):
            m = {fld(V, 'parent'): CAT, fld(V, 'is_opened'): 1, fld(V, 'data'): FDATA, fld(V, '_datamodified'): 1, fld(V, 'is_headermodified'): 0, fld(V, 'self'): 0,
                 fld(V, 'start_data'): 11, fld(V, 'start_header'): 22, fld(V, '_selfzipped'): 0, ('pos', SRC): 3, ('len', SRC): 9, ('pos', FDATA): 5, ('len', FDATA): 9}
            rets, lost = outs_of(P, f, {1: SRC, 2: n & 0xffffffff}, m, same)
            msg = lost[1] if lost else None if rets else 'the file is not written'
            for _, mm in rets:
                msg = msg or kept(P, mm, True, True, same, f.q, SRC, n)
            rep.ob('kept', 'V8File::write_and_close, %s%s' % ('a whole stream' if n < 0 else 'a part of a stream', ', place kept' if same else ''), not msg, floc(f), msg or '')
    # opening
    f = rep.need('V8File::open')
    rep.saw(f)
    rets, lost = outs_of(P, f, {}, {fld(V, 'parent'): CAT, fld(V, 'is_opened'): 0, fld(V, 'start_data'): 11})
    ok = bool(rets) and all(mm.get('ev') == (('fetch', CAT, 11),) and mm.get(fld(V, 'data')) == FDATA and mm.get(fld(V, 'is_opened')) == 1 for r, mm in rets)
    rep.ob('kept', 'V8File::open', ok, floc(f), 'opening a file does not fetch the data its place in the container holds')
    rets, lost = outs_of(P, f, {}, {fld(V, 'parent'): CAT, fld(V, 'is_opened'): 1, fld(V, 'start_data'): 11, fld(V, 'data'): FDATA})
    ok = bool(rets) and all(not mm.get('ev') and mm.get(fld(V, 'data')) == FDATA for r, mm in rets)
    rep.ob('kept', 'V8File::open, already open', ok, floc(f), 'opening a file twice loses what was written into it')
    # writing into a file
    for f in P.fns('V8File::write'):
        rep.saw(f)
        ts = [t for _, t, *_ in f.args]
        n = len(f.args)
        stream = 'TStream' in f.d
        part = n == 4
        for old, new, at in ((9, 5, 0), (9, 9, 0), (9, 12, 0), (0, 5, 0), (9, 4, 3), (9, 20, 3)):
            if not part and at:
                continue
            for opened_ in (0, 1):
                m = {fld(V, 'is_opened'): opened_, fld(V, 'data'): FDATA, fld(V, '_datamodified'): 0, fld(V, 'is_headermodified'): 0, ('len', FDATA): old, ('pos', FDATA): 4,
                     ('len', SRC): new, ('pos', SRC): 0, fld(V, 'parent'): CAT}
                src = SRC if stream else ('buf', 1)
                args = {1: src, 2: at, 3: new} if part else {1: src, 2: new} if n == 3 else {1: src}
                if part and stream and new == 0:
                    continue
                rets, lost = outs_of(P, f, args, m)
                msg = lost[1] if lost else None
                good = 0
                for _, mm in rets:
                    if mm.get('failed'):
                        continue
                    good += 1
                    log = [e for e in mm.get('log', ()) if e[0] in ('put', 'copy')]
                    want = ('copy', FDATA, at, SRC, 0, new) if stream else ('put', FDATA, at, new)
                    size = max(old, at + new) if part else new
                    if len(log) != 1 or log[0][:len(want)] != want:
                        msg = msg or 'the data is not written at its place in the file'
                    elif mm.get(('len', FDATA)) != size:
                        msg = msg or 'the file is %s bytes long after %d bytes are written at %d over %d' % (mm.get(('len', FDATA)), new, at, old)
                    elif mm.get(fld(V, '_datamodified')) != 1:
                        msg = msg or 'the file does not know that its data was changed'
                    elif mm.get(fld(V, 'is_headermodified')) != 1:
                        msg = msg or 'the file does not know that its header was changed'
                rep.ob('kept', '%s, %d bytes at %d over %d%s' % (f.d, new, at, old, '' if opened_ else ', not open yet'), not msg and good > 0, floc(f), msg or 'nothing is written')
    # the directory
    for q in ('V8Catalog::~V8Catalog', 'V8Catalog::Flush'):
        f = rep.need(q)
        rep.saw(f)
        for k in (0, 1, 2):
            for fat in (0, 1):
                for outer, cfu in ((0, 0), (('O', 'file'), 0), (0, 1)):
                    files = [F1, F2][:k]
                    m = {fld('V8Catalog', 'first'): files[0] if files else 0, fld('V8Catalog', 'data'): DATA, fld('V8Catalog', '_fatmodified'): fat, fld('V8Catalog', 'is_emptymodified'): 0,
                         fld('V8Catalog', 'is_modified'): 0, fld('V8Catalog', 'file'): outer, fld('V8Catalog', 'is_cfu'): cfu, fld('V8Catalog', 'cfu'): CFU, ('pos', CFU): 30, ('len', CFU): 40, fld('V8Catalog', 'flushed'): 0, fld('V8Catalog', 'leave_data'): 0,
                         ('pos', DATA): 77, ('len', DATA): 5000, FREEHEAD: LAST, fld('stFileHeader', 'storage_ver', fld('V8Catalog', 'file_header')): 5}
                    if k == 2:
                        m[('next', F1)] = F2
                    rets, lost = outs_of(P, f, {0: SELF}, m)
                    msg = lost[1] if lost else None if rets else 'the container is not written'
                    for _, mm in rets:
                        msg = msg or directory(mm, files, fat, outer, q, cfu)
                    rep.ob('directory', '%s, %d files, %s%s' % (q, k, 'files were added' if fat else 'no file was added', ', inside of a file' if outer else ', packed as a whole' if cfu else ''), not msg, floc(f), msg or '')
    # a new file
    f = rep.need('V8Catalog::createFile')
    rep.saw(f)
    rets, lost = outs_of(P, f, {0: SELF, 2: 0}, {fld('V8Catalog', 'last'): F2, fld('V8Catalog', '_fatmodified'): 0})
    new = [(r, mm) for r, mm in rets if mm.get('made')]
    ok = len(new) > 0 and all(r == F3 and mm.get(fld('V8Catalog', '_fatmodified')) == 1 and mm.get(fld('V8Catalog', 'last')) == F3 and ('made', F3, SELF, F2, 0, 0) in mm['ev'] for r, mm in new)
    rep.ob('directory', 'V8Catalog::createFile, a new file', ok, floc(f), 'a new file is not put at the end of the files of the container')
    old = [(r, mm) for r, mm in rets if not mm.get('made')]
    rep.ob('directory', 'V8Catalog::createFile, a file that is there', bool(old) and all(r == F1 for r, mm in old), floc(f), 'the file that is there already is not returned')
    # a file is found by the name under which it was put
    forms = {}
    for q, ops in (('V8File::V8File', ('operator[]', 'insert', 'emplace')), ('V8Catalog::get_file', ('find', 'at', 'count', 'operator[]')), ('V8File::delete_file', ('erase',))):
        f = rep.need(q)
        rep.saw(f)
        low = {f.e(x.ops[0]) for x in f.calls() if simple(P.callee_name(x) or '').split('::')[-1] == 'LowerCase'}
        for x in f.calls():
            n = simple(P.callee_name(x) or '')
            if n.startswith('std::map::') and n.split('::')[-1] in ops and len(x.ops) > 1:
                forms.setdefault(f.e(x.ops[1]) in low, []).append(x)
    rep.ob('directory', 'a file is found by its name', len(forms) == 1, loc(min(forms.values(), key=len)[0]) if forms else floc(f), 'a name is lowered in one place and not in another')
    # removing a file
    f = rep.need('V8File::delete_file')
    rep.saw(f)
    for pv, nx in ((0, 0), (F1, 0), (0, F2), (F1, F2)):
        rets, lost = outs_of(P, f, {}, {fld(V, 'parent'): CAT, fld(V, 'previous'): pv, fld(V, 'next'): nx, fld(V, 'start_data'): 11, fld(V, 'start_header'): 22, fld(V, 'self'): 0,
                                        fld(V, 'data'): 0})
        msg = lost[1] if lost else None if rets else 'the file is not removed'
        for _, mm in rets:
            ev = mm.get('ev', ())
            if sorted(e[1] for e in ev if e[0] == 'free') != [11, 22]:
                msg = msg or 'the blocks of a removed file are not released'
            if ('fat', 1) not in ev:
                msg = msg or 'the directory does not know that a file was removed'
            nk = fld(V, 'previous', ('ld', fld(V, 'next')))
            pk = fld(V, 'next', ('ld', fld(V, 'previous')))
            if nx and mm.get(nk, 0) != pv or pv and mm.get(pk, 0) != nx:
                msg = msg or 'the files around a removed file are not linked'
        rep.ob('directory', 'V8File::delete_file%s%s' % (', not the first' if pv else '', ', not the last' if nx else ''), not msg, floc(f), msg or '')


def told(P):
    """does writing itself note that a place was given to data which had none"""
    r = getattr(P, '_p17told', None)
    if r is None:
        r = True
        for start in (0, LAST):
            for free in ([], [40]):
                f = File()
                f.interleave(('other', [33], 7), ('free', free, 0))
                m = dict(f.m)
                m[('len', SRC)], m[('pos', SRC)] = 20, 0
                m[fld('V8Catalog', '_fatmodified')] = 0
                rets, lost = one(P, P.fn1('V8Catalog::write_block'), {1: SRC, 2: start, 3: 0, 4: 0xffffffff}, m, '')
                r = r and bool(rets) and all(mm.get(fld('V8Catalog', '_fatmodified')) == 1 for v, mm in rets)
        P._p17told = r
    return r


def kept(P, mm, dm, hm, same, q, src=FDATA, n=-1):
    ev = mm.get('ev', ())
    data = [e for e in ev if e[0] == 'data']
    head = [e for e in ev if e[0] == 'block']
    if dm:
        if len(data) != 1 or data[0][1:4] != (CAT, src, 11) or data[0][5] != n & 0xffffffff:
            return 'the changed data of a file is not written into the container'
        if mm.get(fld('V8File', 'start_data')) != (11 if same else 777):
            return 'the place of the data is not remembered'
        if not same and not told(P) and not any(e[0] == 'fat' and e[1] == 1 for e in ev):
            return 'the data of a file came to lie at another place and the directory does not know'
    elif data:
        return 'unchanged data is written'
    if hm:
        if len(head) != 1 or head[0][1] != CAT or head[0][3] != 22 or head[0][5] != 0xffffffff:
            return 'the changed header of a file is not written into the container'
        if mm.get(fld('V8File', 'start_header')) != (22 if same else 888):
            return 'the place of the header is not remembered'
        bad = head_ok(P, head[0][2], [e[1] for e in ev if e[0] == 'name'])
        if bad:
            return bad
    return None


def directory(mm, files, fat, outer, q, cfu):
    ev = mm.get('ev', ())
    verb = 'close' if '~' in q else 'flush'
    done = [e[1] for e in ev if e[0] in ('close', 'flush') and e[1] in files]
    if sorted(set(done)) != sorted(files):
        return 'not every file of the container is written'
    blk = [e for e in ev if e[0] == 'block']
    if fat:
        if len(blk) != 1 or blk[0][3] != DIR or blk[0][4] != 1 or blk[0][5] != 0xffffffff:
            return 'the directory of the container is not written at its place'
        want = tuple((12 * i, 12, (1000 + f[1], 2000 + f[1], LAST)) for i, f in enumerate(files))
        if blk[0][2] != want:
            return 'the directory holds %s instead of the places of the header and the data of each file' % (blk[0][2],)
    elif blk:
        return 'the directory is written although it has not changed'
    puts = [e[2:] for e in mm.get('log', ()) if e[0] == 'put' and e[1] == DATA]
    if fat or files:
        if (0, 4, (4242 if fat else 4141,)) not in puts:
            return 'the list of free blocks is not recorded in the container'
        if [p for p in puts if p[0] == 8] != [(8, 4, (6,))]:
            return 'the version of the container is not raised'
        if outer and ('modified', outer, 1) not in ev:
            return 'the file around the container is not told that it has changed'
    z = [e for e in ev if e[0] == 'ZDeflateStream']
    if cfu and (fat or files) and (len(z) != 1 or z[0][1:3] != (DATA, 0) or z[0][5:7] != (CFU, 0)):
        return 'the packed container is not written'
    if z and not cfu:
        return 'the container is packed though it is not of that kind'
    if any(p[0] not in (0, 8) for p in puts):
        return 'something else is written into the container'
    return None


def packing(P, rep):
    f = rep.need('V8Catalog::write_datablock')
    rep.saw(f)
    for zipped, one_, n in ((0, 0, -1), (0, 0, 5), (1, 0, -1), (1, 0, 5), (0, 1, -1)):
        m = {fld('V8Catalog', 'zipped'): zipped, ('pos', SRC): 3, ('len', SRC): 9}
        rets, lost = outs_of(P, f, {0: SELF, 1: SRC, 2: 11, 3: one_, 4: n & 0xffffffff}, m)
        msg = lost[1] if lost else None if rets else 'nothing is written'
        for r, mm in rets:
            ev = mm.get('ev', ())
            z = [e for e in ev if e[0] == 'ZDeflateStream']
            b = [e for e in ev if e[0] == 'block']
            if len(b) != 1 or b[0][3] != 11 or b[0][4] != 0:
                msg = msg or 'the data is not written at its place'
                continue
            if r != 888:
                msg = msg or 'the place of the data is not returned'
            if zipped or one_:
                whole = z and z[0][1:4] == (SRC, 0, 9)
                partly = z and z[0][2:5] == (0, 5, ((0, SRC, 3, 5),))
                if len(z) != 1 or not (whole if n < 0 else partly):
                    msg = msg or 'the data is not packed whole'
                elif b[0][5] != 0xffffffff:
                    msg = msg or 'the packed data is not written whole'
            elif z or b[0][5] != n & 0xffffffff:
                msg = msg or 'the data is not written as it is'
        rep.ob('pack', 'writing, %s, %s' % ('packed' if zipped or one_ else 'not packed', 'whole' if n < 0 else 'a part'), not msg, floc(f), msg or '')
    f = rep.need('V8Catalog::read_datablock')
    rep.saw(f)
    for zipped in (0, 1):
        m = {fld('V8Catalog', 'zipped'): zipped, fld('V8Catalog', 'data'): DATA, ('pos', DATA): 3, ('len', DATA): 900, ('pos', ('S', 'head')): 40, ('len', ('S', 'head')): 40}
        rets, lost = outs_of(P, f, {0: SELF, 1: 11}, m)
        msg = lost[1] if lost else None if rets else 'nothing is read'
        for r, mm in rets:
            z = [e for e in mm.get('ev', ()) if e[0] == 'ZInflateStream']
            if zipped and (len(z) != 1 or z[0][1:4] != (('S', 'head'), 0, 40) or r != z[0][5] or r is None):
                msg = msg or 'the data is not unpacked whole'
            if not zipped and (z or r != ('S', 'head')):
                msg = msg or 'the data is not returned as it is'
        rep.ob('pack', 'reading, %s' % ('packed' if zipped else 'not packed'), not msg, floc(f), msg or '')


SIGN = {0: 13, 1: 10, 10: 32, 19: 32, 28: 32, 29: 13, 30: 10}
FAT, HD = ('S', 'fat'), ('S', 'head')


class Reader(Keeper):
    """what is read is known by its place in the stream it was read from"""

    def __init__(self, P, known=None, limit=6000):
        Keeper.__init__(self, P, limit)
        self.known = known      # (stream, position, width) -> the bytes there

    def at(self, fn, o, m):
        """(stream, position) of what lies at an address"""
        e, k = fn.e(o), 0
        if e[0] == 'elt' and e[3] == 0 and e[2][0] == 'c':       # a byte of an array
            e, k = e[1], e[2][1]
        p = place(self.P, e)
        if not p:
            return None
        base, off = p
        off = (off[0] + k, off[1])
        got = m.get(('bytes', base))
        if got is None or off[1]:
            return None
        return got[0], got[1] + off[0]

    def step(self, fn, x, env, m, depth):
        if x.op == 'load':
            t = self.at(fn, x.ops[0], m)
            if t:
                v = None
                if self.known:
                    v = self.known(t[0], t[1], x.raw['t'])
                self.set(env, x.id, v if self.known else ('T',) + t)
                return None
        return Keeper.step(self, fn, x, env, m, depth)

    def streamcall(self, fn, x, last, s, argv, m):
        pos = m.get(('pos', s))
        n = argv[2] if len(argv) > 2 else None
        if last in ('Read', 'ReadBuffer') and pos is not None:
            p = place(self.P, fn.e(x.ops[1]))
            if p and not p[1][1] and p[1][0] == 0:
                m[('bytes', p[0])] = (s, pos)
            elif p and not p[1][1] and p[1][0] > 0 and p[0][0] != 'arg':      # one more piece behind what is known already
                m[('bytes', p[0])] = (s, pos - p[1][0])
            if isinstance(n, int):
                m[('pos', s)] = pos + n
            else:
                m.pop(('pos', s), None)
            return (n,)
        return Keeper.streamcall(self, fn, x, last, s, argv, m)

    def hook(self, ai, fn, x, argv, m, env):
        q = simple(self.P.callee_name(x) or '')
        qs = self.P.target_qs(x) or {q}
        last = sorted(qs)[0].split('::')[-1]
        if q == 'read_block' and argv[1] != 16:
            m['headers'] = m.get('headers', ()) + (argv[1],)
            h = self.stream(argv[2]) if len(argv) > 2 and self.stream(argv[2]) else HD
            m[('head',)] = h
            m[('pos', h)], m[('len', h)] = 0, 60
            return (h,)
        if q.startswith('std::vector') and last == 'vector' and len(x.ops) >= 3:
            t = self.at(fn, x.ops[1], m)
            e = self.at(fn, x.ops[2], m)
            m[('bytes', fn.e(x.ops[0]))] = t
            return (None,)
        if any(t.endswith('::toUtf8') for t in qs):
            t = m.get(('bytes', fn.e(x.ops[2]))) if len(x.ops) > 2 else None
            o = argv[3] if len(argv) > 3 else 0
            m[('name', fn.e(x.ops[0]))] = (t[0], t[1] + o) if t and isinstance(o, int) else None
            return (None,)
        if q == 'V8File::V8File':
            a = argv + [None] * 9
            h = m.get(('head',))
            name = m.get(('name', fn.e(x.ops[2])))
            tc, tm = (v[2] if isinstance(v, tuple) and v[0] == 'T' and v[1] == h else None for v in (a[6], a[7]))
            m['meta'] = m.get('meta', ()) + ((name[1] if name and name[0] == h else None, a[4], a[5], tc, tm),)
            return Keeper.hook(self, ai, fn, x, argv, m, env)
        if last == 'memcmp':
            return (m.get('template', 0),)
        if last == 'set_data_modified' or q == 'V8File::get_file_length':
            return (None,)
        return Keeper.hook(self, ai, fn, x, argv, m, env)


def layout(P, rep):
    f = rep.need('V8Catalog::initialize')
    rep.saw(f)
    for k in (0, 1, 2, 3):
        m = {fld('V8Catalog', 'data'): DATA, ('pos', DATA): 3, ('len', DATA): 900, ('pos', FAT): 0, ('len', FAT): 12 * k}
        s = Reader(P)
        rets = [(v, dict(mm)) for kind, v, mm in s.run(f, {0: SELF}, m) if kind == 'ret']
        msg = '%s (%s)' % (s.lost[1], loc(s.lost[0])) if s.lost else None
        for _, mm in rets:
            made = [e for e in mm.get('ev', ()) if e[0] == 'made']
            if len(made) != k:
                msg = msg or 'of %d entries of the directory %d are read' % (k, len(made))
                continue
            prev = 0
            for e in made:
                if e[2] != SELF or e[3] != prev:
                    msg = msg or 'the files are not linked in the order of the directory'
                prev = e[1]
            if k and (mm.get(fld('V8Catalog', 'first')) != made[0][1] or mm.get(fld('V8Catalog', 'last')) != made[-1][1]):
                msg = msg or 'the first and the last file are not known'
            for i, (name, dat, head, tc, tm) in enumerate(mm.get('meta', ())):
                if (dat, head) != (('T', FAT, 12 * i + 4), ('T', FAT, 12 * i)):
                    msg = msg or 'the places of the header and the data are not taken from the entry of the file'
                if name != 20:
                    msg = msg or 'the name of a file is not taken from its place in the header'
                if tc != 0 or tm != 8:
                    msg = msg or 'the times of a file are not taken from their places in the header'
            if mm.get('headers', ()) != tuple(('T', FAT, 12 * i) for i in range(k)):
                msg = msg or 'the header is not read from where the entry says'
        rep.ob('directory', 'a directory of %d entries is read' % k, not msg and bool(rets), floc(f), msg or '')
    # the header of a block
    for part, off in (('data_size', 2), ('page_size', 11), ('next_page_addr', 20)):
        for verb in ('get_', 'set_'):
            f = rep.need('stBlockHeader::' + verb + part)
            rep.saw(f)
            offs = set()
            for x in f.calls():
                for o in x.ops:
                    p = place(P, f.e(o))
                    if p and p[0] == T0 and not p[1][1]:
                        offs.add(p[1][0])
            ok = off in offs and all(off <= o <= off + 8 for o in offs)
            hexa = any(f.e(o) == ('c', 16) for x in f.calls() for o in x.ops) if verb == 'get_' else any('to_hex_string' in (P.callee_name(x) or '') for x in f.calls())
            rep.ob('header', '%s%s' % (verb, part), ok, floc(f), 'the number is kept at %s of the header of a block instead of at %d' % (sorted(offs), off))
            rep.ob('header', '%s%s in hexadecimal' % (verb, part), hexa, floc(f), 'the number is not written in hexadecimal digits')
    f = rep.need('stBlockHeader::stBlockHeader')
    rep.saw(f)
    got = {}
    for x in f.all():
        if x.op == 'store':
            p = place(P, f.e(x.ops[1]))
            v = f.e(x.ops[0])
            if p and p[0] == T0 and not p[1][1] and v[0] == 'c':
                got[p[1][0]] = v[1]
    rep.ob('header', 'signature', all(got.get(k) == v for k, v in SIGN.items()), floc(f), 'the signs that frame the numbers of the header of a block are not in their places')
    f = rep.need('stBlockHeader::create')
    rep.saw(f)
    sret = 1 if len(f.args) == 4 else 0
    got = {simple(P.callee_name(x) or '').split('::')[-1]: f.e(x.ops[1]) for x in f.calls() if len(x.ops) > 1}
    rep.ob('header', 'create', all(got.get('set_' + n) == ('arg', i + sret) for i, n in enumerate(('data_size', 'page_size', 'next_page_addr'))), floc(f), 'the numbers of a new header are taken for one another')
    # is this a container
    for q in ('V8Catalog::is_catalog', 'V8File::is_catalog'):
        f = rep.need(q)
        rep.saw(f)
        cls = q.split('::')[0]
        D = DATA if cls == 'V8Catalog' else FDATA
        cases = [('an empty container', 16, LAST, None, 0, 1), ('sixteen other bytes', 16, LAST, None, 1, 0), ('nothing is free', 5000, LAST, None, 0, 1), ('a free block', 5000, 300, None, 0, 1),
                 ('the last block is free', 300 + HEAD + 1, 300, None, 0, 1), ('the directory alone', 16 + HEAD, LAST, None, 0, 1), ('too short', 16 + HEAD - 1, LAST, None, 0, 0), ('free block behind the end', 5000, 4990, None, 0, 0)]
        for k in sorted(SIGN):
            cases.append(('another sign %d of the directory' % k, 5000, LAST, 16 + k, 0, 0))
            cases.append(('another sign %d of the free block' % k, 5000, 300, 300 + k, 0, 0))
        for name, n, first, bad, tmpl, want in cases:
            def known(s, pos, t):
                if t == 'i32' and pos == 0:
                    return first
                if pos == bad:
                    return 88
                for b in (16, 300):
                    if pos - b in SIGN:
                        return SIGN[pos - b]
                return None
            m = {fld(cls, 'data'): D, ('pos', D): 3, ('len', D): n, fld('V8Catalog', 'iscatalogdefined'): 0, 'template': tmpl, fld(cls, 'is_opened'): 1}
            if cls == 'V8File':
                m[fld(cls, 'iscatalog')] = 0
            s = Reader(P, known)
            rets = {v for kind, v, mm in s.run(f, {}, m) if kind == 'ret'}
            rep.ob('recognised', '%s, %s' % (q, name), rets == {want}, floc(f), 'a container is not recognised' if want else 'something else is taken for a container')
