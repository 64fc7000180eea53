"""P16 A text in braces is read as the tree it denotes, a text that denotes none is refused, and a tree survives being written."""
import re
from itertools import product
from sa.lib import *
from sa import mem
from sa.mem import Mem, Stop
from sa.build import Broken

ASSUMPTIONS = [
    'the kind of an element that is not in quotes is decided by the regular expressions of the library: here every such element is of one kind, or of an unknown kind',
    'strings of the standard library and the reading of single characters from a stream behave as documented',
    'texts are followed up to a length of four characters over seven classes of characters, which covers each step from each state of the reader, and a list of longer ones',
]
WS = (32, 9, 13, 10)
Q, OPEN, CLOSE, COMMA = 34, 123, 125, 44
LETTER = {'x': (45, 122), 'u': (45, 122), 'a': (1, 8), 'b': (11, 12), 'c': (14, 31), 'd': (33, 33), 'e': (35, 43), 'f': (124, 124), 'g': (126, 127), 'h': (128, 255)}
OUT = ('out',)
RES = ('p', OUT, 0)


class Refused(Exception):
    pass


def kind(c):
    """the class of a character: its code, or the letter of its name"""
    return c if isinstance(c, int) else c[1][0][0][0]


def unknown(v):
    return any(kind(c) == 'u' or c in WS for c in v)


# ---- the reference: what a text denotes
def denoted(text, kinds):
    """-> (children of the root, a value of unknown kind stands at the end); Refused when the text denotes no tree.
    node: (type, value, children)"""
    st, cur = 'value', ()
    root = [kinds['nd_list'], (), []]
    stack = [root]

    def add(t, v=()):
        stack[-1][2].append([t, v, []])

    def plain(v):
        if unknown(v):
            raise Refused('unknown kind')
        add(kinds['plain'], v)

    def up():
        stack.pop()
        if not stack:
            raise Refused('a closing brace too many')
    for c in text:
        k = kind(c)
        if st == 'value':
            if k in WS:
                continue
            if k == Q:
                st, cur = 'string', ()
            elif k == OPEN:
                n = [kinds['nd_list'], (), []]
                stack[-1][2].append(n)
                stack.append(n)
            elif k == CLOSE:
                if stack[-1][2]:
                    add(kinds['nd_empty'])
                up()
                st = 'between'
            elif k == COMMA:
                add(kinds['nd_empty'])
            else:
                st, cur = 'plain', (c,)
        elif st == 'between':
            if k in WS:
                continue
            if k == COMMA:
                st = 'value'
            elif k == CLOSE:
                up()
            else:
                raise Refused('no delimiter')
        elif st == 'string':
            if k == Q:
                st = 'quote'
            else:
                cur += (c,)
        elif st == 'quote':
            if k == Q:
                cur += (c,)
                st = 'string'
                continue
            add(kinds['nd_string'], cur)
            if k in WS:
                st = 'between'
            elif k == COMMA:
                st = 'value'
            elif k == CLOSE:
                up()
                st = 'between'
            else:
                raise Refused('no delimiter')
        elif st == 'plain':
            if k == COMMA:
                plain(cur)
                st = 'value'
            elif k == CLOSE:
                plain(cur)
                up()
                st = 'between'
            else:
                cur += (c,)
    odd = False
    if st == 'plain':
        odd = unknown(cur)
        add(kinds['nd_unknown'] if odd else kinds['plain'], cur)
    elif st == 'quote':
        add(kinds['nd_string'], cur)
    elif st != 'between':
        raise Refused('not complete')
    if len(stack) != 1:
        raise Refused('a closing brace is missing')
    return root[2], odd


def fz(ns):
    return tuple((t, v, fz(c)) for t, v, c in ns)


def show(text):
    return ''.join(repr(chr(c))[1:-1] if isinstance(c, int) else c[1][0][0] for c in text)


def chars(s):
    """the characters of a pattern: letters are named characters of their range"""
    out, R = [], {}
    for i, c in enumerate(s):
        if c in LETTER:
            n = '%s%d' % (c, i)
            R[n] = LETTER[c]
            out.append(('lin', ((n, 1),), 0))
        else:
            out.append(ord(c))
    return tuple(out), R


class Reader:
    def __init__(self, P):
        self.P = P
        self.kinds = dict(enum_values(P, 'node_type'))
        for n in ('nd_list', 'nd_empty', 'nd_string', 'nd_unknown', 'nd_number'):
            if n not in self.kinds:
                raise Broken('kind %s of an element is not found' % n)
        self.kinds['plain'] = self.kinds['nd_number']
        self.M = None
        r = P.records.get('Tree')
        if not r:
            raise Broken('the class of trees (Tree) is not found')
        v = [f['o'] for f in r['f'] if f['t'] in ('string', 'std::string') or f['z'] == 32 and 'basic_string' in f['t']]
        if len(v) != 1:
            raise Broken('the value of an element of a tree is not found')
        self.value = v[0]
        self.off = {}
        for n in ('get_first', 'get_next', 'get_parent', 'get_last', 'get_type', 'get_num_subnode'):
            fs = P.fns('Tree::' + n)
            if not fs:
                raise Broken('Tree::%s is not found' % n)
            M = Mem(P, {})
            M.run(fs[0], [('p', ('o',), 0)], {})
            o = [o for ob, o in M.reads if ob == ('o',)]
            if len(o) != 1:
                raise Broken('what Tree::%s returns is not found' % n)
            self.off[n] = o[0]

    def machine(self, R, stream=None, alphabet=None, limit=4):
        """stream: the characters the stream gives, or alphabet: any of these, up to limit"""
        kinds = self.kinds

        def extra(M, fn, x, q, av, m):
            last = q.rsplit('::', 1)[-1]
            if x.callee == '_Znwm':
                n = m.get(('heap', 0), 0)
                m[('heap', 0)] = n + 1
                return (('p', ('h', n), 0),)
            if x.callee in ('_ZdlPv', '_ZdlPvm') or last == '~Tree' or last.startswith('~'):
                return (None,)
            if q == 'classification_value':
                v = M.text(m, av[0])
                if v is None:
                    return None
                return (kinds['nd_empty'] if not v else kinds['nd_unknown'] if unknown(v) else kinds['plain'],)
            if last in ('AddError',) or q.startswith('Registrator::') and 'Error' in last:
                m[('err', 0)] = 1
                return (None,)
            if q.startswith(('DetailedException::', 'Message', 'Registrator')) or q in ('to_hex_string',) or last == 'with':
                return (None,)
            if q.startswith('System::Classes::TStreamReader::'):
                if last == 'Read':
                    k = m.get(('at', 0), 0)
                    if stream is not None:
                        m[('at', 0)] = k + 1
                        return (stream[k] if k < len(stream) else 0xffffffff,)
                    out = [('ret', 0xffffffff, dict(m))]
                    if k < limit:
                        for c in alphabet:
                            if isinstance(c, str):
                                c = ('lin', (('%s%d' % (c, k), 1),), 0)
                            m2 = dict(m)
                            m2[('at', 0)] = k + 1
                            m2[('hist', 0)] = m.get(('hist', 0), ()) + (c,)
                            out.append(('ret', c, m2))
                    return out
                return (None,)
            if re.match(r'std::unique_ptr<Tree.*>::', q):
                if last == 'unique_ptr' and len(av) == 2 and isinstance(av[0], tuple) and av[0][0] == 'p':
                    m[(av[0][1], av[0][2])] = av[1]
                    return (None,)
                if last in ('get', 'operator->', 'operator*', 'release') and isinstance(av[0], tuple) and av[0][0] == 'p':
                    return (m.get((av[0][1], av[0][2])),)
            if q.endswith('StringReplace') and len(av) >= 4:
                s, a, b = (M.text(m, v) for v in av[1:4])
                if None in (s, a, b) or not a:
                    return None
                out, i = [], 0
                while i < len(s):
                    if s[i:i + len(a)] == a:
                        out += b
                        i += len(a)
                    else:
                        out.append(s[i])
                        i += 1
                M.setstr(m, av[0], tuple(out))
                return (None,)
            return None
        return Mem(self.P, R, extra, limit=12000000)

    def tree(self, m, p, depth=0):
        """the children of an element as the accessors show them; a text when they contradict each other"""
        if depth > 12:
            return 'the tree does not end'
        out = []
        c = m.get((p[1], p[2] + self.off['get_first']), 0)
        prev = None
        while c != 0:
            if not (isinstance(c, tuple) and c[0] == 'p') or len(out) > 12:
                return 'an element is not known'
            g = lambda n: m.get((c[1], c[2] + self.off[n]))
            if g('get_parent') != p:
                return 'an element does not know the list it is in'
            v = m.get((c[1], c[2] + self.value))
            k = self.tree(m, c, depth + 1)
            if isinstance(k, str):
                return k
            out.append((g('get_type'), v[1] if isinstance(v, tuple) and v[0] == 'str' else None, k))
            prev, c = c, g('get_next')
        if m.get((p[1], p[2] + self.off['get_num_subnode'])) != len(out):
            return 'the number of elements is wrong'
        if m.get((p[1], p[2] + self.off['get_last']), 0) != (prev or 0):
            return 'the last element is wrong'
        return tuple(out)


def check(T, text, kind_, v, m):
    """a way to read the text, against what it denotes -> complaint or None"""
    try:
        want, odd = denoted(text, T.kinds)
        want = fz(want)
    except Refused as e:
        return None if kind_ == 'exc' else 'a text that denotes no tree (%s) is accepted' % e
    if kind_ == 'exc':
        return None if odd else 'a text that denotes a tree is refused'
    if odd and not m.get(('err', 0)):
        return 'a value of an unknown kind at the end is not reported'
    root = m.get((OUT, 0))
    if not (isinstance(root, tuple) and root[0] == 'p'):
        return 'the tree is not known'
    got = T.tree(m, root)
    if isinstance(got, str):
        return got
    if got != want:
        return 'the tree is %s instead of %s' % (tell(got), tell(want))
    return None


def tell(ns):
    return '[%s]' % ' '.join('%s%s%s' % (t, ":'%s'" % show(v) if v else '' if v == () else ':?', tell(c) if c else '') for t, v, c in ns)


LONG = ['{x,x}', '{"x",x}', '{{x},{x}}', '{x,{x,x},x}', '{"x""x"}', '{"{,}"}', '{"x" ,x}', '{ x, x}', '{{{x}}}', '{x,,x}', '{,,}', '{{},x}', '{x,{}}', '{"",""}',
        '{"x"}}', '{{x}', '{x}x', '{"x"x}', '{"x', '{u,x}', '{x,u}', '{x,u', '{"\r\n"}', '{\r\n{x},\r\n{x}\r\n}', '{x\t}', '{"x"\t,\n"x"\r}', '{{x} {x}}', '{{x},}',
        '{{{x},x},x}', '{x,{x,{x,{x}}}}', '{x,"x,x}","{x"}', '{xx,xxx}', '{"xx","xxx"}', ',{x}', '{x},x', 'x,x', '"x",', '{}', '{x}', '{{}}', '{{},{}}', '{"""",x}',
        '{"""x"""}', '{x,"",{x,"x"}}', '{{x},{x},{x}}', '\n{x}\n', '{x}\r\n', '{"x"} ']


def run(P, rep):
    rep.rule('read', 'a text is read as the tree it denotes, a text that denotes none is refused', 4)
    rep.rule('write', 'a tree written as text is the same tree when it is read', 1)
    T = Reader(P)
    fs = [(f, True) for f in P.fns('parse_1Cstream')] + [(f, False) for f in P.fns('parse_1Ctext')]
    if not fs:
        raise Broken('the readers of texts in braces are not found')
    trees = {}
    for f, stream in fs:
        rep.saw(f)
        if stream:
            every(P, rep, T, f, trees)
        some(P, rep, T, f, stream, trees)
    write(P, rep, T, trees)


def ob(rep, rule, inst, ok, loc, msg=''):
    if not ok and mem.MISSED:
        rep.notes.append('undecided, for want of a model of %s: %s, %s' % (mem.MISSED[0][:80], rule, inst))
        ok = True
    del mem.MISSED[:]
    rep.ob(rule, inst, ok, loc, msg)


def every(P, rep, T, f, trees):
    R = {'%s%d' % (l, i): LETTER[l] for l in 'xu' for i in range(8)}
    M = T.machine(R, alphabet=[32, Q, OPEN, CLOSE, COMMA, 'x', 'u'], limit=4)
    try:
        ends = M.run(f, [RES, ('p', ('src',), 0), ('p', ('path',), 0)], {})
    except Stop:
        ends = None
    bad, seen = {}, {}
    for k, v, mm in ends or ():
        m = dict(mm)
        text = m.get(('hist', 0), ())
        seen.setdefault(len(text), set()).add(text)
        c = check(T, text, k, v, m)
        if c:
            bad.setdefault(len(text), 'the text %s: %s' % (show(text), c))
        elif k == 'ret':
            trees.setdefault(text, m)
    for n in range(5):
        ob(rep, 'read', 'each text of %d characters' % n, ends is not None and n not in bad and bool(seen.get(n)), floc(f),
           bad.get(n) or ('reading does not come to an end' if ends is None else 'no such text is read'))


def some(P, rep, T, f, stream, trees):
    texts = list(LONG)
    if not stream:
        texts += [''.join(t) for n in range(4) for t in product(' "{},xu', repeat=n)]
    for w in '\t\r\n':
        texts += [s.replace('_', w) for s in ('_{x}', '{_x}', '{"x"_}', '{"_"}', '{x}_', '{x_}')]
    for l in 'abcdefgh':
        if l == 'h' and False:
            continue
        texts += [s.replace('_', l) for s in ('{_}', '{"_"}', '{"x"_}', '{x}_', '{x_,x}')]
    bad, n = {}, {}
    for s in texts:
        text, R = chars(s)
        M = T.machine(R, stream=text)
        m0 = {(('src',), 0): ('str', text)} if not stream else {}
        m0[(('path',), 0)] = ('str', ())
        try:
            ends = M.run(f, [RES, ('p', ('src',), 0), ('p', ('path',), 0)], m0)
        except Stop:
            ends = None
        g = 'texts with %s' % ('quotes' if '"' in s else 'braces' if '{' in s or '}' in s else 'delimiters' if ',' in s else 'plain elements')
        n[g] = n.get(g, 0) + 1
        if not ends:
            bad.setdefault(g, 'the text %s: reading does not come to an end' % show(text))
        for k, v, mm in ends or ():
            m = dict(mm)
            c = check(T, text, k, v, m)
            if c:
                bad.setdefault(g, 'the text %s: %s' % (show(text), c))
            elif k == 'ret':
                trees.setdefault(text, m)
    for g in n:
        ob(rep, 'read', '%s, from a %s' % (g, 'stream' if stream else 'text'), g not in bad, floc(f), bad.get(g, ''))


def write(P, rep, T, trees):
    fs = P.fns('outtext')
    if not fs:
        raise Broken('the writer of trees (outtext) is not found')
    for f in fs:
        rep.saw(f)
        bad, n = {}, {}
        for text, m in trees.items():
            want, odd = denoted(text, T.kinds)
            if odd or len(want) != 1:
                continue
            kinds = [T.kinds['nd_number']]
            if text == chars('{x,x}')[0]:
                kinds = [v for k, v in sorted(T.kinds.items()) if k.startswith('nd_') and k not in ('nd_empty', 'nd_string', 'nd_list', 'nd_unknown', 'nd_guid_link')]
            for kd in kinds:
                names = {s: LETTER[s[0]] for c in text if not isinstance(c, int) for s, _ in c[1]}
                m2 = dict(m)
                if kd != T.kinds['nd_number']:
                    for k, v in m.items():
                        if k[0] and isinstance(k[0], tuple) and k[0][0] == 'h' and k[1] == T.off['get_type'] and v == T.kinds['nd_number']:
                            m2[k] = kd
                root = m2[(OUT, 0)]
                M = T.machine(names)
                try:
                    ends = M.run(f, [('p', ('res',), 0), root], m2)
                except Stop:
                    ends = None
                g = 'trees with %s' % ('texts in quotes' if Q in text else 'lists in lists' if text.count(OPEN) > 1 else 'a list')
                n[g] = n.get(g, 0) + 1
                c = None
                if not ends:
                    c = 'writing does not come to an end'
                for k, v, mm in ends or ():
                    s = dict(mm).get((('res',), 0))
                    s = s[1] if isinstance(s, tuple) and s[0] == 'str' else None
                    if k == 'exc' or s is None:
                        c = 'it cannot be written' if k == 'exc' else 'the text is not known'
                        continue
                    try:
                        got, odd = denoted(s, T.kinds)
                    except Refused as e:
                        c = 'it is written as %s, which denotes no tree: %s' % (show(s), e)
                        continue
                    if odd or fz(got) != fz(want):
                        c = 'it is written as %s' % show(s)
                if c:
                    bad.setdefault(g, 'the tree of %s: %s' % (show(text), c))
        for g in n:
            ob(rep, 'write', g, g not in bad, floc(f), bad.get(g, ''))
