"""P15 all output lies at the path given for it or below; names from the data do not lead out of it."""
from sa.lib import *
from sa.build import Broken
from sa.terms import simple
from sa.paths import paths
from rules.p14 import pt, strip, creations, brief, STREAM, opened, is_temp

ASSUMPTIONS = ['a path given on the command line is where its user wants the output', 'boost::filesystem: the operator / appends a component']
MKDIR = re.compile(r'filesystem::create_director(y|ies)$')
SANITIZER = 'safe_file_name'
KEEP = ('absolute', 'system_complete', 'GetFullPath', 'canonical', 'weakly_canonical', 'string', 'path', 'c_str', 'native', 'lexically_normal', 'make_preferred')
GUIDS = re.compile(r'(^|::)(as_1C|as_MS|GUIDas1C|GUIDasMS|GUID_to_string)$|^std(::__cxx11)?::to_string$')
OUT_PARAM = re.compile(r'^param\d+$')


def run(P, rep):
    rep.rule('place', 'what is written lies at the path given for it or below', 20)
    rep.rule('names', 'a name taken from the data stays one component of the path', 6)
    rep.rule('sanitizer', 'a name made safe holds no separator and is neither . nor ..', 3)
    sinks = 0
    S = Places(P, rep)
    for f in list(P.functions.values()):
        if f.q == STREAM or f.q == 'V8Catalog::V8Catalog' or f.q.startswith('System::Classes::TFileStream::'):
            continue
        todo = list(creations(P, f))
        for x in f.calls():
            q = simple(P.callee_name(x) or '')
            if MKDIR.search(q) and x.ops:
                todo.append((x, pt(f).of(x.ops[0], x)))
            elif q in ('fopen', 'open', 'creat', 'freopen') and x.ops:
                todo.append((x, pt(f).of(x.ops[0], x)))
            elif q.endswith('::rename') and len(x.ops) > 1:
                todo.append((x, pt(f).of(x.ops[1], x)))
        for x, v in todo:
            sinks += 1
            rep.saw(f)
            S.judge(f, x, strip(v), '%s writes %s' % (f.q, brief(strip(v))))
    if sinks < 8:
        raise Broken('nothing that writes files found')
    sanitizer(P, rep)


class Places:
    def __init__(self, P, rep):
        self.P = P
        self.rep = rep
        self.memo = {}

    def judge(self, f, x, v, name):
        why = self.place(f, x, v, ())
        self.rep.ob('place', name, why is None, loc(x), 'the output lies elsewhere: %s' % why)

    # -- where a path points: None if below a path given for it, otherwise what is wrong
    def place(self, f, x, v, seen):
        k = (f.name, v)
        if k in seen or len(seen) > 24:
            return None
        if k in self.memo:
            return self.memo[k]
        r = self._place(f, x, v, seen + (k,))
        self.memo[k] = r
        return r

    def _place(self, f, x, v, seen):
        P = self.P
        v = strip(v)
        if v[0] == 'alt':
            for w in v[1:]:
                if w == ('s', ''):
                    continue
                r = self.place(f, x, w, seen)
                if r:
                    return r
            return None
        if v[0] == 'path':
            r = self.place(f, x, v[1], seen)
            if r:
                return r
            for w in v[2:]:
                r = self.component(f, x, w, seen)
                self.rep.ob('names', '%s: %s' % (f.q, brief(w)), r is None, loc(x), 'a name that may lead out of the output directory: %s' % r)
            return None
        if v[0] == 'cat':
            r = self.place(f, x, v[1], seen)
            if r:
                return r
            for w in v[2:]:
                r = self.component(f, x, w, seen)
                self.rep.ob('names', '%s: %s' % (f.q, brief(w)), r is None, loc(x), 'a name that may lead out of the output directory: %s' % r)
            return None
        if v[0] == 'call' and v[1].split('::')[-1] in KEEP and len(v) > 2:
            for w in v[3:]:
                # a relative path is relative to the directory the tool was started in
                if not (w[0] == 'call' and w[1].endswith('current_path')) and w[0] not in ('c', 'null', 'g') and not (w[0] == 'call' and 'codecvt' in w[1]) and v[1].split('::')[-1] in ('absolute', 'system_complete', 'canonical', 'weakly_canonical'):
                    return 'relative to ' + brief(w)
            return self.place(f, x, v[2], seen)
        if v[0] == 'fld' and v[2] == 'ParsedCommand' and OUT_PARAM.search(v[3]):
            return None
        if v[0] == 'fld' and 'TParsedCommand' in v[2]:
            return None
        if is_temp(P, v) or v[0] == 'call' and v[1].endswith('temp_directory_path'):
            return None
        if v[0] == 'arg' and v[1] < f.nargs:
            cs = P.callers.get(f.name, [])
            for c in cs:
                if len(c.ops) <= v[1] or self.excluded(f, x, c):
                    continue
                w = strip(pt(c.fn).of(c.ops[v[1]], c))
                r = self.place(c.fn, c, w, seen)
                if r:
                    return '%s (%s:%s)' % (r, c.fn.q, loc(c))
            return None     # no caller: the user of the library gives it
        if v[0] == 'call':
            gs = [g for g in P.fns(v[1]) if project(g)]
            for g in gs:
                from rules.p14 import returned
                vals = returned(g)
                if not vals:
                    return brief(v)
                for w in vals:
                    w = strip(w)
                    # parameters of the helper stand for the arguments of the call: only those that are given are looked at
                    r = self.place(g, x, w, seen)
                    if r:
                        return r
            if gs:
                return None
        if v[0] == 'fld':
            ms = self.assigned(v)
            if ms:
                for g, y, w in ms:
                    r = self.place(g, y, strip(w), seen)
                    if r:
                        return r
                return None
        return brief(v)

    def excluded(self, f, x, c):
        """the arguments of call c keep f from reaching x"""
        for k in range(min(f.nargs, len(c.ops))):
            w = c.fn.e(c.ops[k])
            if w[0] == 'c' and any(w[1] == 0 and nonzero(t, ('arg', k)) or w[1] != 0 and iszero(t, ('arg', k)) for t in facts(x)):
                return True
        return False

    def assigned(self, v):
        """values given to a member that holds a path"""
        P = self.P
        out = []
        for g in P.functions.values():
            for y in g.calls():
                if not y.ops:
                    continue
                e = g.e(y.ops[0])
                if e[0] == 'fld' and e[2:] == v[2:]:
                    n = simple(P.callee_name(y) or '').split('::')[-1]
                    if n == 'operator=' and len(y.ops) > 1:
                        w = pt(g).of(y.ops[1], y)
                        if w != ('s', ''):
                            out.append((g, y, w))
                    elif len(y.ops) > 1 and n in ('path', 'basic_string'):
                        out.append((g, y, pt(g).of(y.ops[1], y)))
                    elif n in ('operator/=', 'append', 'operator+='):
                        out.append((g, y, ('unknown',)))
        return out

    # -- a part of a path that must stay one component: None, or what is wrong
    def component(self, f, x, v, seen, depth=0):
        P = self.P
        if depth > 12:
            return brief(v)
        k = (f.name, v, 'c')
        if k in seen:
            return None
        seen = seen + (k,)
        if v[0] == 's':
            return None if '/' not in v[1] and '\\' not in v[1] and v[1] != '..' else repr(v[1])
        if v[0] in ('cat', 'alt'):
            for w in v[1:]:
                r = self.component(f, x, w, seen, depth + 1)
                if r:
                    return r
            return None
        if v[0] == 'call':
            n = v[1].split('::')[-1]
            if v[1] == SANITIZER or GUIDS.search(v[1]) or n in ('extension', 'filename', 'unique_path'):
                return None
            if n in ('substr', 'to_upper_copy', 'to_lower_copy', 'LowerCase', 'UpperCase', 'trim', 'str', 'string', 'path', 'c_str', 'stem', 'append', 'operator+') and len(v) > 2:
                return self.component(f, x, v[2], seen, depth + 1)
            gs = [g for g in P.fns(v[1]) if project(g)]
            if gs:
                from rules.p14 import returned
                for g in gs:
                    vals = returned(g)
                    if not vals:
                        return brief(v)
                    for w in vals:
                        r = self.component(g, x, strip(w), seen, depth + 1)
                        if r:
                            return brief(v) if w[0] in ('fld', 'arg', 'unknown') else r
                return None
            return brief(v)
        if v[0] == 'g':
            return None if self.constant(v) else brief(v)
        if v[0] == 'c':
            return None
        if v[0] == 'arg' and v[1] < f.nargs:
            cs = P.callers.get(f.name, [])
            for c in cs:
                if len(c.ops) <= v[1]:
                    continue
                r = self.component(c.fn, c, strip(pt(c.fn).of(c.ops[v[1]], c)), seen, depth + 1)
                if r:
                    return r
            return None
        return brief(v)

    def constant(self, v):
        """a global text that keeps the value it is initialised with"""
        P = self.P
        for g in P.functions.values():
            for y in g.calls():
                if y.ops and g.e(y.ops[0]) == v and simple(P.callee_name(y) or '').split('::')[-1] in ('operator=', 'operator+=', 'append', 'assign'):
                    return False
        return True


def sanitizer(P, rep):
    f = rep.need(SANITIZER)
    for c, n in ((47, 'slash'), (92, 'backslash')):
        ok = any(replaces(P, f, x, c) for x in f.calls()) or loop_replaces(P, f, c)
        rep.ob('sanitizer', 'every %s is replaced' % n, ok, floc(f), 'a %s of the name is kept' % n)
    for t in ('.', '..'):
        p = unchanged(P, f, t)
        rep.ob('sanitizer', 'a name that is %s is changed' % t, p is None, floc(f), 'the name %s is kept' % t)


def unchanged(P, f, t):
    """a path on which a name equal to t is returned as it is"""
    comp = {}
    for x in f.calls():
        q = simple(P.callee_name(x) or '')
        n = q.split('::')[-1]
        if n in ('operator==', 'operator!=', 'compare'):
            for o in x.ops:
                v = pt(f).of(o, x)
                if v[0] == 's':
                    comp[x.id] = (v[1], n == 'operator==')

    def impossible(c):
        if c[0] == 'not' and c[1][0] == 'res' or c[0] == 'res':
            e = c[1] if c[0] == 'not' else c
            w = comp.get(e[1])
            if w:
                return ((w[0] == t) == w[1]) != (c[0] == 'res')
        if c[0] == 'cmp' and c[1] in ('eq', 'ne'):
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if a[0] == 'res' and b == ('c', 0) and a[1] in comp:
                    # compare(): 0 means equal;  operator==: 0 means different
                    lit, eqop = comp[a[1]]
                    zero = (lit != t) if eqop else (lit == t)
                    return zero != (c[1] == 'eq')
        return False
    rets = set(f.rets())
    for p in paths(f, None, lambda z: z in rets):
        if any(impossible(c) for c in p.conds):
            continue
        if not any(change(P, f, z) for b in p.blocks for z in f.blocks[b]):
            return p
    return None


def change(P, f, z):
    """the call gives the name another value, or returns another one"""
    if not z.is_call:
        return False
    q = simple(P.callee_name(z) or '')
    n = q.split('::')[-1]
    if n in ('operator+=', 'append', 'assign', 'insert', 'push_back', 'replace', 'operator=') and 'string' in q:
        return True
    if n == 'operator+':
        return True
    if z.ops and f.e(z.ops[0]) == ('arg', 0) and 'basic_string' in q and len(z.ops) > 1:
        return pt(f).of(z.ops[1], z)[0] == 's'
    return False


def replaces(P, f, x, c):
    """x replaces every character c of the result by one that is no separator"""
    s = simple(P.callee_name(x) or '')
    if s == 'std::replace' and len(x.ops) >= 4:
        vals = [charval(f, o, x) for o in x.ops[2:4]]
        ends = [end_of(P, f, o, x) for o in x.ops[:2]]
        return vals[0] == c and vals[1] not in (47, 92, None) and ends == ['begin', 'end']
    if s.endswith(('replace_all', 'replace_all_copy')) or s.split('::')[-1] == 'StringReplace':
        vs = [pt(f).of(o, x) for o in x.ops]
        t = [v[1] for v in vs if v[0] == 's']
        flags = f.e(x.ops[-1])
        return len(t) >= 2 and t[-2] == chr(c) and '/' not in t[-1] and '\\' not in t[-1] and (s.split('::')[-1] != 'StringReplace' or flags == ('c', 1))
    return False


def end_of(P, f, o, x):
    """begin or end of the string, however the iterator is passed on"""
    e = f.e(o)
    for _ in range(6):
        if e[0] == 'res':
            return simple(P.callee_name(f.ins[e[1]]) or '').split('::')[-1].lstrip('c')
        if e[0] == 'data':
            return 'begin'
        if e[0] == 'lin':
            return 'end'
        base = e[1] if e[0] == 'ld' else e
        last = None
        for s in f.all():
            if s.op == 'store' and f.dominates(s, x):
                p = f.e(s.ops[1])
                if p == base or isinstance(p, tuple) and len(p) > 1 and p[1] == base:
                    last = s
        if last is None:
            return None
        e = f.e(last.ops[0])
    return None


def loop_replaces(P, f, c):
    """a loop over the whole text gives every character c another value that is no separator"""
    for s in f.all():
        if s.op != 'store':
            continue
        w = f.e(s.ops[0])
        if w[0] != 'c' or w[1] & 255 in (47, 92):
            continue
        scc = loop_of(f, s)
        if not scc or cut_short(f, scc) or skips(f, scc):
            continue
        heads = [b for b in scc if any(q not in scc for q in f.pred[b])]

        def skip(a, b):
            return b not in scc or any(false_for(t, c) for t in edge_conds(f, a, b))
        for h in heads:
            # a round: from the test of the end to the place where the next one starts
            first = f.blocks[h][0]
            for b in f.nsucc[h]:
                if b in scc:
                    start = f.blocks[b][0]
                    if start is s or f.path_avoiding(start, lambda z: z is first, lambda z: z is s, skip=skip) is None:
                        return True
    return False


def false_for(t, c):
    """a condition on a character that does not hold for c"""
    if t[0] == 'in':
        return ischar(t[1]) and c not in t[2]
    if t[0] != 'cmp' or len(t) != 4:
        return False
    k, a = (t[2], t[3]) if t[2][0] == 'c' else (t[3], t[2])
    if k[0] != 'c' or not ischar(a):
        return False
    return {'eq': c != k[1], 'ne': c == k[1]}.get(t[1], False)


def ischar(a):
    while a[0] in ('sext', 'zext', 'trunc') and isinstance(a[-1], tuple):
        a = a[-1]
    return a[0] in ('ld', 'res', 'call', 'elt')


def charval(f, o, x):
    e = f.e(o)
    if e[0] == 'c':
        return e[1] & 255
    if e[0] == 'alloca':
        last = None
        for s in f.users[e[1]]:
            if s.op == 'store' and f.dominates(s, x):
                last = s
        if last is not None and f.e(last.ops[0])[0] == 'c':
            return f.e(last.ops[0])[1] & 255
    return None
