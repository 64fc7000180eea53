"""P14 nothing is deleted or emptied but what the run writes anew, its log file and its own temporary directory."""
from sa.lib import *
from sa.build import Broken
from sa.fspath import Paths
from sa.terms import simple
from rules.p01 import open_bits
from rules.p06 import ret_cases

ASSUMPTIONS = ['Linux', 'unique_path gives names nobody else uses', 'boost::filesystem::remove_all of an empty path removes nothing']
DELETE = re.compile(r'^(boost::filesystem::(remove|remove_all|rename|resize_file)|std::(experimental::)?filesystem::(remove|remove_all|rename|resize_file)|std::(remove|rename)|remove|rename|unlink|unlinkat|rmdir|truncate|ftruncate)$')
TREE = re.compile(r'::remove_all$')
STREAM = 'System::Classes::TFileStream::TFileStream'
WRITES = {'Write', 'WriteBuffer', 'WriteString', 'SetSize'}
TEMP = 'TTempStream::tempcat'


def run(P, rep):
    rep.rule('delete', 'only a file about to be written anew or the log file is deleted', 4)
    rep.rule('temp', 'the temporary directory of a run has a name of its own, is created by it and is all that is deleted with its contents', 5)
    rep.rule('truncate', 'a file that may exist already is not emptied when it is opened to be kept', 1)
    rep.rule('inputs', 'a file that is only read is opened for reading', 15)
    deletes(P, rep)
    temp(P, rep)
    streams(P, rep)


def pt(f):
    if not hasattr(f, '_paths'):
        f._paths = Paths(f)
    return f._paths


def mode_bits(P, c, m):
    k = (c.name, m)
    d = P.__dict__.setdefault('_mode_bits', {})
    if k not in d:
        d[k] = open_bits(P, c, m)
    return d[k]


def values_of(v):
    if v is None:
        return [None]
    if v[0] == 'trunc' or v[0] in ('zext', 'sext', 'bc'):
        return values_of(v[-1])
    if v[0] == 'alt':
        return [y for w in v[1:] for y in values_of(w)]
    if v[0] == 'sel':
        return values_of(v[2]) + values_of(v[3])
    if v[0] == 'c':
        return [v[1] & 0xffff]
    return [None]


def opened(P, x):
    """the open-mode bits a construction of a file stream may have; None: unknown"""
    f = x.fn
    if len(x.ops) < 3:
        return None
    v = f.e(x.ops[2])
    if v[0] == 'phi':
        from rules.p06 import phi_cases
        vs = [f.e(w) for w in pt(f).f.ins[v[1]].raw and [q for _, q in f.ins[v[1]].raw['in']]]
    else:
        vs = [v]
    out = set()
    cs = [c for c in P.target_fns(x)] or [c for c in P.fns(STREAM)]
    for w in vs:
        for m in values_of(w):
            if m is None:
                return None
            for c in cs:
                for b in mode_bits(P, c, m):
                    if b is None:
                        return None
                    out.add(b)
    return out


def creations(P, f):
    """calls of f that make or empty a file, with the path"""
    out = []
    for x in f.calls():
        q = P.callee_name(x) or ''
        s = simple(q)
        if s == STREAM and len(x.ops) > 2:
            b = opened(P, x)
            if b and all(v & 32 for v in b):
                out.append((x, pt(f).of(x.ops[1], x)))
        elif s == 'V8Catalog::V8Catalog' and len(x.ops) > 1 and any('string' in (g.d or '') for g in P.target_fns(x)):
            out.append((x, pt(f).of(x.ops[1], x)))
        elif re.search(r'basic_[io]?fstream(<.*>)?(::(basic_[io]?fstream|open))?$', s) and 'basic_ifstream' not in s and len(x.ops) > 1:
            out.append((x, pt(f).of(x.ops[1], x)))
        elif s == 'std::make_shared' and re.search(r'basic_o?fstream|14basic_fstream|14basic_ofstream', x.raw.get('f') or '') and x.ops:
            k = [o for i, o in enumerate(x.ops) if i != x.raw.get('sret')]
            out.append((x, pt(f).of(k[0], x)))
    return out


def strip(v):
    """the path itself, whatever string or path object holds it"""
    while v[0] == 'call' and v[1].split('::')[-1] in ('string', 'c_str', 'native', 'path') and len(v) == 3:
        v = v[2]
    return v


def deletes(P, rep):
    seen = 0
    for f in list(P.functions.values()):
        for x in f.calls():
            q = simple(P.callee_name(x) or '')
            if not DELETE.search(q):
                continue
            if not x.ops:
                continue
            # std::remove is an algorithm as well
            if q in ('std::remove',) and len(x.ops) != 1:
                continue
            seen += 1
            rep.saw(f)
            if q.endswith(('resize_file', 'truncate')) and pt(f).of(x.ops[0], x)[:1] == ('fld',) and f.q.endswith('TFileStream::SetSize'):
                continue        # a stream that is written to
            if TREE.search(q):
                v = strip(pt(f).of(x.ops[0], x))
                rep.ob('temp', 'what %s deletes with its contents' % f.q, v == ('g', TEMP) or v[0] == 'g' and gname(P, v) == TEMP, loc(x),
                       'a whole directory other than the temporary one of this run is deleted: %s' % (v,))
                continue
            judge(P, rep, f, x, 0, x, 0, [])
    if not seen:
        raise Broken('no deletion found')


def gname(P, v):
    n = v[1] if len(v) > 1 else ''
    g = P.globals.get(n) if isinstance(P.globals, dict) else None
    d = (g or {}).get('d') if isinstance(g, dict) else None
    return d or demangled(n)


def demangled(n):
    import subprocess
    try:
        return subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
    except OSError:
        return n


def judge(P, rep, f, x, k, site, depth, chain):
    """the deletion at site, made through operand k of x in f"""
    v = strip(pt(f).of(x.ops[k], x))
    rep.saw(f)
    name = '%s deletes %s' % (f.q, brief(v))
    made = [y for y, w in creations(P, f) if strip(w) == v and y is not x]
    if made:
        p = f.path_avoiding(x, lambda z: z in f.rets(), lambda z: z in made, normal=True)
        if p is None:
            rep.ob('delete', name + ' and writes it anew', True, loc(x), '')
            return
        if v[0] != 'arg':
            rep.ob('delete', name + ' and writes it anew', False, loc(x), 'the file is deleted, but on a path not written anew')
            return
    if v[0] not in ('fld', 'arg'):
        # kept in a member before
        for y in f.calls():
            if simple(P.callee_name(y) or '').split('::')[-1] == 'operator=' and len(y.ops) > 1 and f.e(y.ops[0])[0] == 'fld' and f.dominates(y, x) and \
                    strip(pt(f).of(y.ops[1], y)) == v:
                v = f.e(y.ops[0])
                break
    if v[0] == 'fld' and v[1] == ('arg', 0):
        # the member: the file of the same object that is written to elsewhere
        m = v
        used = []
        for g in P.functions.values():
            if g is f or g.q.rsplit('::', 1)[0] != f.q.rsplit('::', 1)[0]:
                continue
            used += [y for y, w in creations(P, g) if strip(w) == m]
        rep.ob('delete', name + ' which it writes to', bool(used), loc(x), 'a file the object does not write to is deleted')
        # not a directory
        ok = guarded_directory(P, f, x, v)
        rep.ob('delete', name + ': no directory', ok, loc(x), 'an (empty) directory of that name is deleted')
        return
    if v[0] == 'arg' and v[1] < f.nargs and depth < 4:
        cs = P.callers.get(f.name, [])
        if made or not cs and f.q not in ROOTS:
            if made:
                rep.ob('delete', name + ' and writes it anew', False, loc(x), 'the file is deleted, but on a path not written anew')
            return
        for c in cs:
            judge(P, rep, c.fn, c, v[1], site, depth + 1, chain + [x])
        return
    rep.ob('delete', name, False, loc(x), 'something is deleted that is neither written anew nor the log file: %s' % brief(v))


ROOTS = set()


def guarded_directory(P, f, x, v):
    """a directory of that name is refused before the deletion"""
    alias = {v}
    for s in f.all():
        pass
    # the member was assigned from a path in this function: the same path counts
    src = None
    for y in f.calls():
        if simple(P.callee_name(y) or '').split('::')[-1] == 'operator=' and f.e(y.ops[0]) == v and f.dominates(y, x):
            src = strip(pt(f).of(y.ops[1], y))
            alias.add(src)
    for y in f.calls():
        q = P.callee_name(y) or ''
        if q.split('::')[-1] in ('is_directory', 'is_regular_file') and y.ops:
            w = strip(pt(f).of(y.ops[0], y))
            if w in alias:
                want = ('eq' if q.endswith('is_directory') else 'ne')
                for c in facts(x):
                    if want == 'eq' and iszero(c, ('res', y.id)) or want == 'ne' and nonzero(c, ('res', y.id)):
                        return True
    return False


def temp(P, rep):
    # the assignments of the directory
    n = 0
    for f in P.functions.values():
        for x in f.calls():
            q = simple(P.callee_name(x) or '')
            if q.split('::')[-1] in ('operator=', 'operator/=', 'operator+=', 'append', 'assign', 'concat', 'swap') and x.ops and is_temp(P, f.e(x.ops[0])):
                n += 1
                rep.saw(f)
                v = strip(pt(f).of(x.ops[1], x))
                parts = v[2:] if v[0] == 'path' else ()
                rep.ob('temp', 'name given in ' + f.q, q.endswith('operator=') and v[0] == 'path' and len(parts) == 1 and has_unique(parts[0]), loc(x),
                       'the temporary directory has no name of its own: %s' % brief(v))
                rep.ob('temp', 'place given in ' + f.q, v[0] == 'path' and v[1][0] == 'call' and v[1][1].endswith('temp_directory_path'), loc(x),
                       'the temporary directory is not below the temporary directory of the system: %s' % brief(v))
                mk = [y for y in f.calls() if re.search(r'filesystem::create_director(y|ies)$', simple(P.callee_name(y) or '')) and strip(pt(f).of(y.ops[0], y)) == v]
                p = f.path_avoiding(None, lambda z: z is x, lambda z: z in mk)
                rep.ob('temp', 'created before it is used in ' + f.q, bool(mk) and p is None, loc(x), 'the directory is taken without having been created by this run')
    if not n:
        rep.ob('temp', 'a directory is chosen', False, '-', 'nothing chooses the temporary directory')
    # the files: below it, unique, and only once it is chosen
    c = 0
    for f in P.fns('TTempStream::TTempStream'):
        for x in f.calls():
            if simple(P.callee_name(x) or '') == STREAM:
                v = strip(pt(f).of(x.ops[1], x))
                g = f
                if v[0] == 'call':
                    gs = P.fns(v[1])
                    if len(gs) == 1:
                        g = gs[0]
                        vs = [strip(r) for r in returned(g)]
                    else:
                        vs = []
                else:
                    vs = [v]
                rep.saw(g)
                c += 1
                rep.ob('temp', 'name of a temporary file', bool(vs) and all(w[0] == 'path' and is_temp(P, w[1]) and len(w) == 3 and has_unique(w[2]) for w in vs), loc(x),
                       'a temporary file has no unique name inside the directory: %s' % [brief(w) for w in vs])
                sets = P.may(lambda z: z.is_call and simple(P.callee_name(z) or '').endswith('operator=') and z.ops and is_temp(P, z.fn.e(z.ops[0])))
                uses = [z for z in g.all() if z.is_call and z.ops and any(is_temp(P, g.e(o)) for o in z.ops) and (P.callee_name(z) or '').split('::')[-1] != 'empty']
                def chosen(z):
                    return z.is_call and any(t in sets for t in P.targets(z))
                def nonempty(z):
                    return False
                ok = bool(uses)
                for u in uses:
                    if chosen(u) or simple(P.callee_name(u) or '').endswith('operator='):
                        continue
                    # every path passes the choice, or the edge on which the directory is known
                    for p in [g.path_avoiding(None, lambda z: z is u, chosen)]:
                        if p is not None and not known_on(P, g, u, chosen):
                            ok = False
                rep.ob('temp', 'the directory is chosen before the first file', ok, loc(x), 'a temporary file can be made while no directory has been chosen')
    if not c:
        raise Broken('no temporary stream found')


def known_on(P, g, u, chosen):
    """a path to u without a choice leads over an edge on which the directory is not empty"""
    es = [y for y in g.calls() if (P.callee_name(y) or '').split('::')[-1] == 'empty' and y.ops and is_temp(P, g.e(y.ops[0]))]
    if not es:
        return False

    def skip(b, s):
        return any(nonempty_edge(c, es) for c in edge_conds(g, b, s))
    return g.path_avoiding(None, lambda z: z is u, chosen, skip=skip) is None


def nonempty_edge(c, es):
    return any(iszero(c, ('res', y.id)) for y in es)


def returned(g):
    """the path values a function returns"""
    out = []
    s = g.raw.get('ret')
    if g.nargs and g.raw.get('sret') is not None or True:
        # through the hidden argument
        for x in g.calls():
            r = x.raw.get('sret')
            if r is not None and g.e(x.ops[r]) == ('arg', 0):
                d = pt(g).built(x, 'def', ('arg', 0), 0)
                out.append(d)
            elif x.ops and g.e(x.ops[0]) == ('arg', 0) and re.search(r'C[12]', x.raw.get('f') or '') and len(x.ops) > 1:
                out.append(pt(g).of(x.ops[1], x))
    return out


def is_temp(P, e):
    if e[0] == 'ld':
        e = e[1]
    return e[0] == 'g' and gname(P, e) == TEMP


def has_unique(v):
    if v[0] == 'call' and v[1].endswith('unique_path'):
        if len(v) < 3:
            return True
        t = v[2]
        # an explicit model must hold enough random places
        if t[0] == 's':
            return t[1].count('%') >= 8 and '/' not in t[1]
        return t[0] in ('call', 'g', 'unknown') and 'model' in repr(t) or t[0] == 'call'
    if v[0] in ('cat',):
        return any(has_unique(w) for w in v[1:])
    return False


def brief(v, d=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if v[0] == 'path':
        return ' / '.join(brief(w, d + 1) for w in v[1:])
    if v[0] == 'cat':
        return ' + '.join(brief(w, d + 1) for w in v[1:])
    if v[0] == 'alt':
        return '(' + ' | '.join(brief(w, d + 1) for w in v[1:]) + ')'
    if v[0] == 's':
        return repr(v[1])
    if v[0] == 'arg':
        return 'argument %d' % v[1]
    if v[0] == 'fld':
        return v[3]
    if v[0] == 'call':
        return v[1].split('::')[-1] + ('(%s)' % ', '.join(brief(w, d + 1) for w in v[2:]) if d < 3 else '()')
    if v[0] == 'c':
        return str(v[1])
    return v[0]


# ------------------------------------------------------------------ streams


def written_params(P):
    """(function, parameter) written to as a stream"""
    if hasattr(P, '_wparams'):
        return P._wparams
    out = set()
    changed = True
    while changed:
        changed = False
        for f in P.functions.values():
            for x in f.calls():
                for k, o in enumerate(x.ops):
                    e = root(f.e(o))
                    if e[0] != 'arg' or (f.name, e[1]) in out:
                        continue
                    if is_write(P, x, k, out):
                        out.add((f.name, e[1]))
                        changed = True
    P._wparams = out
    return out


def root(e):
    """the pointer itself, smart pointers and bases taken off"""
    while isinstance(e, tuple) and e:
        if e[0] in ('bc', 'base') and len(e) > 1 and isinstance(e[1], tuple):
            e = e[1]
        else:
            break
    return e


def is_write(P, x, k, params):
    n = {t.split('::')[-1] for t in P.target_qs(x)} | {(P.callee_name(x) or '').split('::')[-1]}
    if k == 0 and (n & WRITES or 'CopyFrom' in n or 'operator<<' in n):
        return True
    return any((t, k) in params for t in P.targets(x))


def streams(P, rep):
    wp = written_params(P)
    total = 0
    for f in list(P.functions.values()):
        for x in f.calls():
            if simple(P.callee_name(x) or '') != STREAM or len(x.ops) < 3:
                continue
            if f.q in ('System::Classes::TFileStream::TFileStream',):
                continue
            total += 1
            rep.saw(f)
            b = opened(P, x)
            v = strip(pt(f).of(x.ops[1], x))
            name = '%s opens %s' % (f.q, brief(v))
            if is_open_base(P, f, x):
                # the base itself: P01
                continue
            if b is None:
                vv = f.e(x.ops[2])
                if vv[0] == 'arg':
                    continue        # the caller's choice
                rep.ob('inputs', name, False, loc(x), 'the mode in which the file is opened is not known')
                continue
            w = any(m & 16 or m & 32 for m in b)
            if not w:
                rep.ob('inputs', name, True, loc(x), '')
                continue
            if f.e(x.ops[0]) == ('arg', 0):
                # a stream class derived from it: its users write
                continue
            used = writes_to(P, f, x, wp)
            rep.ob('inputs', name, used, loc(x), 'a file that is only read is opened for writing')
            if any(m & 32 for m in b):
                # emptied: either a file made anew, or guarded by a test that it is not there
                keeps(P, rep, f, x, v, b)
    if total < 10:
        raise Broken('file streams not found')


def is_open_base(P, f, x):
    return any(x2.is_call and 'MemBlockManager' in (P.callee_name(x2) or '') for x2 in f.calls())


def keeps(P, rep, f, x, v, b):
    """where the same file is also opened to be kept, it is emptied only if it does not exist"""
    again = [y for y in f.calls() if y is not x and simple(P.callee_name(y) or '') == STREAM and len(y.ops) > 2 and strip(pt(f).of(y.ops[1], y)) == v
             and (opened(P, y) is not None and not any(m & 32 for m in opened(P, y)))]
    if not again:
        # a class that keeps its file opens it elsewhere
        return
    tests = [y for y in f.calls() if re.search(r'(^|::)(FileExists|exists|is_regular_file)$', simple(P.callee_name(y) or '')) and y.ops and
             strip(pt(f).of(y.ops[0], y)) == v]
    ok = any(iszero(c, ('res', y.id)) for y in tests for c in facts(x))
    rep.ob('truncate', '%s empties %s only if it is not there' % (f.q, brief(v)), ok, loc(x), 'the file is emptied although it may exist')


def writes_to(P, f, x, wp):
    o = f.e(x.ops[0])
    # objects the stream is kept in
    vals = {o}
    places = set()
    changed = True
    while changed:
        changed = False
        for y in f.all():
            if y.op == 'store' and root(f.e(y.ops[0])) in vals:
                p = f.e(y.ops[1])
                if p not in places:
                    places.add(p)
                    changed = True
            elif y.is_call and y.op:
                n = (P.callee_name(y) or '').split('::')[-1]
                if n in ('reset', 'unique_ptr', 'shared_ptr', 'operator=', '__shared_ptr') and len(y.ops) > 1 and root(f.e(y.ops[1])) in vals and f.e(y.ops[0]) not in vals:
                    vals.add(f.e(y.ops[0]))
                    changed = True
                elif n in ('get', 'operator->', 'operator*', '__get_deleter', '_M_ptr') and y.ops and root(f.e(y.ops[0])) in vals | places and ('res', y.id) not in vals:
                    vals.add(('res', y.id))
                    changed = True
        for p in list(places):
            if ('ld', p) not in vals:
                vals.add(('ld', p))
                changed = True
        for y in f.all():
            if y.op == 'phi':
                if any(f.e(v) in vals for _, v in y.raw['in']) and ('phi', y.id) not in vals:
                    vals.add(('phi', y.id))
                    changed = True
    for y in f.calls():
        for k, q in enumerate(y.ops):
            e = root(f.e(q))
            if (e in vals or e[0] == 'ld' and (e[1] in places or e[1] in vals)) and is_write(P, y, k, wp):
                return True
    # kept in a member: written through it somewhere
    for p in places:
        if p[0] == 'fld':
            for g in P.functions.values():
                for y in g.calls():
                    for k, q in enumerate(y.ops):
                        e = root(g.e(q))
                        if e[0] == 'ld' and e[1][0] == 'fld' and e[1][2:] == p[2:] and is_write(P, y, k, wp):
                            return True
    return False
