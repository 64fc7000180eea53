"""P20 what a base, a container or a description may lack is used only where it is there."""
from sa.lib import *
from sa.absint import AI, stdcalls, width
from sa.terms import simple
from sa.report import Broken

ASSUMPTIONS = [
    'a smart pointer or an iterator is used through its own operators',
    'pages of the base and memory that is allocated are there (reading beyond the base raises an error: P03)',
    'conditions the analysis cannot evaluate may turn out either way',
]
OBJ = ('obj',)
END = ('end',)
IT = ('it',)
MAXSUB = 8                      # numbers of subordinate elements told apart: 0 .. MAXSUB-1, "more" counts as the last
TREE = re.compile(r'^Tree::')
NODE = ('node',)

TABLES = ['table_config', 'table_configsave', 'table_params', 'table_files', 'table_dbschema', 'table_configcas', 'table_configcassave', 'table__extensionsinfo']
DEPOT = ['table_depot', 'table_users', 'table_objects', 'table_versions', 'table_labels', 'table_history', 'table_lastestversions',
         'table_externals', 'table_selfrefs', 'table_outrefs']
FIND = re.compile(r'^std::(__cxx11::)?(map|multimap|set|unordered_map|unordered_set)<.*>::(find|lower_bound|upper_bound)$')
ENDOF = re.compile(r'^std::(__cxx11::)?(map|multimap|set|unordered_map|unordered_set|vector|list|deque)<.*>::c?end$')
FREE = re.compile(r'^(operator delete(\[\])?|free)$')
STATICSTD = re.compile(r'^_ZNK?St|^_ZNK?9__gnu_cxx|^_ZNK?5boost')


def root(e):
    while e[0] in ('fld', 'elt') and isinstance(e[1], tuple):
        e = e[1]
    return e


def mentions_any(k, s):
    return isinstance(k, tuple) and (k in s or any(mentions_any(c, s) for c in k))


class Null(AI):
    """site: the call that may find nothing; fields: members that are null; tree: the text tree is modelled"""
    widen = 60

    def __init__(self, P, site=None, fields=(), tree=False, shared=None, limit=60000, maybe=()):
        AI.__init__(self, P, call=self.hook, limit=limit)
        self.site, self.fields, self.tree = site, fields, tree
        self.hits = {}
        self.maybe = set(maybe)     # members that may or may not be set
        self.reads = set()          # places where the absent value was looked at at all
        self.memo = {} if shared is None else shared
        self.deep = 0
        self.visited = set()

    # ---- values behind addresses
    def base(self, fn, o, env):
        while True:
            v = self.val(fn, o, env)
            if v is not None:
                return v
            if not isinstance(o, int) or o < fn.nargs:
                return None
            x = fn.ins[o]
            if x.op in ('getelementptr', 'bitcast'):
                o = x.ops[0]
                continue
            return None

    def isptr(self, fn, o):
        if isinstance(o, dict):
            return o.get('k') == 'null'
        return (fn.args[o][1] if o < fn.nargs else fn.ins[o].raw.get('t')) == 'ptr'

    def hit(self, x, why):
        self.hits.setdefault(x, why)

    def isfield(self, e):
        return e[0] == 'fld' and (e[2], e[3]) in self.fields

    def push(self, fn, a, s, env, m, inn, work, seen):
        phis = {('phi', x.id) for x in fn.blocks[s] if x.op == 'phi'}
        if phis:        # cells of the object of the last pass
            stale = [k for k in m if mentions_any(k, phis)]
            if stale:
                if any(k[0] == 'kept' for k in stale):
                    self.hit(self.site, 'is kept')
                m = {k: v for k, v in m.items() if k not in stale}
        if self.tree and self.count.get((fn, s), 0) > self.widen:
            m = {}
        AI.push(self, fn, a, s, env, m, inn, work, seen)

    def step(self, fn, x, env, m, depth):
        if x.op == 'load':
            if self.base(fn, x.ops[0], env) == 0 and self.isptr(fn, x.ops[0]):
                self.hit(x, 'is read through')
                return 'dead', None
            e = fn.e(x.ops[0])
            if self.isfield(e) and e not in m:
                env[x.id] = 0
                return None
            if e[0] == 'fld' and (e[2], e[3]) in self.maybe and e not in m:
                out = []
                for v in (0, OBJ):
                    e2, m2 = dict(env), dict(m)
                    e2[x.id] = m2[e] = v
                    out.append((e2, m2))
                return 'fork', out
        elif x.op == 'store':
            if self.base(fn, x.ops[1], env) == 0:
                self.hit(x, 'is written through')
                return 'dead', None
            e = fn.e(x.ops[1])
            if self.site is not None and x.ops[0] == self.site.id and fn is self.site.fn and root(e)[0] != 'alloca' and "'fld'" in repr(e):
                m.pop(('kept', e), None)
                if self.val(fn, x.ops[0], env) == 0:
                    m[('kept', e)] = 1
            if self.isfield(e):         # set: whatever is not nothing is there
                v = self.val(fn, x.ops[0], env)
                m[e] = 0 if v == 0 else OBJ
                return None
        elif x.op == 'getelementptr':
            env.pop(x.id, None)
            return None
        return AI.step(self, fn, x, env, m, depth)

    # ---- the text tree
    def cnt(self, node, m):
        return m.get(('cnt', node))

    def counts(self, node, m):
        k = self.cnt(node, m)
        return [k] if k is not None else list(range(MAXSUB))

    def child(self, node, i, k):
        if i >= k:
            return 0
        return ('node', node, i)

    def accessor(self, fn, x, q, argv, m, env):
        r = self.base(fn, x.ops[0], env) if x.ops else None
        if r is None or not (isinstance(r, tuple) and r[0] == 'node'):
            r = ('node', ('?', fn.q, fn.e(x.ops[0]) if x.ops else x.id), 0)
        last = q.split('::')[-1]
        if last in ('get_num_subnode',):
            return [('alt', k, {('cnt', r): k}) for k in self.counts(r, m)]
        if last in ('get_first', 'get_last'):
            return [('alt', self.child(r, 0 if last == 'get_first' else k - 1, k) if k else 0, {('cnt', r): k}) for k in self.counts(r, m)]
        if last == 'get_subnode':
            a = argv[1] if len(argv) > 1 else None
            out = []
            for k in self.counts(r, m):
                if isinstance(a, int):
                    out.append(('alt', self.child(r, a, k), {('cnt', r): k}))
                else:
                    out.append(('alt', 0, {('cnt', r): k}))
                    if k:
                        out.append(('alt', self.child(r, 0, k), {('cnt', r): k}))
            return out
        if last == 'operator[]':        # raises an error when there is no such element
            a = argv[1] if len(argv) > 1 else None
            return (('node', r, min(a, MAXSUB) if isinstance(a, int) else 0),)
        if last == 'get_parent':
            return [0, ('node', ('?', 'parent'), 0)]
        if last == 'get_next':
            par, i = r[1], r[2]
            for k in [k for k in m if k[0] == 'cnt' and self.under(k[1], r)]:
                del m[k]                # what is known of an element is forgotten when the next one is taken
            if par and par[0] == 'node' and self.cnt(par, m) is not None:
                return (self.child(par, min(i + 1, MAXSUB), self.cnt(par, m)),)
            i = min(i + 1, MAXSUB)
            return [0, ('node', par, i)]
        return None

    # ---- calls
    def hook(self, ai, fn, x, argv, m, env):
        P = self.P
        q = simple(P.callee_name(x) or '')
        n = x.raw.get('f') or ''
        last = q.split('::')[-1]
        g = P.functions.get(x.callee)
        if FREE.match(q):
            return (None,)
        vals = [self.base(fn, o, env) if self.isptr(fn, o) else None for o in x.ops]
        nested = g is not None and not (self.tree and TREE.match(g.q))
        # a call on or with nothing
        for i, v in enumerate(vals):
            if v != 0 or isinstance(x.ops[i], dict) and not nested:
                continue
            if g is not None:
                if not nested:
                    if i == 0:
                        self.hit(x, 'is used by ' + q)
                        return 'dead'
                continue
            if x.callee is None:
                if i == 0:
                    self.hit(x, 'is called')
                    return 'dead'
            elif (i == 0 and STATICSTD.match(n)) or q in ('memcpy', 'memcmp', 'strlen', 'strcmp', 'memmove') or q.startswith('llvm.mem'):
                self.hit(x, 'is given to ' + last)
                return 'dead'
        if q == 'V8File::get_catalog' and x.ops and m.get(('iscat', fn.e(x.ops[0]))) == 1:
            return (OBJ,)
        if x is self.site:
            e = self.find(fn, x)
            if e is not None:
                return [END, IT]
            return [0, OBJ]
        r = self.iterators(fn, x, q, last, m, env)
        if r is not None:
            return r
        # what a predicate has told
        if q == 'V8File::is_catalog' and x.ops:
            k = ('iscat', fn.e(x.ops[0]))
            return [('alt', v, {k: v}) for v in ([m[k]] if k in m else [0, 1])]
        if self.site is None and nested:        # what a callee may set
            for o in x.ops:
                if isinstance(o, int) and o >= fn.nargs and fn.ins[o].op == 'alloca':
                    m.pop(fn.e(o), None)
        if self.tree:
            r = self.trees(fn, x, q, last, argv, m, env)
            if r is not None:
                return r
        e = fn.e(x.id)
        if e[0] == 'ld' and self.isfield(e[1]) and e[1] not in m:
            return (0,)
        if nested:
            r = self.nest(fn, x, g, argv, vals, m, env)
            if r is not None:
                return r
        return stdcalls(ai, fn, x, argv, m, env)

    def trees(self, fn, x, q, last, argv, m, env):
        if TREE.match(q) and x.ops:
            return self.accessor(fn, x, q, argv, m, env)
        # unique_ptr<Tree>
        dn = self.P.callee_name(x) or ''
        sret = x.raw.get('sret')
        if sret is not None and last in ('parse_1Ctext', 'parse_1Cstream', 'get_tree'):
            return [('alt', None, {('up', root(fn.e(x.ops[sret]))): v}) for v in self.parsed() + [('node', ('root', x.id), 0)]]
        if dn.startswith('std::unique_ptr<Tree') or (q.startswith('std::unique_ptr') and 'Tree' in (x.raw.get('f') or '')):
            k = ('up', root(fn.e(x.ops[0]))) if x.ops else None
            node = ('node', ('ptr', fn.q) + tuple(map(str, k[1:])), 0) if k else None
            if last in ('operator bool', 'operator->', 'get', 'operator*'):
                alts = [m[k]] if k in m else self.parsed() + [node]
                if last == 'operator bool':
                    return [('alt', int(v != 0), {k: v}) for v in alts]
                if last == 'get':
                    return [('alt', v, {k: v}) for v in alts]
                if k in m and m[k] == 0:
                    self.hit(x, 'is used through the smart pointer')
                    return 'dead'
                if k not in m and self.site is None:
                    return [('alt', v, {k: v}) for v in alts]
                return (m.get(k),)
            if last == 'unique_ptr' and len(x.ops) == 2:
                s = ('up', root(fn.e(x.ops[1])))
                if s in m:
                    m[k] = m[s]
                return (None,)
        if q in ('std::operator==', 'std::operator!=') and 'unique_ptr' in (x.raw.get('f') or '') and 'Tree' in (x.raw.get('f') or ''):
            k = ('up', root(fn.e(x.ops[0])))
            alts = [m[k]] if k in m else [0, ('node', ('ptr', fn.q) + tuple(map(str, k[1:])), 0)]
            return [('alt', int((v == 0) == last.endswith('==')), {k: v}) for v in alts]
        return None

    def parsed(self):
        """may a text that was read give no tree at all"""
        c = self.memo.setdefault('parsed', [])
        if not c:
            fs = [f for f in self.P.functions.values() if f.q == 'parse_flow']
            c.append([0] if any(f.raw.get('ret') != 'ptr' or may_be_null(self.P, f) for f in fs) or not fs else [])
        return c[0]

    # ---- iterators
    def find(self, fn, x):
        return True if FIND.match(self.P.callee_name(x) or '') else None

    def cell(self, fn, o, env, m):
        v = self.val(fn, o, env)
        if isinstance(v, tuple) and v in (END, IT):
            return v
        r = root(fn.e(o))
        for k, v in m.items():
            if isinstance(k, tuple) and k and k[0] in ('alloca', 'fld') and root(k) == r and v in (END, IT):
                return v
        return None

    def iterators(self, fn, x, q, last, m, env):
        if self.site is None or not self.find(self.site.fn, self.site):
            return None
        dn = self.P.callee_name(x) or ''
        n = x.raw.get('f') or ''
        if ENDOF.match(dn):
            return (END,)
        if last in ('operator==', 'operator!=') and len(x.ops) == 2:
            a, b = (self.cell(fn, o, env, m) for o in x.ops)
            if a is not None and b is not None and (END in (a, b)):
                return (int((a == b) == (last == 'operator==')),)
            return None
        if last in ('operator->', 'operator*') and '_Rb_tree' in n + dn or last in ('operator->', 'operator*') and '_iterator' in dn:
            if self.cell(fn, x.ops[0], env, m) == END:
                self.hit(x, 'is looked at')
                return 'dead'
        if last.startswith('_Rb_tree_') and len(x.ops) == 2:      # conversion between the kinds of iterators
            v = self.cell(fn, x.ops[1], env, m)
            if v is not None:
                m[root(fn.e(x.ops[0]))] = v
                return (None,)
        if last == 'erase':
            for o in x.ops[1:]:
                if self.cell(fn, o, env, m) == END:
                    self.hit(x, 'is removed')
                    return 'dead'
        return None

    # ---- callees in the context of the call
    def nest(self, fn, x, g, argv, vals, m, env):
        args = {}
        for i, v in enumerate(vals):
            if i >= g.nargs:
                break
            if v == 0 and self.isptr(fn, x.ops[i]):
                args[i] = 0
            elif isinstance(v, tuple) and v[0] in ('node', 'obj') and not self.gep(fn, x.ops[i]):
                args[i] = v
        mem = {}
        back = []
        for i, o in enumerate(x.ops):
            if i >= g.nargs or not self.isptr(fn, o) or isinstance(o, dict):
                continue
            e = fn.e(o)
            back.append((i, e))
            for k, v in m.items():
                if k[0] == 'fld' and k[1] == e:
                    mem[('fld', ('arg', i)) + k[2:]] = v
                elif k[0] == 'up' and k[1] == root(e):
                    mem[('up', ('arg', i))] = v
                elif k[0] == 'iscat' and k[1] == e:
                    mem[('iscat', ('arg', i))] = v
        special = any(v == 0 or isinstance(v, tuple) and v[0] == 'node' for v in args.values()) or any(v == 0 for v in mem.values())
        if not special and not (self.fields and self.touches(g)):
            return None
        if self.deep >= 8:
            return None
        for k, v in m.items():
            if k[0] == 'cnt' and any(self.under(k[1], a) or self.under(a, k[1]) or k[1] == a[1:2] for a in args.values() if isinstance(a, tuple) and a[0] == 'node'):
                mem[k] = v
        key = (g, frozenset(args.items()), frozenset(mem.items()))
        if key in self.memo:
            outs, hits = self.memo[key]
            if outs is None:
                return None
        else:
            self.memo[key] = (None, {})
            self.deep += 1
            sub = Null(self.P, self.site, self.fields, self.tree, self.memo, self.limit)
            sub.deep, sub.widen = self.deep, self.widen
            outs = sub.run(g, args, mem)
            self.visited |= sub.visited | {g}
            self.deep -= 1
            hits = sub.hits
            self.memo[key] = (outs, hits)
        for h, w in hits.items():
            self.hit(h, w)
        self.visited.add(g)
        alts = {}
        for kind, v, mm in outs:
            if kind != 'ret':
                continue
            ch = {}
            for k, c in mm:
                if k[0] == 'cnt':
                    ch[k] = c
                elif k[0] == 'fld' and k[1][0] == 'arg':
                    for i, e in back:
                        if k[1][1] == i:
                            ch[('fld', e) + k[2:]] = c
            alts[(v, frozenset(ch.items()))] = ('alt', v, ch)
        if not alts:
            return 'dead'
        if len(alts) > 12:
            return [('alt', v, {}) for v in {a[1] for a in alts.values()}]
        return list(alts.values())

    def gep(self, fn, o):
        return isinstance(o, int) and o >= fn.nargs and self.val(fn, o, {}) is None and fn.ins[o].op == 'getelementptr'

    @staticmethod
    def under(a, b):
        while isinstance(a, tuple) and a and a[0] == 'node':
            if a == b:
                return True
            a = a[1]
        return False

    def touches(self, g):
        c = self.memo.setdefault('touch', {})
        if g not in c:
            c[g] = False
            for x in g.all():
                if x.op == 'load' and self.isfield(g.e(x.ops[0])):
                    c[g] = True
                elif x.is_call:
                    e = g.e(x.id)
                    if e[0] == 'ld' and self.isfield(e[1]):
                        c[g] = True
        return c[g]


def may_be_null(P, f):
    """does the function return nothing on some path (directly)"""
    out = []

    def leaves(e, seen):
        if e in seen:
            return
        seen.add(e)
        if e[0] == 'phi':
            for b, v in f.ins[e[1]].raw['in']:
                leaves(f.e(v), seen)
        elif e[0] == 'sel':
            leaves(e[2], seen)
            leaves(e[3], seen)
        else:
            out.append(e)
    for r in f.rets():
        if r.ops:
            leaves(f.e(r.ops[0]), set())
    return any(v in (('c', 0), ('null',)) for v in out)


SKIP = re.compile(r'^(T_1CD::get_block|MemBlockManager::|V8Object::get_data|Index::unpack_leafpage|Tree::|V8Catalog::CreateCatalog)')


def filled(P, f, x):
    """a constructor searches in a collection it has filled itself, with the same keys"""
    c = f.e(x.ops[0])
    last = f.q.split('::')
    return len(last) > 1 and last[-1] == last[-2] and c[0] == 'fld' and c[1] == ('arg', 0) and any(
        y is not x and y.ops and f.e(y.ops[0]) == c and simple(P.callee_name(y) or '').split('::')[-1] == 'operator[]'
        and f.may_follow(y, x) and not f.may_follow(x, y) for y in f.calls())


def walk_sites(P, sources):
    for f in sorted(P.functions.values(), key=lambda f: f.name):
        for x in f.calls():
            ts = P.target_qs(x) & sources
            if ts:
                yield f, x, sorted(ts)[0]


def short(x):
    return 'line of %s' % x.fn.q


def run(P, rep):
    rep.rule('lookup', 'the result of a look-up that may find nothing is used only after that was ruled out', 20)
    rep.rule('iterator', 'an element searched in a collection is looked at only when it was found', 6)
    rep.rule('tree', 'an element of a text tree is used only where the tree is known to have it', 6)
    rep.rule('local', 'a pointer that is empty at first is used only where it has been set', 20)
    rep.rule('table', 'the tables a base may lack are used only where they are there', 20)

    # --- look-ups
    sources = {f.q for f in P.functions.values() if f.raw.get('ret') == 'ptr' and not SKIP.match(f.q) and may_be_null(P, f)}
    grown = True
    while grown:        # functions that hand such a result on
        grown = False
        for f in P.functions.values():
            if f.raw.get('ret') == 'ptr' and f.q not in sources and not SKIP.match(f.q):
                for r in f.rets():
                    e = f.e(r.ops[0]) if r.ops else None
                    if e and e[0] == 'call' and any(x.id == e[1] and P.target_qs(x) & sources for x in f.calls()):
                        sources.add(f.q)
                        grown = True
    memo = {}
    seen = 0
    for f, x, q in walk_sites(P, sources):
        rep.saw(f)
        report(P, rep, 'lookup', '%s in %s' % (q, f.q), f, x, Null(P, x))
    # --- iterators
    for f in sorted(P.functions.values(), key=lambda f: f.name):
        for x in f.calls():
            if FIND.match(P.callee_name(x) or ''):
                rep.saw(f)
                if filled(P, f, x):
                    continue
                report(P, rep, 'iterator', 'search in ' + f.q, f, x, Null(P, x))
    # --- trees
    users = {}
    for f in P.functions.values():
        if TREE.match(f.q):
            continue
        for x in f.calls():
            if any(re.match(r'^Tree::(get_(first|next|last|subnode|num_subnode)|get_parent|operator\[\])$', t) for t in P.target_qs(x)):
                users.setdefault(f, []).append(x)
    given = set()          # functions that get a node from another: judged in the context of their callers
    for f in P.functions.values():
        if TREE.match(f.q):
            continue
        for x in f.calls():
            g = P.functions.get(x.callee)
            if g in users and any('Tree' in (d or '') for d in (g.raw.get('dt') or [])):
                given.add(g)
    done = set()
    for f in sorted(users, key=lambda f: f.name):
        if f in given or f.q in ('parse_flow', 'outtext'):
            continue
        rep.saw(f)
        a = exact(P, f)
        done |= a.visited | {f}
        where = {}
        for h, w in a.hits.items():
            where.setdefault(h.fn, []).append((h, w))
        for g in sorted((a.visited & set(users)) | {f}, key=lambda g: g.name):
            rep.saw(g)
            bad = where.pop(g, None)
            rep.ob('tree', '%s (%d uses)' % (g.q, len(users[g])), not bad, loc(bad[0][0]) if bad else floc(g),
                   'an element of the tree that may be missing %s' % bad[0][1] if bad else '')
        for g, bad in where.items():
            rep.ob('tree', g.q, False, loc(bad[0][0]), 'an element of the tree that may be missing ' + bad[0][1])
    for g in sorted(given - done, key=lambda g: g.name):
        a = exact(P, g)
        bad = list(a.hits.items())
        rep.ob('tree', '%s (%d uses)' % (g.q, len(users[g])), not bad, loc(bad[0][0]) if bad else floc(g), 'an element of the tree that may be missing ' + bad[0][1] if bad else '')
    maybe = {('Tree', n) for n in ('first', 'last', 'next', 'prev', 'parent')}
    for f in sorted(P.functions.values(), key=lambda f: f.name):
        if not TREE.match(f.q) or '~' in f.q or any(x.op == 'load' and f.e(x.ops[0])[2:] == ('Tree', 'num_subnode') for x in f.all()):
            continue
        rep.saw(f)
        a = Null(P, maybe=maybe)
        outs = a.run(f)
        bad = list(a.hits.items())
        rep.ob('tree', 'within ' + f.q, not bad, loc(bad[0][0]) if bad else floc(f), 'an element that may be missing ' + bad[0][1] if bad else '')
        if (f.raw.get('dt') or [''])[0].endswith('&'):
            rep.ob('tree', 'result of ' + f.q, all(o[1] != 0 for o in outs if o[0] == 'ret'), floc(f), 'the result is a null reference when the element is missing')
    # --- pointers left empty on some way through a function
    reach = P.reach_closure([f.name for f in P.functions.values() if f.q == 'main'])
    for n in sorted(reach):
        f = P.functions.get(n)
        if f is None or '~' in f.q or not any(isinstance(o, dict) and o.get('k') == 'null' for x in f.all() if x.op in ('phi', 'select', 'store')
                                              for o in ([v for _, v in x.raw['in']] if x.op == 'phi' else x.ops)):
            continue
        a = Null(P, limit=12000)
        a.widen = 20
        try:
            a.run(f)
        except Broken:
            continue            # too many ways: left to the rules above
        rep.saw(f)
        bad = list(a.hits.items())
        rep.ob('local', f.q, not bad, loc(bad[0][0]) if bad else floc(f), 'a pointer that may have been left empty ' + bad[0][1] if bad else '')
    # --- tables
    for c, n in [('T_1CD', n) for n in TABLES + DEPOT] + [('Table', 'file_blob')]:
        fields = {(c, n)}
        fs = [f for f in P.functions.values() if Null(P, None, fields).touches(f)]
        if not fs:
            continue
        for f in sorted(fs, key=lambda f: f.name):
            rep.saw(f)
            a = Null(P, None, fields, limit=200000)
            a.run(f)
            bad = list(a.hits.items())
            rep.ob('table', '%s in %s' % (n[6:].upper() if c == 'T_1CD' else 'blobs', f.q), not bad, loc(bad[0][0]) if bad else floc(f),
                   ('the table' if c == 'T_1CD' else 'the file of blobs') + ', which may be missing, ' + bad[0][1] if bad else '')


def exact(P, f):
    """as exact as the size of the function allows; widened, less is known of the elements and less is reported"""
    for widen in (4000, 60, 8):
        try:
            a = Null(P, tree=True, limit=300000 if widen > 60 else 60000)
            a.widen = widen
            a.run(f)
            return a
        except Broken:
            if widen == 8:
                raise


def report(P, rep, rule, inst, f, x, a):
    for o in a.run(f):
        if o[0] == 'ret' and any(k[0] == 'kept' for k, _ in o[2]):
            a.hit(x, 'is kept')
    bad = list(a.hits.items())
    rep.ob(rule, inst, not bad, loc(bad[0][0]) if bad else loc(x),
           'what may not have been found (line %s) %s' % (loc(x).split(':')[-1], bad[0][1]) if bad else '')
