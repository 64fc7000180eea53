"""Bounded enumeration of acyclic control-flow paths (no solver: conditions are only compared syntactically), and a
finite typestate propagation."""
from .ir import truth, mk_cmp, lin_of, lin_add, lin_make, lin_scale, neg
from .build import Broken


class Path:
    __slots__ = ('conds', 'env', 'blocks', 'instrs', 'f', 'raw')

    def val(self, v):
        """expression of an operand, phis resolved along the path"""
        return self.res(self.f.e(v))

    def res(self, e):
        return resolve(self.f, e, self.env)


def resolve(f, e, env, d=0):
    if not isinstance(e, tuple) or not e or d > 40:
        return e
    k = e[0]
    if k in ('c', 's', 'arg', 'g', 'fn', 'null', 'alloca'):
        return e
    if k == 'ld' and e[1][0] == 'alloca':
        return env.get(('m', e[1][1]), e)
    if k == 'phi':
        v = env.get(e[1])
        return v if v is not None else e
    if k == 'lin':
        acc = (e[1], {})
        for t, c in e[2]:
            acc = lin_add(acc, lin_scale(lin_of(resolve(f, t, env, d + 1)), c), 1)
        return lin_make(acc)
    if k == 'cmp':
        return mk_cmp(e[1], resolve(f, e[2], env, d + 1), resolve(f, e[3], env, d + 1))
    if k == 'not':
        return neg(resolve(f, e[1], env, d + 1))
    return tuple(resolve(f, s, env, d + 1) if isinstance(s, tuple) else s for s in e)


def const_truth(c):
    if c[0] == 'c':
        return bool(c[1])
    if c[0] == 'not' and c[1][0] == 'c':
        return not c[1][1]
    if c[0] == 'cmp' and c[2][0] == 'c' and c[3][0] == 'c':
        a, b = c[2][1], c[3][1]
        return {'eq': a == b, 'ne': a != b}.get(c[1], {'l': {'t': a < b, 'e': a <= b}, 'g': {'t': a > b, 'e': a >= b}}.get(c[1][1:2], {}).get(c[1][2:3]))
    if c[0] == 'cmp' and c[2] == c[3]:
        return c[1] in ('eq', 'ule', 'uge', 'sle', 'sge')
    return None


def paths(f, start, goal, stop=lambda x: False, limit=4000, normal=True, backs=0, within=None, mem=()):
    """acyclic paths from just after instruction `start` (or the entry) to an instruction satisfying goal.
    start may be a (block, previous block) pair.  Conditions that are decided by constants prune; equal conditions
    with opposite truth prune."""
    succ = f.nsucc if normal else f.succ
    out = []
    if start is None:
        b0, p0, prev = 0, 0, None
    elif isinstance(start, tuple):
        b0, p0, prev = start[0], 0, start[1]
    else:
        b0, p0, prev = start.bb, start.pos + 1, None
    work = [(b0, p0, prev, {}, (), (), frozenset())]
    n = 0
    while work:
        b, p, prev, env, conds, blocks, seen = work.pop()
        n += 1
        if n > limit * 20:
            raise Broken('too many paths in %s' % f.q)
        if prev is not None and p == 0:
            new = {}
            for x in f.blocks[b]:
                if x.op != 'phi':
                    break
                for pb, v in x.raw['in']:
                    if pb == prev:
                        new[x.id] = resolve(f, f.e(v), env)
            if new:
                env = dict(env)
                env.update(new)
        end = None
        for x in f.blocks[b][p:]:
            if mem:
                m = mem_effect(f, x, mem, env)
                if m:
                    env = dict(env)
                    env.update(m)
            if goal(x):
                q = Path()
                q.conds, q.env, q.blocks, q.f = list(conds), env, blocks + (b,), f
                q.raw = x
                out.append(q)
                if len(out) > limit:
                    raise Broken('too many paths in %s' % f.q)
                end = 'goal'
                break
            if stop(x):
                end = 'stop'
                break
        if end:
            continue
        key = b if p == 0 else -1 - b
        if key in seen:
            continue
        seen2 = seen | {key}
        t = f.blocks[b][-1]
        for s in dict.fromkeys(succ[b]):
            if s in seen2:
                continue
            if within is not None and s not in within:
                continue
            cs = []
            if t.op == 'br' and len(t.raw['s']) == 2 and t.raw['s'][0] != t.raw['s'][1]:
                tr = t.raw['s'][0] == s
                c = truth(resolve(f, f.e(t.ops[0]), env), tr)
                cs = [c]
            elif t.op == 'switch':
                e = resolve(f, f.e(t.ops[0]), env)
                vs = [v for v, d in t.raw['cases'] if d == s]
                if e[0] == 'c':
                    m = [d for v, d in t.raw['cases'] if v == e[1]]
                    if s != (m[0] if m else t.raw['def']):
                        continue
                elif s == t.raw['def'] and not vs:
                    cs = [mk_cmp('ne', e, ('c', v)) for v, d in t.raw['cases']]
                elif vs and s != t.raw['def']:
                    cs = [mk_cmp('eq', e, ('c', vs[0]))] if len(vs) == 1 else [('in', e, tuple(vs))]
            bad = False
            for c in cs:
                tv = const_truth(c)
                if tv is False or neg(c) in conds:
                    bad = True
                if c[0] == 'cmp' and c[1] == 'eq' and c[3][0] == 'c':
                    for d in conds:
                        if d[0] == 'cmp' and d[1] == 'eq' and d[2] == c[2] and d[3][0] == 'c' and d[3] != c[3]:
                            bad = True
            if bad:
                continue
            cs = [c for c in cs if const_truth(c) is None]
            work.append((s, 0, b, env, conds + tuple(cs), blocks + (b,), seen2))
    return out


def mem_effect(f, x, mem, env):
    """changes of the scalar variables (allocas) listed in mem"""
    if x.op == 'store':
        a = f.e(x.ops[1])
        if a[0] == 'alloca' and a[1] in mem:
            return {('m', a[1]): resolve(f, f.e(x.ops[0]), env)}
    elif x.is_call:
        if (x.raw.get('f') or '').startswith('llvm.'):
            return None
        out = {}
        for o in x.ops:
            if isinstance(o, int) and f.e(o)[0] == 'alloca' and f.e(o)[1] in mem:
                out[('m', f.e(o)[1])] = ('mem', f.e(o)[1], x.id)
        return out
    return None


def typestate(f, init, step, edge=None, normal=True):
    """may-states at the start of every block.  step(instr, state) -> state | set | None (path ends);
    edge(conditions, state) -> state or None (infeasible)"""
    from .lib import edge_conds
    succ = f.nsucc if normal else f.succ
    inn = [set() for _ in f.blocks]         # (state, what is known of the way scopes were left)
    inn[0] = {(init, ())}
    work = [0]
    while work:
        b = work.pop()
        outs = [(o, env) for st, env in inn[b] for o in flow(f, b, {st}, step, None)]
        for s in dict.fromkeys(succ[b]):
            cs = edge_conds(f, b, s)
            new = set()
            for st, env in outs:
                w = f.step_way(env, b, s)
                r = (edge(cs, st) if edge else st) if w is not None else None
                if r is not None:
                    new.add((r, w))
            if not new <= inn[s]:
                inn[s] |= new
                work.append(s)
    return [{st for st, env in i} for i in inn]


def flow(f, b, states, step, until):
    cur = set(states)
    for x in f.blocks[b]:
        if x is until:
            break
        nxt = set()
        for st in cur:
            r = step(x, st)
            if r is None:
                continue
            if isinstance(r, (set, frozenset)):
                nxt |= r
            else:
                nxt.add(r)
        cur = nxt
    return cur


def states_at(f, inn, step, x):
    return flow(f, x.bb, inn[x.bb], step, x)
