"""P07 errors reach the exit code of the command line tool."""
from sa.lib import *
from sa.build import Broken
from sa.paths import paths
from rules.p06 import ret_cases

ASSUMPTIONS = ['reporting a message does not itself fail', 'an exception out of a destructor ends the process with an error code']
ERROR = None


def run(P, rep):
    rep.rule('sticky', 'every message of the state error, whatever the verbosity and log settings, is remembered, and nothing forgets it', 4)
    rep.rule('chain', 'an error, once reported anywhere, arrives at the messenger of the tool as an error', 5)
    rep.rule('exit', 'the exit code is zero only when no error is remembered', 2)
    rep.rule('catch', 'an exception thrown by a command is caught, reported as an error, and the next command is executed', 4)
    rep.rule('open', 'commands are executed only on an opened database; failing to open it ends with an error code', 3)
    rep.rule('status', 'a failure an operation signals by its result is reported as an error', 3)
    rep.rule('silent', 'a command that does nothing reports an error', 4)
    rep.rule('swallow', 'a failure to create or write an output file is not dropped', 2)
    global ERROR
    ev = next((enum_values(P, n) for n in P.enums if n.split('::')[-1] == 'MessageState'), None)
    ERROR = ev['Error']
    base = lambda x: reports(P, x)
    done = P.always(base)
    err = lambda x: x.is_call and (reports(P, x) or P.does(x, done) and not virtual_only(P, x))
    sticky(P, rep)
    chain(P, rep)
    exits(P, rep)
    main_loop(P, rep, err)
    status(P, rep, err)
    silent(P, rep, err)
    swallow(P, rep, err)


def virtual_only(P, x):
    return not x.raw.get('f')


def const(x, i):
    e = x.fn.e(x.ops[i]) if i < len(x.ops) else None
    return e[1] if e and e[0] == 'c' else None


def reports(P, x):
    if not x.is_call:
        return False
    q = P.target_qs(x)
    if any(n.endswith('::AddError') for n in q) or 'DetailedException::show' in q:
        return True
    if any(n.endswith(('::AddMessage', '::AddDetailedMessage')) for n in q):
        return any(const(x, i) == enum_values(P, 'MessageState')['Error'] and isinstance(o, dict) and o.get('w') == 32 for i, o in enumerate(x.ops))
    return False


def sticky(P, rep):
    f = rep.need('Messenger::AddDetailedMessage')
    st = ('arg', 2)

    def setter(x):
        if x.op != 'store':
            return False
        a = f.e(x.ops[1])
        v = f.e(x.ops[0])
        return a == ('fld', ('arg', 0), 'Messenger', 'has_error') and v[0] == 'c' and v[1] != 0
    # conditions that say the message is not an error
    def other(c):
        if c[0] == 'cmp':
            p, a, b = c[1:]
            if b == st:
                a, b = b, a
                p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            if a == st and b[0] == 'c':
                k = b[1]
                holds = {'eq': ERROR == k, 'ne': ERROR != k, 'slt': ERROR < k, 'sle': ERROR <= k, 'sgt': ERROR > k, 'sge': ERROR >= k,
                         'ult': ERROR < k, 'ule': ERROR <= k, 'ugt': ERROR > k, 'uge': ERROR >= k}[p]
                return not holds
        return False
    p = f.path_avoiding(None, lambda x: x.op == 'ret', setter, skip=veto(f, other))
    rep.ob('sticky', 'error message', p is None, floc(f), 'an error message is not remembered: %s' % path_lines(p or []))
    p = f.path_avoiding(None, lambda x: x.is_call and x.op == 'call' and x.raw.get('f') == '__cxa_throw', setter, skip=veto(f, other))
    n = 0
    for x in stores(P, 'Messenger', 'has_error'):
        n += 1
        v = x.fn.e(x.ops[0])
        ok = v[0] == 'c' and v[1] != 0 or x.fn.q.split('::')[-1] == 'Messenger'
        rep.ob('sticky', 'store in %s' % x.fn.q, ok, loc(x), 'a remembered error may be forgotten')
    rep.ob('sticky', 'memory', n >= 1, floc(f), 'no memory of errors')
    for x in P.calls_to('Messenger::Messenger'):
        rep.ob('sticky', 'one messenger in %s' % x.fn.q, x.fn.q == 'main' and not x.fn.in_loop(x), loc(x), 'a second messenger')


def chain(P, rep):
    f = rep.need('MessageRegistrator::AddError')
    p = f.path_avoiding(None, lambda x: x.op == 'ret', lambda x: x.is_call and reports(P, x))
    rep.ob('chain', 'AddError', p is None, floc(f), 'an error is not handed on as an error')
    f = rep.need('DetailedException::show')
    p = f.path_avoiding(None, lambda x: x.op == 'ret', lambda x: x.is_call and reports(P, x))
    rep.ob('chain', 'show', p is None, floc(f), 'an exception shown is not reported as an error')
    f = rep.need('MessageRegistrator::AddMessage')
    st = lambda x: x.is_call and any('MessageDetails::MessageDetails' in q for q in P.target_qs(x)) and any(x.fn.e(o) == ('arg', 3) for o in x.ops)
    a = [i for i, v in enumerate(f.args) if v[1] == 'i32']
    st = lambda x: x.is_call and 'MessageDetails::MessageDetails' in P.target_qs(x) and any(f.e(o) == ('arg', a[-1]) for o in x.ops)
    p = f.path_avoiding(None, lambda x: x.op == 'ret', st)
    rep.ob('chain', 'AddMessage', bool(a) and p is None, floc(f), 'the state of a message is lost')
    f = rep.need('MessageDetails::MessageDetails', lambda g: g.nargs >= 4)
    s = [x for x in f.all() if x.op == 'store' and f.e(x.ops[1]) == ('fld', ('arg', 0), 'MessageDetails', 'mstate')]
    rep.ob('chain', 'state of the message', bool(s) and all(f.e(x.ops[0])[0] == 'arg' for x in s), floc(f), 'the state of a message is lost')
    for x in stores(P, 'MessageDetails', 'mstate'):
        rep.ob('chain', 'state stored in %s' % x.fn.q, x.fn.q.startswith('MessageDetails::MessageDetails'), loc(x), 'the state of a message is changed')
    f = rep.need('MessageDetails::~MessageDetails')
    st = lambda x: method(x, 'AddDetailedMessage') and any(f.e(o) == ('ld', ('fld', ('arg', 0), 'MessageDetails', 'mstate')) for o in x.ops)
    p = f.path_avoiding(None, lambda x: x.op == 'ret', st)
    rep.ob('chain', 'delivery', p is None, floc(f), 'a message is not delivered with its state')
    f = rep.need('Registrator::AddDetailedMessage')
    REG = ('ld', ('fld', ('arg', 0), 'Registrator', 'msreg_m'))
    st = lambda x: method(x, 'AddDetailedMessage') and f.e(x.ops[0]) == REG and f.e(x.ops[2]) == ('arg', 2)
    p = f.path_avoiding(None, lambda x: x.op == 'ret', st, skip=veto(f, lambda c: iszero(c, REG)))
    rep.ob('chain', 'forwarding', p is None, floc(f), 'a message is not forwarded to the tool')
    g = rep.need('main')
    reg = [x for x in g.calls() if method(x, 'AddMessageRegistrator')]
    run_ = [x for x in g.calls() if 'App::Run' in P.target_qs(x)]
    rep.ob('chain', 'messenger installed', bool(reg) and bool(run_) and all(any(g.dominates(r, x) for r in reg) for x in run_), floc(g), 'the messenger is not installed before the commands are executed')
    for x in P.calls_to(re.compile(r'.*::RemoveMessageRegistrator$')):
        if not x.fn.name.startswith('_ZT') and not x.fn.q.endswith('::RemoveMessageRegistrator'):
            rep.ob('chain', 'messenger kept', False, loc(x), 'the messenger is removed')
    f = rep.need('Registrator::AddMessageRegistrator')
    p = f.path_avoiding(None, lambda x: x.op == 'ret', lambda x: x.op == 'store' and f.e(x.ops[1]) == ('fld', ('arg', 0), 'Registrator', 'msreg_m') and f.e(x.ops[0]) == ('arg', 1))
    rep.ob('chain', 'installing', p is None, floc(f), 'the messenger is not installed')


def exits(P, rep):
    g = rep.need('main')
    run_ = [x for x in g.calls() if 'App::Run' in P.target_qs(x)]
    res = [g.e(x.id) for x in run_]

    def err_flag(e):
        return e[0] == 'ld' and e[1][0] == 'fld' and e[1][2:] == ('Messenger', 'has_error')
    for v, e, conds, r in ret_cases(g, True):
        none = any(c[0] == 'not' and err_flag(c[1]) or c[0] == 'cmp' and c[1] == 'eq' and any(err_flag(s) for s in c[2:]) and ('c', 0) in c[2:] for c in conds)
        good = any(iszero(c, s) for s in res for c in conds)
        if e[0] == 'c' and e[1] % 256 == 0:
            ok = none and good
        elif e[0] == 'c':
            ok = True
        elif e in res:
            ok = any(nonzero(c, e) or c == ('not', ('cmp', 'eq', e, ('c', 0))) for c in conds) or none
        else:
            ok = False
        rep.ob('exit', 'result %s' % show(e, g), ok, loc(r), 'the exit code may be zero although an error was reported')
    late = [x for x in g.all() if x.op == 'load' and err_flag(('ld', g.e(x.ops[0])))]
    for x in late:
        rep.ob('exit', 'looked at after the commands', any(g.dominates(r, x) for r in run_), loc(x), 'errors are looked for before the commands are executed')
    # results of App::Run
    f = rep.need('App::Run')
    for v, e, conds, r in ret_cases(f, True):
        rep.ob('exit', 'result of the run %s' % show(e, f), e[0] == 'c' and (e[1] == 0 or e[1] % 256 != 0), loc(r), 'an error code that the system cuts to zero')


def commands(P, f):
    return [x for x in f.calls() if any(is_command(g) for g in P.target_fns(x))]


def is_command(g):
    return g.file.startswith('ctool1cd') and g.q.startswith('App::') and g.nargs == 2 and 'ParsedCommand' in g.d and 'operator()' not in g.d


def main_loop(P, rep, err):
    f = rep.need('App::Run')
    cmds = commands(P, f)
    rep.ob('catch', 'commands', bool(cmds), floc(f), 'no commands')
    for x in cmds:
        nm = sorted(P.target_qs(x))[0]
        lp = landing(f, x)
        ok = lp is not None and any(c.get('k') == 'null' for c in lp.raw['cl'])
        rep.ob('catch', '%s guarded' % nm, ok, loc(x), 'an exception of the command ends the tool')
        if lp is None:
            continue
        heads = [y for y in f.all() if y.raw.get('f') == '__cxa_begin_catch' and y.bb in f.reachable_from(lp.bb, f.succ) and not any(f.bdom(z.bb, y.bb) for z in cmds)]
        loop = loop_of(f, x)
        inh = [y for y in heads if y.bb in loop or any(s in loop for s in f.reachable_from(y.bb, f.nsucc))]
        for y in handlers(f, lp):
            p = f.path_avoiding(y, lambda z: z.op == 'ret' or z in cmds or z.raw.get('f') == '__cxa_end_catch', err)
            rep.ob('catch', 'handler %s' % nm, p is None, loc(y), 'an exception is caught and not reported')
            back = x.bb in f.reachable_from(y.bb, f.nsucc)
            rep.ob('catch', 'goes on after %s' % nm, back, loc(y), 'the commands after a failed one are not executed')
            early = f.path_avoiding(y, lambda z: z.op == 'ret', lambda z: z.bb in loop and z.bb not in (y.bb,) and z.pos == 0 and z.bb in headers(f, loop))
            rep.ob('catch', 'goes on after %s' % nm, early is None, loc(y), 'the commands after a failed one are not executed')
        ok = [y for y in f.calls() if 'T_1CD::is_open' in P.target_qs(y)]
        rep.ob('open', nm, any(nonzero(c, f.e(y.id)) for y in ok for c in facts(x)), loc(x), 'the command is executed although the database is not open')
    # opening
    for x in f.calls():
        if 'T_1CD::T_1CD' in P.target_qs(x):
            lp = landing(f, x)
            ok = lp is not None and any(c.get('k') == 'null' for c in lp.raw['cl'])
            rep.ob('open', 'opening guarded', ok, loc(x), 'a database that cannot be opened ends the tool without an error code')
            for y in handlers(f, lp) if lp is not None else []:
                p = f.path_avoiding(y, lambda z: z.op == 'ret' or z in cmds, lambda z: err(z))
                rep.ob('open', 'failure reported', p is None, loc(y), 'a failure to open is not reported')
                rep.ob('open', 'failure ends', not any(z.bb in f.reachable_from(y.bb, f.nsucc) for z in cmds), loc(y), 'commands are executed although the database is not open')


def headers(f, loop):
    return {b for b in loop if any(p not in loop for p in f.pred[b])}


def landing(f, x):
    if x.op != 'invoke':
        return None
    # cleanups run on the way to the handler
    seen = set()
    st = [x.raw['u']]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        lp = next((y for y in f.blocks[b] if y.op == 'landingpad'), None)
        if lp is not None:
            return lp
        st += f.succ[b]
    return None


def handlers(f, lp):
    """first instruction of every handler reached from the landing pad"""
    seen, st, out = set(), [lp.bb], []
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        h = next((y for y in f.blocks[b] if y.raw.get('f') == '__cxa_begin_catch'), None)
        if h is not None:
            out.append(h)
            continue
        st += f.nsucc[b]
    return out


def creates_output(P, x):
    """opens a file for writing or writes into one"""
    if not x.is_call:
        return False
    q = P.target_qs(x)
    if any(n.endswith('TFileStream::TFileStream') for n in q) and len(x.ops) > 2:
        v = const(x, 2)
        return v is not None and (v & 0xffff == 0xffff or v & 3 in (1, 2))
    return False


def status(P, rep, err):
    eff = P.may(lambda x: creates_output(P, x) or reports(P, x))
    memo = {}

    def silent_false(g, depth=0):
        """a return of false that no report precedes; None if there is none"""
        if g.name in memo:
            return memo[g.name]
        memo[g.name] = None
        for v, e, conds, r in ret_cases(g, True):
            if e == ('c', 1):
                continue
            if e[0] == 'res' or e[0] == 'not':
                e1 = e[1] if e[0] == 'not' else e
                y = g.ins.get(e1[1]) if e1[0] == 'res' else None
                t = P.target_fns(y) if y is not None and y.is_call else []
                if e[0] == 'res' and t and depth < 4 and all(silent_false(h, depth + 1) is None for h in t):
                    continue
            # the edge that brings the value
            for pt in points(g, r, v):
                p = g.path_avoiding(None, lambda z: z is pt, err)
                if p is not None:
                    memo[g.name] = (r, p)
        return memo[g.name]
    for f in P.functions.values():
        if not f.file.startswith('ctool1cd'):
            continue
        for x in f.calls():
            if x.raw.get('t') not in ('i1', 'i8'):
                continue
            ts = [g for g in P.target_fns(x) if project(g)]
            ts = [g for g in ts if g.name in eff and any(e != ('c', 1) for v, e, c, r in ret_cases(g, True))]
            if not ts:
                continue
            if all(silent_false(g) is None for g in ts):
                rep.ob('status', '%s in %s' % (ts[0].q, f.q), True, loc(x))
                continue
            res = f.e(x.id)
            p = f.path_avoiding(x, lambda z: z.op == 'ret' or z is x, err, skip=veto(f, lambda c: nonzero(c, res)))
            if p is not None and f.raw['ret'] in ('i1', 'i8') and silent_false(f) is not None and f.q.startswith('App::') is False:
                p = None
            rep.ob('status', '%s in %s' % (ts[0].q, f.q), p is None, loc(x), 'a failure of the operation is not reported: %s' % path_lines(p or []))


def points(g, r, v):
    """instructions after which the return gives the operand v"""
    out, seen = [], set()

    def go(o, at):
        x = g.ins.get(o) if isinstance(o, int) and o >= g.nargs else None
        while x is not None and x.op in ('zext', 'sext', 'trunc', 'freeze') and o != v:
            o = x.ops[0]
            x = g.ins.get(o) if isinstance(o, int) and o >= g.nargs else None
        if o == v and not (x is not None and x.op == 'phi'):
            out.append(at)
            return
        if x is not None and x.op == 'phi' and x.id not in seen:
            seen.add(x.id)
            for pb, pv in x.raw['in']:
                go(pv, g.blocks[pb][-1])
    go(r.ops[0], r)
    return out or [r]


def silent(P, rep, err):
    """a command either does something or reports an error"""
    op = lambda x: creates_output(P, x) or x.is_call and 'Table::import_table' in P.target_qs(x)
    out = P.may(op)
    work = lambda x: x.is_call and (op(x) or any(t in out for t in P.targets(x)))
    for f in [g for g in P.functions.values() if is_command(g)]:
        loops = set()
        for x in f.calls():
            if work(x):
                # entering a loop that works on every table counts, even when there is none
                l = loop_of(f, x)
                if l:
                    loops |= headers(f, l)
                    inner = l
        selfrep = lambda x: x.is_call and x.raw.get('t') in ('i1', 'i8') and any(project(g) for g in P.target_fns(x))
        def stop(x):
            return err(x) or work(x) or x.pos == 0 and x.bb in loops
        # a false result of a function that reports by itself
        rf = {}
        for x in f.calls():
            if selfrep(x):
                ts = [g for g in P.target_fns(x) if project(g)]
                if ts and all(reports_false(P, g, err) for g in ts):
                    rf[f.e(x.id)] = x
        p = f.path_avoiding(None, lambda x: x.op == 'ret', stop, skip=veto(f, lambda c: any(iszero(c, e) for e in rf)))
        if p is not None:
            ps = paths(f, None, lambda x: x.op == 'ret', stop)
            ps = [q for q in ps if not any(iszero(c, e) for c in q.conds for e in rf)]
            p = [f.blocks[b][-1] for b in ps[0].blocks] if ps else None
        rep.ob('silent', f.q, p is None, floc(f), 'the command may return without having done anything and without an error: %s' % path_lines(p or []))


_rf = {}


def reports_false(P, g, err):
    if g.name not in _rf:
        _rf[g.name] = False
        ok = True
        for v, e, conds, r in ret_cases(g, True):
            if e == ('c', 1):
                continue
            for pt in points(g, r, v):
                if g.path_avoiding(None, lambda z: z is pt, err) is not None:
                    ok = False
        _rf[g.name] = ok
    return _rf[g.name]


def swallow(P, rep, err):
    out = P.may(lambda x: creates_output(P, x) and not x.fn.q.startswith('TTempStream') and 'Temp' not in x.fn.q)
    direct = lambda x: creates_output(P, x) or any(n in ('V8Catalog::write_block', 'V8Catalog::write_datablock', 'V8Object::savetofile') for n in P.target_qs(x))
    for f in P.functions.values():
        if not project(f):
            continue
        for lp in [y for y in f.all() if y.op == 'landingpad' and y.raw['cl']]:
            region = [x for x in f.all() if x.op == 'invoke' and x.raw['u'] == lp.bb and (direct(x) or any(t in out for t in P.targets(x)))]
            if not region:
                continue
            for h in handlers(f, lp):
                p = f.path_avoiding(h, lambda z: z.op == 'ret' or z.raw.get('f') == '__cxa_end_catch', lambda z: err(z) or z.is_call and any(n.endswith('::AddMessage') for n in P.target_qs(z)))
                if p is not None:
                    # a failure result
                    if f.raw['ret'] in ('i1', 'i8') and all(('c', 0) == e for v, e, c, r in ret_cases(f, True) if any(pt.bb in f.reachable_from(h.bb, f.nsucc) | {h.bb} for pt in points(f, r, v))):
                        p = None
                rep.ob('swallow', '%s in %s' % ((P.callee_name(region[0]) or 'call'), f.q), p is None, loc(h), 'a failure to write an output file is dropped')
