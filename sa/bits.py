"""Bit provenance: which bit of which source value every bit of a result is.

bits(f, operand) -> list, lowest bit first, of 0, 1, (source expression, k) or None (a mixture).
Decides what an expression of shifts, masks and sums does to bits, however it is written; nothing is executed."""
from .absint import width


def const(v, w):
    return [(v >> i) & 1 for i in range(w)]


class Bits:
    def __init__(self, f, leaf=None):
        self.f = f
        self.leaf = leaf          # leaf(x) -> name of the source value of an instruction, or None to look inside
        self.memo = {}

    def opw(self, o):
        f = self.f
        if isinstance(o, dict):
            return o.get('w') or 64
        if o < f.nargs:
            return width(f.args[o][1])
        return width(f.ins[o].raw['t'])

    def of(self, o):
        f = self.f
        w = self.opw(o)
        if isinstance(o, dict):
            if o.get('k') == 'i':
                return const(o['v'] & ((1 << w) - 1), w)
            return [None] * w
        if o < f.nargs:
            return [(('arg', o), i) for i in range(w)]
        if o in self.memo:
            return self.memo[o]
        self.memo[o] = [None] * w
        r = self._of(f.ins[o], w)
        self.memo[o] = r
        return r

    def src(self, x, w):
        return [(self.f.e(x.id), i) for i in range(w)]

    def _of(self, x, w):
        if self.leaf:
            n = self.leaf(x)
            if n is not None:
                return [(n, i) for i in range(w)]
        op = x.op
        ops = x.ops
        if op in ('zext', 'trunc', 'freeze', 'bitcast'):
            a = self.of(ops[0])
            return (a + [0] * w)[:w]
        if op == 'sext':
            a = self.of(ops[0])
            return (a + [a[-1]] * w)[:w]
        if op in ('and', 'or', 'xor', 'add', 'sub'):
            a, b = self.of(ops[0]), self.of(ops[1])
            if op == 'and':
                return [q if p == 1 else p if q == 1 else 0 if 0 in (p, q) else p if p == q else None for p, q in zip(a, b)]
            if op == 'or':
                return [q if p == 0 else p if q == 0 else 1 if 1 in (p, q) else p if p == q else None for p, q in zip(a, b)]
            if op == 'xor':
                return [q if p == 0 else p if q == 0 else 0 if p == q and p is not None else None for p, q in zip(a, b)]
            if op == 'add':
                # no carry where one side is zero everywhere
                if all(p == 0 or q == 0 for p, q in zip(a, b)):
                    return [q if p == 0 else p for p, q in zip(a, b)]
                if all(v in (0, 1) for v in a + b):
                    n = sum(v << i for i, v in enumerate(a)) + sum(v << i for i, v in enumerate(b))
                    return const(n & ((1 << w) - 1), w)
                return [None] * w
            return [None] * w
        if op in ('shl', 'lshr', 'ashr', 'mul', 'udiv', 'sdiv', 'urem', 'srem') and isinstance(ops[1], dict) and ops[1].get('k') == 'i':
            a = self.of(ops[0])
            n = ops[1]['v']
            if op in ('mul', 'udiv', 'sdiv', 'urem', 'srem'):
                if n <= 0 or n & (n - 1):
                    return [None] * w
                n = n.bit_length() - 1
                if op in ('sdiv', 'srem') and a[-1] != 0:
                    return [None] * w
                if op in ('urem', 'srem'):
                    return a[:n] + [0] * (w - n)
                op = 'shl' if op == 'mul' else 'lshr'
            if op == 'shl':
                return ([0] * n + a)[:w]
            return (a[n:] + [0 if op == 'lshr' else a[-1]] * n)[:w]
        if op == 'load' or x.is_call:
            return self.src(x, w)
        return [None] * w
