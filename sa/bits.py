"""Bit-level view of symbolic values: which source bit each bit of a value is, as far as shifts, masks, truncations and
disjoint sums go.  Used to read off byte encodings (nonces, lengths, counters) whatever way they are written."""
from .absint import *


def _mk(w):
    return [None] * w


class Raw:
    """stands for a state: values keep the form they were computed in, ranges are those of the state"""
    def __init__(self, st):
        self.rng = st.rng


def inv(x):
    """the complement of a bit"""
    if x is None or x in (0, 1):
        return None if x is None else 1 - x
    return x[1] if x[0] == '~' else ('~', x)


def xor(x, z):
    if x is None or z is None:
        return None
    n = 0
    t = []
    for i in (x, z):
        if i in (0, 1):
            n ^= i
            continue
        if i[0] == '~':
            n ^= 1
            i = i[1]
        t += list(i[1:]) if i[0] == '^' else [i]
    t = [i for i in sorted(set(t), key=repr) if t.count(i) % 2]
    r = 0 if not t else t[0] if len(t) == 1 else ('^',) + tuple(t)
    return inv(r) if n else r


def value(x, env):
    """a bit, some of the bits it depends on being known"""
    if x is None or x in (0, 1):
        return x
    if x in env:
        return env[x]
    if x[0] == '~':
        return inv(value(x[1], env))
    if x[0] == '^':
        r = 0
        for i in x[1:]:
            r = xor(r, value(i, env))
        return r
    return x


def bits(eng, st, lin, w, depth=0):
    """list of w entries, least significant first: 0, 1, (symbol id, bit) or None (unknown)"""
    if lin is None or isinstance(lin, Pred) or depth > 40:
        return _mk(w)
    if st is not None and not isinstance(st, Raw):
        lin = eng.norm(st, lin)
    out = [(lin[0] >> i) & 1 for i in range(w)]
    for s, k in lin[1]:
        if k <= 0 or k & (k - 1):
            # the bits of a difference stand for themselves
            return _mk(w) if st is not None and not isinstance(st, Raw) else [(('lin', lin), i) for i in range(w)]
        sh = k.bit_length() - 1
        sb = symbits(eng, st, s, max(w - sh, 0), depth + 1)
        for i, b in enumerate(sb):
            j = i + sh
            if j >= w:
                break
            if b == 0:
                continue
            if out[j] == 0:
                out[j] = b
            else:
                # overlapping sum: everything from here on is unknown
                for q in range(j, w):
                    out[q] = None
                break
    return out


def fixed(eng, st, x):
    """a bit whose value follows from the range of its symbol"""
    if x is None or x in (0, 1):
        return x
    if x[0] == '~':
        return inv(fixed(eng, st, x[1]))
    if x[0] == '^':
        r = 0
        for i in x[1:]:
            r = xor(r, fixed(eng, st, i))
        return r
    if isinstance(x[0], tuple):
        n = x[0][1]
        if x[1] > 32 and eng.prove_ge(st, n) and eng.prove_ge(st, lsub(K((1 << x[1]) - 1), n)):
            return 0
        n = eng.norm(st, n)
        lo, hi = eng.lower(st, n), eng.upper(st, n)
    else:
        lo, hi = eng.bounds(st, x[0])
    if lo is None or hi is None or (lo < 0) != (hi < 0):
        return x
    return (lo >> x[1]) & 1 if lo >> x[1] == hi >> x[1] else x


def symbits(eng, st, s, w, depth):
    y = eng.syms[s]
    key = y.origin
    op = key[0] if isinstance(key, tuple) and key and isinstance(key[0], str) else None
    r = None
    try:
        if op == 'lshr' and isconst(key[2]):
            a = bits(eng, st, key[1], key[3], depth)
            r = a[key[2][0]:] + [0] * key[2][0]
        elif op == 'udiv' and isconst(key[2]) and key[2][0] & (key[2][0] - 1) == 0:
            a = bits(eng, st, key[1], key[3], depth)
            n = key[2][0].bit_length() - 1
            r = a[n:] + [0] * n
        elif op == 'urem' and isconst(key[2]) and key[2][0] & (key[2][0] - 1) == 0:
            n = key[2][0].bit_length() - 1
            r = bits(eng, st, key[1], key[3], depth)[:n]
        elif op == 'shl' and isconst(key[2]):
            a = bits(eng, st, key[1], key[3], depth)
            r = ([0] * key[2][0] + a)[:key[3]]
        elif op == 'mul' and any(isconst(x) and x[0] > 0 and x[0] & (x[0] - 1) == 0 for x in key[1:3]):
            x, z = (key[1], key[2]) if isconst(key[2]) else (key[2], key[1])
            n = z[0].bit_length() - 1
            r = ([0] * n + bits(eng, st, x, key[3], depth))[:key[3]]
        elif op in ('and', 'or', 'xor'):
            a = bits(eng, st, key[1], key[3], depth)
            b = bits(eng, st, key[2], key[3], depth)
            r = []
            for x, z in zip(a, b):
                if op == 'and':
                    r.append(0 if x == 0 or z == 0 else (z if x == 1 else x if z == 1 else x if x == z else None))
                elif op == 'or':
                    r.append(1 if x == 1 or z == 1 else (z if x == 0 else x if z == 0 else x if x == z else None))
                else:
                    r.append(xor(x, z))
        elif op in ('trunc', 'zext', 'sext') and isconst(key[2]):
            w1 = key[2][0]
            a = bits(eng, st, key[1], w1, depth)
            if op == 'sext':
                r = a + [a[-1]] * (w - w1)
            else:
                r = a[:key[3]] if op == 'trunc' else a
        elif op == 'add':
            a = bits(eng, st, key[1], key[3], depth)
            b = bits(eng, st, key[2], key[3], depth)
            r = [z if x == 0 else x for x, z in zip(a, b)]
            if any(x != 0 and z != 0 for x, z in zip(a, b)):
                r = None
        elif op == 'sub' and key[1] == ZERO:
            a = bits(eng, st, key[2], key[3], depth)
            r = [a[0]] * key[3] if all(x == 0 for x in a[1:]) else None
        elif op == 'ashr' and isconst(key[2]):
            a = bits(eng, st, key[1], key[3], depth)
            n = key[2][0]
            r = a[n:] + [a[-1]] * n
        elif op == 'bswap':
            n = key[2]
            a = bits(eng, st, key[1], n, depth)
            r = []
            for i in range(n // 8 - 1, -1, -1):
                r += a[8 * i:8 * i + 8]
        elif op == 'part':
            a = bits(eng, st, key[1], 8 * (key[2] + key[3]), depth)
            r = a[8 * key[2]:]
        elif op == 'mix':
            r = _mk(8 * key[4])
            for o, sz, v in key[2]:
                vb = bits(eng, st, v, 8 * sz, depth)
                for i in range(8 * sz):
                    j = 8 * o + i
                    if 0 <= j < len(r):
                        r[j] = vb[i]
    except (IndexError, TypeError):
        r = None
    if r is None:
        n = y.width or 64
        lo, hi = eng.bounds(st, s) if st is not None else (y.lo, y.hi)
        if lo >= 0:
            n = min(n, max(hi.bit_length(), 1))
        r = [(s, i) for i in range(n)]
        if lo < 0:
            r = r + [None] * max(0, w - len(r))
    if len(r) < w:
        r = r + [0] * (w - len(r))
    return r[:w]


def membytes(eng, st, ptr, n):
    """list of n byte values (each a list of 8 bits) stored at ptr"""
    b, off = eng.base(eng.norm(st, ptr))
    if b is None:
        return [_mk(8) for _ in range(n)]
    out = []
    for i in range(n):
        v = eng.load_cell(st, b, ladd(off, K(i)), 1, False, 8, None)
        out.append(bits(eng, st, v, 8))
    return out


def word(eng, st, lin, w):
    """the bytes of a value, little-endian"""
    b = bits(eng, st, lin, w)
    return [b[i:i + 8] for i in range(0, w, 8)]


def known(bs):
    return all(b is not None for by in bs for b in by)
