"""Byte loops that are memcpy or memset in disguise.

A loop whose only effect is to store one byte per iteration at consecutive addresses -- the byte loaded at consecutive source
addresses, or a value that does not change -- and that leaves only through its counted condition is interpreted as one copy or
fill of the whole range.  The shape is read off the symbolic values of one generic iteration (number k of n), not off the syntax, so
index, pointer, ascending and descending forms are the same thing.  Whatever cannot be shown is left to the general treatment."""
from .absint import *
from . import llir


class No(Exception):
    pass


def shape(fn, H, body):
    """the blocks of a straight-line loop in order, or None"""
    c = fn.__dict__.setdefault('_idiom', {}) if hasattr(fn, '__dict__') else {}
    if H in c:
        return c[H]
    c[H] = r = _shape(fn, H, body)
    return r


def _shape(fn, H, body):
    h = fn.blocks[H]
    t = h.insts[-1]
    if t.op != 'br' or t.a[0] is None:
        return None
    stay = [x for x in t.a[1:3] if x in body]
    if len(stay) != 1 or t.a[1] == t.a[2]:
        return None
    order, cur = [H], stay[0]
    while cur != H:
        if cur in order or cur not in body:
            return None
        order.append(cur)
        z = fn.blocks[cur].insts[-1]
        if z.op != 'br' or z.a[0] is not None:
            return None
        cur = z.a[1]
    if len(order) != len(body):
        return None
    stores = 0
    for b in order:
        for i in fn.blocks[b].insts:
            if i.op == 'store':
                stores += 1
                if i.a[3] or i.a[0] != ('int', 8) or b == H:
                    return None
            elif i.op == 'load':
                if i.a[1]:
                    return None
            elif i.op == 'call':
                f = i.a[0] if i.a else None
                if 'llvm.dbg' not in repr(f):
                    return None
            elif i.op not in ('phi', 'br', 'getelementptr', 'icmp', 'freeze') and i.op not in llir.CASTS and i.op not in llir.BIN:
                return None
    return order if stores == 1 else None


def hooks_off(eng):
    old = eng.h, eng.h_alloc, eng.h_free, eng.h_escape
    eng.h = {k: [] for k in eng.h}
    eng.h_alloc, eng.h_free, eng.h_escape = [], [], []
    return old


def hooks_on(eng, old):
    eng.h, eng.h_alloc, eng.h_free, eng.h_escape = old


def try_idiom(eng, fn, H, pred, S, body):
    order = shape(fn, H, body)
    if order is None:
        return None
    mark = len(eng.reports)
    old = hooks_off(eng)
    try:
        plan = analyse(eng, fn, H, pred, S, order)
    except (No, NeedSplit, Limit, KeyError):
        del eng.reports[mark:]
        return None
    finally:
        hooks_on(eng, old)
    kind, dst, src, n, finals = plan
    S = S.fork()
    {'copy': eng.memcopy, 'fill': eng.memfill, 'xor': eng.memxor}[kind](S, dst, src, n)
    S.env.update(finals)
    S.trail = (S.trail, '%s: %s loop' % (eng.where(fn, fn.blocks[H].insts[-1]), kind))
    outs, rets = eng.exec_block(fn, fn.blocks[H], None, S)
    outs = [o for o in outs if o[0] not in body]
    return outs, rets


def coeff(lin, s):
    for y, c in lin[1]:
        if y == s:
            return c
    return 0


def at(lin, s, v):
    c = coeff(lin, s)
    if not c:
        return lin
    rest = (lin[0], tuple(x for x in lin[1] if x[0] != s))
    return ladd(rest, lscale(v, c))


def analyse(eng, fn, H, pred, S, order):
    h = fn.blocks[H]
    P0 = S.fork()
    eng.do_phis(fn, h, pred, P0)
    phis = [i for i in h.insts if i.op == 'phi']
    start = {}
    for i in phis:
        v = P0.env[i.res]
        if not isinstance(v, tuple):
            raise No
        start[i.res] = eng.norm(P0, v)
    steps = {i.res: guess(fn, i, order) for i in phis}
    br = h.insts[-1]
    stay = br.a[1] in order
    # number of iterations
    P, k = P0.fork(), eng.fresh('k', 'int', 64, 0, (1 << 31) - 2)
    n = trip(eng, fn, h, br, stay, P, k, start, steps)
    if not eng.prove_ge(S, n) or eng.prove_eq(S, n):
        raise No
    # one generic iteration
    P, k = P0.fork(), eng.fresh('k', 'int', 64, 0, 1 << 62)
    ks = k[1][0][0]
    eng.add_ge(P, lsub(lsub(n, ONE), k))
    setphi(P, k, start, steps)
    loads, store = [], None
    for b in order:
        for i in fn.blocks[b].insts:
            if i.op in ('phi', 'call'):
                continue
            if i.op == 'br':
                if b == H:
                    c = eng.val(P, fn, i.a[0], llir.I1)
                    p = c if isinstance(c, Pred) else Pred('eq', eng.num(P, c), True)
                    if eng.decide(P, p) is not stay:
                        raise No
                continue
            if i.op == 'store':
                v = eng.val(P, fn, i.a[1], i.a[0])
                if not isinstance(v, tuple):
                    raise No
                store = (eng.norm(P, eng.num(P, eng.val(P, fn, i.a[2], llir.PTR))), eng.norm(P, v))
                continue
            r = eng.step(fn, i, P)
            P.env[i.res] = r
            if i.op == 'load':
                if store is not None:
                    raise No
                loads.append((eng.norm(P, eng.num(P, eng.val(P, fn, i.a[0], llir.PTR))), i, r))
    for i in phis:
        v = [x for x, b in i.a if b == order[-1]]
        v = eng.norm(P, eng.num(P, eng.val(P, fn, v[0], i.ty)))
        if not eng.prove_eq(P, v, ladd(start[i.res], lscale(ladd(k, ONE), steps[i.res]))):
            raise No
    dst, val = store
    byte = [l for l in loads if coeff(l[0], ks)]
    fixed = [l for l in loads if not coeff(l[0], ks)]
    last = lsub(n, ONE)

    def low(p):
        c = coeff(p, ks)
        if c not in (1, -1) or eng.base(p)[0] is None:
            raise No
        return c, at(p, ks, ZERO if c == 1 else last)
    cd, dlo = low(dst)
    db = eng.base(dlo)[0]
    finals = {i.res: ladd(start[i.res], lscale(n, steps[i.res])) for i in phis}
    if not byte:
        if coeff(val, ks):
            raise No
        kind, src = 'fill', val
    elif eng.xors and len(byte) == 2 and all(x[1].ty == ('int', 8) for x in byte) and dst in (byte[0][0], byte[1][0]):
        # a block is combined with another in place
        other = byte[1] if byte[0][0] == dst else byte[0]
        o = eng.syms[val[1][0][0]].origin if val[0] == 0 and len(val[1]) == 1 and val[1][0][1] == 1 else None
        if not isinstance(o, tuple) or o[0] != 'xor' or byte[0][2] == byte[1][2] or set(o[1:3]) != {byte[0][2], byte[1][2]}:
            raise No
        cs, src = low(other[0])
        if cs != cd or eng.base(src)[0] == db:
            raise No
        kind = 'xor'
    else:
        if len(byte) != 1 or byte[0][1].ty != ('int', 8) or not isinstance(byte[0][2], tuple) or eng.norm(P, byte[0][2]) != val or not val[1]:
            raise No
        cs, src = low(byte[0][0])
        sb = eng.base(src)[0]
        if cs != cd:
            raise No
        if sb == db:
            d = lsub(dlo, src)
            if not (eng.prove_ge(S, lsub(d, n)) or eng.prove_ge(S, lsub(lsub(ZERO, d), n))):
                raise No
        kind = 'copy'
    # the loop ends after n iterations
    T = S.fork()
    T.env.update(finals)
    for i in h.insts:
        if i.op not in ('phi', 'call', 'br'):
            T.env[i.res] = eng.step(fn, i, T)
    c = eng.val(T, fn, br.a[0], llir.I1)
    if eng.decide(T, c if isinstance(c, Pred) else Pred('eq', eng.num(T, c), True)) is not (not stay):
        raise No
    # pointers and bounds read in the loop do not change while it writes
    if fixed:
        T = S.fork()
        {'copy': eng.memcopy, 'fill': eng.memfill, 'xor': eng.memxor}[kind](T, dlo, src, n)
        for p, i, r in fixed:
            v = eng.load(T, p, i.ty, fn.module, i, fn)
            if not isinstance(v, tuple) or not isinstance(r, tuple) or eng.norm(T, v) != eng.norm(P, r):
                raise No
    return kind, dlo, src, n, finals


def setphi(P, k, start, steps):
    for r, a in start.items():
        P.env[r] = ladd(a, lscale(k, steps[r]))


def guess(fn, phi, order):
    v = [x for x, b in phi.a if b == order[-1]]
    if len(v) != 1 or v[0][0] != 'l':
        if v and v[0] == ('l', phi.res):
            return 0
        raise No
    if v[0][1] == phi.res:
        return 0
    for b in order:
        for i in fn.blocks[b].insts:
            if i.res != v[0][1]:
                continue
            if i.op in ('add', 'sub'):
                for x, y in ((i.a[0], i.a[1]), (i.a[1], i.a[0])):
                    if x == ('l', phi.res) and y[0] == 'c':
                        c = canon_const(y[1], i.ty[1])
                        if i.ty[1] != 32 and c >> (i.ty[1] - 1):
                            c -= 1 << i.ty[1]
                        return c if i.op == 'add' else -c
            if i.op == 'getelementptr' and i.a[1] == ('l', phi.res) and len(i.a[2]) == 1 and i.a[2][0][1][0] == 'c':
                c = i.a[2][0][1][1]
                w = i.a[2][0][0][1]
                if c >> (w - 1) & 1 and c > 0:
                    c -= 1 << w
                return c * fn.module.sizeof(i.a[0])
    raise No


def trip(eng, fn, h, br, stay, P, k, start, steps):
    setphi(P, k, start, steps)
    ks = k[1][0][0]
    for i in h.insts:
        # counters do not wrap (verified once the count is known)
        if i.op == 'phi' and i.ty[0] == 'int' and i.ty[1] <= 32 and steps[i.res]:
            lo, hi = width_range(i.ty[1])
            eng.add_ge(P, ladd(P.env[i.res], K(-lo)))
            eng.add_ge(P, lsub(K(hi), P.env[i.res]))
    cmp = None
    for i in h.insts:
        if i.op in ('phi', 'call', 'br'):
            continue
        try:
            P.env[i.res] = eng.step(fn, i, P)
        except NeedSplit:
            P.env.pop(i.res, None)
        if i.op == 'icmp' and br.a[0] == ('l', i.res):
            cmp = i
    if cmp is None:
        raise No
    pr = cmp.a[0]
    if not stay:
        pr = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult', 'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt'}[pr]
    x, y = [eng.norm(P, eng.num(P, eng.val(P, fn, a, cmp.a[1]))) for a in cmp.a[2:4]]
    d = lsub(x, y)
    c = coeff(d, ks)
    d0 = at(d, ks, ZERO)
    if pr == 'ne' and c in (1, -1):
        return lsub(ZERO, d0) if c == 1 else d0
    if pr in ('ult', 'slt') and c == 1:
        return lsub(ZERO, d0)
    if pr in ('ugt', 'sgt') and c == -1:
        return d0
    if pr == 'sle' and c == 1:
        return lsub(ONE, d0)
    if pr == 'sge' and c == -1:
        return ladd(d0, ONE)
    raise No
