"""Models (transfer functions) of calls that are events for the analysis: libc, intrinsics, erasure."""
from .absint import K, ZERO, ONE, ladd, lsub, lneg, isconst, Pred, U64


def heap_alloc(eng, st, c, size, zero):
    """[(ok state, ptr), (failed state, null)]"""
    s_ok = st.fork()
    eng.fresh_ctr += 1
    y = eng.newsym(None, 'heap@%s#%d' % (eng.where(c.fn, c.inst), eng.fresh_ctr), 'ptr', 64, 1, U64, origin=('heap', c.name))
    y.rkind = 'heap'
    y.nonnull = True
    y.size = size
    from .absint import Region
    r = Region()
    if zero:
        r.zero = True
    else:
        r.dirty = ((0, None, ('uninit', eng.fresh_ctr)),)
    s_ok.mem[y.id] = r
    s_ok.trail = (s_ok.trail, '%s: %s succeeds' % (eng.where(c.fn, c.inst), c.name))
    st.trail = (st.trail, '%s: %s returns NULL' % (eng.where(c.fn, c.inst), c.name))
    for hk in eng.h_alloc:
        hk(s_ok, y.id, c)
    return [(s_ok, (0, ((y.id, 1),))), (st, ZERO)]


def m_malloc(eng, st, c):
    return heap_alloc(eng, st, c, c.args[0], False)


def m_calloc(eng, st, c):
    sz = eng.binop(st, 'mul', c.args[0], c.args[1], 64, ())
    return heap_alloc(eng, st, c, sz, True)


def m_realloc(eng, st, c):
    out = heap_alloc(eng, st, c, c.args[1], False)
    s_ok = out[0][0]
    for hk in eng.h_free:
        hk(s_ok, c.args[0], c)
    return out


def m_free(eng, st, c):
    for hk in eng.h_free:
        hk(st, c.args[0], c)
    return [(st, None)]


def m_memcpy(eng, st, c):
    eng.memcopy(st, c.args[0], c.args[1], c.args[2])
    return [(st, c.args[0])]


def m_memset(eng, st, c):
    eng.memfill(st, c.args[0], c.args[1], c.args[2])
    return [(st, c.args[0])]


def m_clean(eng, st, c):
    eng.memfill(st, c.args[0], ZERO, c.args[1])
    return [(st, None)]


def m_strlen(eng, st, c):
    p = eng.norm(st, c.args[0])
    b, off = eng.base(p)
    if b is not None:
        y = eng.syms[b]
        if y.rkind == 'global' and y.extra.const and y.extra.image is not None and isconst(off):
            img = y.extra.image[off[0]:]
            k = img.find(b'\0')
            if k >= 0:
                return [(st, K(k))]
        r = st.mem.get(b)
        ver = (tuple(sorted(((o, s, v) for (o, s), v in r.cells.items()), key=repr)), r.dirty) if r else ()
        hi = (1 << 62)
        if y.size is not None and isconst(y.size):
            hi = max(0, y.size[0] - 1)
        s = eng.newsym(('strlen', b, off, ver), 'strlen(%s)' % y.name, 'int', 64, 0, hi)
        return [(st, (0, ((s.id, 1),)))]
    return [(st, eng.fresh('strlen', 'int', 64, 0, 1 << 62))]


def pure(eng, st, c):
    return [(st, eng.retval(c))]


def m_exit(eng, st, c):
    return []


def m_read(eng, st, c):
    """ssize_t read(fd, buf, n)"""
    n = c.args[2]
    s_err = st.fork()
    v = eng.fresh('read', 'int', 64, 0, (1 << 63) - 1)
    out = []
    if eng.add_ge(st, lsub(n, v)):
        eng.clobber(st, c.args[1], v, c)
        out.append((st, v))
    out.append((s_err, K(U64)))
    return out


def m_fread(eng, st, c):
    n = c.args[2]
    v = eng.fresh('fread', 'int', 64)
    eng.add_ge(st, lsub(n, v))
    eng.clobber(st, c.args[0], eng.binop(st, 'mul', c.args[1], c.args[2], 64, ()), c)
    return [(st, v)]


def m_fwrite(eng, st, c):
    n = c.args[2]
    v = eng.fresh('fwrite', 'int', 64)
    eng.add_ge(st, lsub(n, v))
    return [(st, v)]


def m_fopen(eng, st, c):
    s2 = st.fork()
    y = eng.newsym(None, 'FILE@' + eng.where(c.fn, c.inst), 'ptr', 64, 1, U64, origin=('file',))
    y.rkind = 'file'
    y.nonnull = True
    return [(s2, (0, ((y.id, 1),))), (st, ZERO)]


def m_expect(eng, st, c):
    return [(st, c.args[0])]


def m_bswap(eng, st, c):
    w = c.rettype[1]
    v = eng.norm(st, c.args[0])
    if isconst(v):
        return [(st, K(int.from_bytes((v[0] & ((1 << w) - 1)).to_bytes(w // 8, 'little'), 'big')))]
    return [(st, eng.opaque(('bswap', v, w), 'bswap', w))]


def m_objsize(eng, st, c):
    return [(st, eng.fresh('objsize', 'int', 64))]


def base_models():
    m = {
        'malloc': m_malloc, 'calloc': m_calloc, 'free': m_free, 'realloc': m_realloc,
        'memcpy': m_memcpy, 'memmove': m_memcpy, 'llvm.memcpy': m_memcpy, 'llvm.memmove': m_memcpy,
        'memset': m_memset, 'llvm.memset': m_memset,
        'noise_clean': m_clean,
        'strlen': m_strlen, 'strcmp': pure, 'strncmp': pure, 'memcmp': pure, 'time': None,
        'exit': m_exit, 'abort': m_exit, '__assert_fail': m_exit,
        'read': m_read, 'fread': m_fread, 'fwrite': m_fwrite, 'fopen': m_fopen, 'fclose': pure, 'ferror': pure, 'fgetc': pure, 'getc': pure, 'clearerr': pure, 'fflush': pure,
        'feof': pure, 'perror': pure, 'fprintf': pure, 'printf': pure, 'open': pure, 'close': pure, 'putc': pure,
        'fputs': pure, 'fputc': pure, '__errno_location': pure,
        'llvm.expect': m_expect, 'llvm.bswap': m_bswap,
    }
    del m['time']
    return m
