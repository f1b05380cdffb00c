"""C27: incremental hashing consumes every byte exactly once."""
import math
import re
from ..absint import *
from .. import bits, clients, slots
from .c19 import region
from ..run import Result, engine_result, V, Broken

RULES = [
    'order: every byte an update function buffers or compresses is the next byte of its input, and at return exactly the whole input has been taken',
    'block: bytes are buffered at the fill position and never beyond the block; a block is compressed from the buffer only when it is full, and directly from the input only when nothing is buffered and a whole block is left',
    'position: the block position an update leaves is the number of bytes buffered, and inside the block',
    'count: the message length an update leaves has grown by exactly the bytes taken; BLAKE2 has counted a block when it compresses it',
    'last: BLAKE2 never compresses the block that ends the input so far, which may be the last, as one that is not',
    'padding: for every fill position the blocks compressed by a finish function are the buffered bytes followed by the padding, length and finalisation flag of the specification',
    'output: the digest written is the chaining value in the byte order of the specification',
    'start: a reset sets the initial chaining value of the specification, an empty block and a zero length',
    'backend: the reset, update and finalize functions of every hash backend call the matching function of one primitive on the state of the object, with the whole input and the output given',
]
EXPLANATION = ('every path of the reset, update and finish functions of the hash and MAC primitives this library implements, update for all lengths of input and every '
               'block position (loops generalised), finish once for each block position; the compression functions stand for themselves')
MIN = {'obligations': 1400, 'updates': 6, 'finishes': 7, 'resets': 6, 'positions': 430, 'slots': 20}
ASSUMPTIONS = ['messages are shorter than 2^60 bytes', 'an input does not overlap the hash object it is given to']

SHA, BLAKE, POLY, GHASH = 'sha', 'blake', 'poly', 'ghash'


class H:
    def __init__(self, kind, unit, prefix, ctx, block, word, compress, n=None):
        self.kind, self.unit, self.prefix, self.ctx, self.block, self.word, self.compress = kind, unit, prefix, ctx, block, word, re.compile(compress)
        self.name = prefix


HASHES = [
    H(SHA, 'src/crypto/sha2/sha256.c', 'sha256', 'sha256_context_t', 64, 4, r'transform|compress'),
    H(SHA, 'src/crypto/sha2/sha512.c', 'sha512', 'sha512_context_t', 128, 8, r'transform|compress'),
    H(BLAKE, 'src/crypto/blake2/blake2s.c', 'BLAKE2s', 'BLAKE2s_context_t', 64, 4, r'transform|compress'),
    H(BLAKE, 'src/crypto/blake2/blake2b.c', 'BLAKE2b', 'BLAKE2b_context_t', 128, 8, r'transform|compress'),
    H(POLY, 'src/crypto/donna/poly1305-donna.c', 'poly1305', 'poly1305_state_internal_t', 16, 8, r'blocks'),
    H(GHASH, 'src/crypto/ghash/ghash.c', 'ghash', 'ghash_state', 16, 8, r'GF128_mul$|^gf.*mul$'),
]
FIELDS = {SHA: ('m', 'posn', 'length', 'h'), BLAKE: ('m', 'posn', 'length', 'h'), POLY: ('buffer', 'leftover', None, 'h'), GHASH: ('Y', 'posn', None, 'Y')}
FINISH = {SHA: 'finish', BLAKE: 'finish', POLY: 'finish', GHASH: 'pad'}


class Common(clients.ErrFork):
    def __init__(self, h, fn, prog):
        super().__init__()
        self.hs, self.fn = h, fn
        self.ob = 0
        buf, posn, length, out = FIELDS[h.kind]
        info = prog.fieldinfo.get(h.ctx)
        if info is None or buf not in info or posn not in info or length is not None and length not in info or out not in info:
            raise Broken('the members of %s are not as expected' % h.ctx)
        self.buf, self.posn = info[buf][0], info[posn]
        self.length = info[length] if length else None
        self.hoff, self.hsize = info[out][0], info[out][1]
        self.info = info

    def bad(self, st, rule, msg, c=None):
        self.eng.report(st, rule, c.fn if c is not None else self.fn, c.inst if c is not None else None, msg)

    def field(self, st, f):
        v = self.eng.load_cell(st, self.ctx, K(f[0]), f[1], False, 8 * f[1], None)
        return self.eng.norm(st, v) if isinstance(v, tuple) else self.eng.fresh('opq')

    def put(self, st, f, v):
        self.eng.store_cell(st, self.ctx, K(f[0]), f[1], v)

    def compress(self, eng, st, c):
        """the compression function: changes the chaining value only"""
        self.block(st, c)
        eng.clobber(st, (self.hoff, ((self.ctx, 1),)), K(self.hsize), c)
        return [(st, ZERO)]


class Update(Common):
    def setup(self, eng, st, args):
        self.ld = {}
        h = self.hs
        for a in args[:2]:
            eng.add_ne(st, a)
        self.ctx, self.data = eng.base(args[0])[0], eng.base(args[1])[0]
        self.size = args[2]
        eng.add_ge(st, self.size)
        eng.add_ge(st, lsub(K(1 << 58), self.size))
        p0 = eng.fresh('fill', 'int', 8 * self.posn[1], 0, h.block if h.kind == BLAKE else h.block - 1)
        self.put(st, self.posn, p0)
        self.cells = region(eng, st, 'stream', [], const=False)[1][0][0]
        self.set(st, 0, ZERO)
        self.set(st, 1, p0)
        if self.length:
            self.l0 = eng.fresh('length', 'int', 64, 0, 1 << 60)
            self.put(st, self.length, self.l0)
            self.set(st, 2, self.l0)
        if h.kind == POLY:
            self.put(st, self.info['final'], ZERO)
        return st

    def get(self, st, i):
        return self.eng.norm(st, self.eng.load_cell(st, self.cells, K(8 * i), 8, False, 64, None))

    def set(self, st, i, v):
        self.eng.store_cell(st, self.cells, K(8 * i), 8, v)

    def loop_invariants(self, st, fn, H):
        top = self.hs.block if self.hs.kind == BLAKE else self.hs.block - 1
        eng = self.eng
        out = [(lambda s, t=t: eng.add_ge(s, self.get(s, 1)) and eng.add_ge(s, lsub(K(t), self.get(s, 1))),
                lambda s, t=t: eng.prove_ge(s, self.get(s, 1)) and eng.prove_ge(s, lsub(K(t), self.get(s, 1)))) for t in sorted({top, self.hs.block})]
        out += [
               (lambda s: eng.add_eq(s, lsub(self.field(s, self.posn), self.get(s, 1))),
                lambda s: eng.prove_eq(s, self.field(s, self.posn), self.get(s, 1)))]
        left = lambda s: lsub(self.size, self.get(s, 0))
        out.append((lambda s: eng.add_ge(s, self.get(s, 0)) and eng.add_ge(s, left(s)), lambda s: eng.prove_ge(s, self.get(s, 0)) and eng.prove_ge(s, left(s))))
        if self.length:
            grown = lambda s: lsub(lsub(self.get(s, 2), self.l0), lscale(self.get(s, 0), 1 if self.hs.kind == BLAKE else 8))
            out.append((lambda s: eng.add_eq(s, grown(s)), lambda s: eng.prove_eq(s, grown(s))))
            out.append((lambda s: eng.add_eq(s, lsub(self.field(s, self.length), self.get(s, 2))),
                        lambda s: eng.prove_eq(s, self.field(s, self.length), self.get(s, 2))))
        return out

    def take(self, st, n):
        self.set(st, 0, ladd(self.get(st, 0), n))
        if self.length:
            self.set(st, 2, ladd(self.get(st, 2), n if self.hs.kind == BLAKE else lscale(n, 8)))

    def fill(self, st, doff, soff, n, from_data):
        """n bytes put into the buffer"""
        eng = self.eng
        self.ob += 1
        if eng.prove_eq(st, n):
            return
        if not from_data:
            return self.bad(st, 'order', 'bytes that are not from the input are put into the block')
        if not eng.prove_eq(st, soff, self.get(st, 0)):
            self.bad(st, 'order', 'the bytes buffered are not the next of the input')
        if not eng.prove_ge(st, lsub(lsub(self.size, self.get(st, 0)), n)):
            self.bad(st, 'order', 'more bytes are buffered than the input has')
        p = self.get(st, 1)
        if not eng.prove_eq(st, doff, ladd(K(self.buf), p)):
            self.bad(st, 'block', 'the bytes are not put at the fill position of the block')
        if not eng.prove_ge(st, lsub(K(self.hs.block), ladd(p, n))):
            self.bad(st, 'block', 'more bytes are put into the block than it holds')
        self.take(st, n)
        self.set(st, 1, ladd(p, n))

    def inbuf(self, db, doff):
        if db != self.ctx:
            return False
        lo, hi = self.eng.lower(self.cur, doff), self.eng.upper(self.cur, doff)
        return hi >= self.buf and lo < self.buf + self.hs.block

    def on_copy(self, st, db, doff, sb, soff, n):
        self.cur = st
        if self.inbuf(db, doff):
            self.fill(st, doff, soff, n, sb == self.data)

    def on_xor(self, st, db, doff, sb, soff, n):
        self.on_copy(st, db, doff, sb, soff, n)

    def on_load(self, st, b, off, size, v, inst, fn):
        if b == self.data and size == 1 and isinstance(v, tuple):
            self.ld[self.eng.norm(st, v)] = off

    def on_store(self, st, b, off, size, val, inst, fn):
        self.cur = st
        if b != self.ctx or not self.inbuf(b, off):
            return
        if self.hs.kind == GHASH:
            return self.bad(st, 'order', 'the block is changed in a way not recognised')
        src = None
        if size == 1 and isinstance(val, tuple):
            v = self.eng.norm(st, val)
            src = self.ld.get(v)
            if src is None:
                b8 = bits.bits(self.eng, st, v, 8)
                src = self.ld.get((0, ((b8[0][0], 1),))) if isinstance(b8[0], tuple) and b8 == [(b8[0][0], i) for i in range(8)] else None
        self.fill(st, off, src, ONE, src is not None)

    def block(self, st, c):
        eng, h = self.eng, self.hs
        self.ob += 1
        a = [eng.norm(st, x) if isinstance(x, tuple) else x for x in c.args]
        if h.kind == GHASH:
            b, off = eng.base(a[0])
            kb, koff = eng.base(a[1])
            if b != self.ctx or not eng.prove_eq(st, off, K(self.buf)) or kb != self.ctx or not eng.prove_eq(st, koff, K(self.info['H'][0])):
                self.bad(st, 'block', 'the block multiplied is not the one being filled', c)
        else:
            if eng.base(a[0])[0] != self.ctx:
                self.bad(st, 'block', 'another state is compressed into', c)
            b, off = eng.base(a[1])
        p, done = self.get(st, 1), self.get(st, 0)
        if h.kind == POLY:
            if not eng.prove_eq(st, self.field(st, self.info['final'])):
                self.bad(st, 'last', 'a full block is treated as the last, short one', c)
        if b == self.ctx:
            if h.kind == POLY and not eng.prove_eq(st, a[2], K(h.block)):
                self.bad(st, 'block', 'not exactly one block of the buffer is compressed', c)
            if not eng.prove_eq(st, off, K(self.buf)):
                self.bad(st, 'block', 'what is compressed is not the buffered block', c)
            if not eng.prove_eq(st, p, K(h.block)):
                self.bad(st, 'block', 'the buffered block may be compressed before it is full', c)
            self.set(st, 1, ZERO)
            n = ZERO
        elif b == self.data:
            n = a[2] if h.kind == POLY else K(h.block)
            if not eng.prove_eq(st, off, done):
                self.bad(st, 'order', 'the block compressed is not the next of the input', c)
            if not eng.prove_eq(st, p):
                self.bad(st, 'block', 'a block of the input is compressed although bytes are buffered', c)
            if h.kind == POLY and not multiple(eng, st, n, h.block):
                self.bad(st, 'block', 'not a whole number of blocks is compressed', c)
            if not eng.prove_ge(st, lsub(lsub(self.size, done), n)):
                self.bad(st, 'order', 'more is compressed than the input has', c)
            self.take(st, n)
        else:
            return self.bad(st, 'block', 'what is compressed is neither the input nor the buffered block', c)
        if h.kind == BLAKE:
            if not eng.prove_eq(st, a[2]):
                self.bad(st, 'last', 'a block is compressed as the last one', c)
            if not eng.prove_ge(st, lsub(lsub(self.size, self.get(st, 0)), ONE)):
                self.bad(st, 'last', 'the block that ends the input is compressed at once, though it may be the last', c)
            if not eng.prove_eq(st, self.field(st, self.length), self.get(st, 2)):
                self.bad(st, 'count', 'the length does not count the block being compressed', c)

    def on_return(self, st, v, fn):
        eng, h = self.eng, self.hs
        self.ob += 1
        if not eng.prove_eq(st, self.get(st, 0), self.size):
            self.bad(st, 'order', 'the input is not taken completely')
        p = self.field(st, self.posn)
        if not eng.prove_eq(st, p, self.get(st, 1)):
            self.bad(st, 'position', 'the block position is not the number of bytes buffered')
        if not eng.prove_ge(st, lsub(K(h.block if h.kind == BLAKE else h.block - 1), self.get(st, 1))):
            self.bad(st, 'position', 'the block position may be beyond the block')
        if self.length and not eng.prove_eq(st, self.field(st, self.length), self.get(st, 2)):
            self.bad(st, 'count', 'the length does not count the input')


class Finish(Common):
    """a finish function with k bytes buffered"""
    def __init__(self, h, fn, prog, k):
        super().__init__(h, fn, prog)
        self.k = k

    def setup(self, eng, st, args):
        h = self.hs
        for a in args[:2]:
            eng.add_ne(st, a)
        self.ctx = eng.base(args[0])[0]
        self.out = args[1] if len(args) > 1 else None
        self.n0 = self.chain(st)
        self.put(st, self.posn, K(self.k))
        self.msg = []
        if h.kind != GHASH:
            for i in range(self.k):
                b = eng.fresh('byte%d' % i, 'int', 8, 0, 255)
                eng.store_cell(st, self.ctx, K(self.buf + i), 1, b)
                self.msg.append(bits.bits(eng, st, b, 8))
        if self.length:
            self.l0 = eng.fresh('length', 'int', 64)
            self.put(st, self.length, self.l0)
        if h.kind == POLY:
            self.put(st, self.info['final'], ZERO)
        if h.name == 'ghash' and len(args) > 2:
            eng.add_eq(st, lsub(args[2], K(16)))
        st.g['blocks'] = ()
        st.g['chain'] = self.n0
        return st

    def chain(self, st):
        """a chaining value nothing is known of; its bytes as they lie in memory"""
        eng, w = self.eng, self.hs.word
        out = []
        for i in range(self.hsize // w):
            x = eng.fresh('h%d' % i, 'int', 8 * w)
            eng.store_cell(st, self.ctx, K(self.hoff + i * w), w, x)
            out += [tuple(y) for y in bits.word(eng, st, x, 8 * w)]
        return tuple(out)

    def block(self, st, c):
        eng, h = self.eng, self.hs
        self.ob += 1
        a = [eng.norm(st, x) if isinstance(x, tuple) else x for x in c.args]
        if eng.base(a[0])[0] != self.ctx:
            return self.bad(st, 'padding', 'another state is compressed into', c)
        if h.kind == GHASH:
            b, off = eng.base(a[0])
            kb, koff = eng.base(a[1])
            if not eng.prove_eq(st, off, K(self.buf)) or kb != self.ctx or not eng.prove_eq(st, koff, K(self.info['H'][0])):
                self.bad(st, 'padding', 'the block multiplied is not the one being filled', c)
            data, flag = st.g['chain'], None
            if tuple(tuple(x) for x in bits.membytes(eng, st, ladd((0, ((self.ctx, 1),)), K(self.buf)), 16)) != data:
                self.bad(st, 'padding', 'the block is changed before it is multiplied', c)
        else:
            data = tuple(tuple(x) for x in bits.membytes(eng, st, a[1], h.block))
            flag = None
            if h.kind == BLAKE:
                flag = tuple(bits.bits(eng, st, a[2], 8 * h.word))
                if not eng.prove_eq(st, self.field(st, self.length), self.l0):
                    self.bad(st, 'count', 'the length changes before the last block is compressed', c)
            elif h.kind == POLY:
                flag = eng.prove_eq(st, self.field(st, self.info['final']), ONE)
                if not eng.prove_eq(st, a[2], K(h.block)):
                    self.bad(st, 'padding', 'not exactly one block is compressed', c)
        st.g['blocks'] = st.g['blocks'] + ((data, flag),)

    def compress(self, eng, st, c):
        self.block(st, c)
        eng.clobber(st, (self.hoff, ((self.ctx, 1),)), K(self.hsize), c)
        st.g['chain'] = self.chain(st)
        return [(st, ZERO)]

    def want(self, st):
        """the blocks of the specification"""
        h, k = self.hs, self.k
        z = (0,) * 8
        one = lambda v: tuple((v >> i) & 1 for i in range(8))
        msg = [tuple(x) for x in self.msg]
        if h.kind == GHASH:
            return [None] if k else []
        if h.kind == POLY:
            return [(tuple(msg + [one(1)] + [z] * (15 - k)), True)] if k else []
        if h.kind == BLAKE:
            return [(tuple(msg + [z] * (h.block - k)), (1,) * (8 * h.word))]
        lw = h.block // 8
        m = msg + [one(0x80)]
        while len(m) % h.block != h.block - lw:
            m.append(z)
        m += [z] * (lw - 8) + [tuple(x) for x in reversed(bits.word(self.eng, st, self.l0, 64))]
        return [(tuple(m[i:i + h.block]), None) for i in range(0, len(m), h.block)]

    def on_return(self, st, v, fn):
        eng, h = self.eng, self.hs
        got, want = st.g['blocks'], self.want(st)
        self.ob += 1
        at = 'with %d bytes buffered ' % self.k
        if len(got) != len(want):
            self.bad(st, 'padding', at + '%d blocks are compressed, not %d' % (len(got), len(want)))
        else:
            for g, w in zip(got, want):
                if w is None:
                    continue
                if g[0] != w[0]:
                    i = [i for i in range(h.block) if g[0][i] != w[0][i]][0]
                    self.bad(st, 'padding', at + 'byte %d of the block compressed is not the one of the specification' % i)
                elif g[1] != w[1]:
                    self.bad(st, 'padding', at + 'the block is not compressed as the last')
        if h.kind == GHASH and not eng.prove_eq(st, self.field(st, self.posn)):
            self.bad(st, 'padding', 'the block padded is not closed')
        if self.out is not None and h.kind != POLY:
            self.ob += 1
            d = st.g['chain']
            if h.kind == SHA:
                d = [x for i in range(0, len(d), h.word) for x in reversed(d[i:i + h.word])]
            if [tuple(x) for x in bits.membytes(eng, st, self.out, len(d))] != list(d):
                self.bad(st, 'output', at + 'the digest is not the chaining value in the byte order of the specification')


class Reset(Common):
    def setup(self, eng, st, args):
        for a in args:
            eng.add_ne(st, a)
        self.ctx = eng.base(args[0])[0]
        if self.hs.kind == POLY:
            self.key = []
            for i in range(32):
                b = eng.fresh('key%d' % i, 'int', 8, 0, 255)
                eng.store_cell(st, eng.base(args[1])[0], K(i), 1, b)
                self.key.append(bits.bits(eng, st, b, 8))
        return st

    def words(self):
        h = self.hs
        if h.kind in (POLY, GHASH):
            return [0] * (self.hsize // h.word)
        w = []
        for p in (2, 3, 5, 7, 11, 13, 17, 19):
            w.append(math.isqrt(p << (16 * h.word)) & ((1 << (8 * h.word)) - 1))
        if h.kind == BLAKE:
            w[0] ^= 0x01010000 ^ (8 * h.word)
        return w

    def on_return(self, st, v, fn):
        eng, h = self.eng, self.hs
        mem = lambda o, n: [tuple(x) for x in bits.membytes(eng, st, (o, ((self.ctx, 1),)), n)]
        self.ob += 1
        want = [tuple((w >> (8 * i + j)) & 1 for j in range(8)) for w in self.words() for i in range(h.word)]
        if mem(self.hoff, self.hsize) != want:
            self.bad(st, 'start', 'the chaining value does not start as specified')
        for f in (self.posn, self.length) + ((self.info['final'],) if h.kind == POLY else ()):
            self.ob += f is not None
            if f is not None and not eng.prove_eq(st, self.field(st, f)):
                self.bad(st, 'start', 'the block or the length is not empty at the start')
        if h.kind == POLY:
            self.ob += 2
            k = [x for b in self.key[:16] for x in b]
            for i in range(3, 16, 4):
                k[8 * i + 4:8 * i + 8] = [0] * 4
            for i in range(4, 16, 4):
                k[8 * i:8 * i + 2] = [0] * 2
            r, o = self.info['r'], 0
            got = []
            for n in (44, 44, 42):
                x = [y for b in mem(r[0] + o, 8) for y in b]
                got += x[:n] if not any(x[n:]) else [None] * n
                o += 8
            if got[:128] != k or any(got[128:]):
                self.bad(st, 'start', 'the multiplier is not the clamped first half of the key')
            if mem(self.info['pad'][0], 16) != [tuple(b) for b in self.key[16:]]:
                self.bad(st, 'start', 'the pad is not the second half of the key')


PRIM = re.compile(r'^(\w+?)_(reset|init|update|finish|final)$')
STAGE = {'reset': 'reset', 'init': 'reset', 'update': 'update', 'finish': 'finalize', 'final': 'finalize'}
HASHPRIM = re.compile(r'^(sha\d+|BLAKE2[sb]|crypto_hash_sha\d+|crypto_generichash(_blake2b)?)_')


class Slot(clients.ErrFork):
    """a function of a hash backend hands over to the primitive"""
    def __init__(self, slot, fn, digest):
        super().__init__()
        self.slot, self.fn, self.digest, self.ob = slot, fn, digest, 0
        self.where = set()

    def bad(self, st, msg, c=None):
        self.eng.report(st, 'backend', c.fn if c is not None else self.fn, c.inst if c is not None else None, msg)

    def setup(self, eng, st, args):
        for a in args[:2]:
            eng.add_ne(st, a)
        self.args = args
        self.obj = eng.base(args[0])[0]
        self.out = eng.base(args[1])[0] if self.slot == 'finalize' else None
        self.cells = region(eng, st, 'stream', [], const=False)[1][0][0]
        eng.store_cell(st, self.cells, ZERO, 8, ZERO)
        if self.slot == 'update':
            eng.add_ge(st, args[2])
            eng.add_ge(st, lsub(K(1 << 58), args[2]))
        return st

    def count(self, st, n=None):
        eng = self.eng
        v = eng.norm(st, eng.load_cell(st, self.cells, ZERO, 8, False, 64, None))
        if n is not None:
            eng.store_cell(st, self.cells, ZERO, 8, ladd(v, n))
        return v

    def on_call(self, st, c):
        eng = self.eng
        m = PRIM.match(c.name or '')
        if not m or not HASHPRIM.match(c.name):
            return
        self.ob += 1
        stage = STAGE[m.group(2)]
        a = [eng.norm(st, x) if isinstance(x, tuple) else x for x in c.args]
        b, off = eng.base(a[0])
        if b != self.obj or not isconst(off):
            return self.bad(st, 'another hash object is used', c)
        self.where.add((m.group(1), off[0]))
        if stage != self.slot:
            return self.bad(st, 'the %s function of the backend calls %s' % (self.slot, c.name), c)
        if stage == 'update':
            n = a[2]
            if not eng.prove_eq(st, a[1], ladd(self.args[1], self.count(st))) or not eng.prove_ge(st, lsub(lsub(self.args[2], self.count(st)), n)):
                self.bad(st, 'what is hashed is not the next of the input', c)
            self.count(st, n)
            return
        if not eng.prove_eq(st, self.count(st, ONE)):
            self.bad(st, 'the primitive is called twice', c)
        g = c.name.startswith('crypto_generichash')
        if stage == 'finalize':
            if eng.base(a[1])[0] not in (None, self.out, self.obj) and eng.syms[eng.base(a[1])[0]].rkind == 'alloca':
                st.g['tmp'] = a[1]
            elif not eng.prove_eq(st, a[1], self.args[1]):
                self.bad(st, 'the digest is not written to the output', c)
            if g and not eng.prove_eq(st, a[2], K(self.digest)):
                self.bad(st, 'the digest is not written to the output', c)
        elif g and not (eng.prove_eq(st, a[2]) and eng.prove_eq(st, a[3], K(self.digest))):
            self.bad(st, 'the hash starts with a key or with another output length', c)

    def wrote(self, st, b, off, length, why=None):
        if b is None or b != self.out:
            return
        if why is not None and HASHPRIM.match(getattr(why, 'name', None) or ''):
            return
        self.bad(st, 'the output is changed other than by the primitive')

    def on_store(self, st, b, off, size, val, inst, fn):
        self.wrote(st, b, off, K(size))

    def on_clobber(self, st, b, off, length, why):
        self.wrote(st, b, off, length, why)

    def on_copy(self, st, db, doff, sb, soff, n):
        t = st.g.get('tmp')
        if t and db == self.out and self.eng.prove_eq(st, t, ladd((0, ((sb, 1),)), soff)) and self.eng.prove_eq(st, doff) and self.eng.prove_eq(st, n, K(self.digest)):
            st.g['tmp'] = None
        else:
            self.wrote(st, db, doff, n)

    def on_fill(self, st, b, off, val, n):
        self.wrote(st, b, off, n)

    def on_return(self, st, v, fn):
        eng = self.eng
        self.ob += 1
        if not eng.prove_eq(st, self.count(st), self.args[2] if self.slot == 'update' else ONE):
            self.bad(st, 'the input is not hashed completely' if self.slot == 'update' else 'the primitive is not called')
        if st.g.get('tmp'):
            self.bad(st, 'the digest is not written to the output')


def multiple(eng, st, n, b):
    """is n a multiple of b: all its terms are, or it is X less X mod b"""
    n = eng.norm(st, n)
    if n[0] % b == 0 and all(c % b == 0 for s, c in n[1]):
        return True
    for s, c in n[1]:
        o = eng.syms[s].origin
        if c != -1 or not isinstance(o, tuple):
            continue
        rest = (n[0], tuple(z for z in n[1] if z[0] != s))
        if o[0] == 'and' and K(b - 1) in o[1:3]:
            x = o[1] if o[2] == K(b - 1) else o[2]
        elif o[0] == 'urem' and o[2] == K(b):
            x = o[1]
        else:
            continue
        if eng.prove_eq(st, x, rest):
            return True
    return False


def run1(lib, h, name, cl, inline):
    e = lib.engine([cl], inline=inline, override={n: cl.compress for n in compressors(lib, h)})
    e.contract = set(e.contract) | set(compressors(lib, h))
    e.run(cl.fn, cl.setup)
    r = engine_result(e, lambda rep: name, lib.prog.config)
    if not cl.ob:
        raise Broken('%s never returns' % name)
    r.count('obligations', cl.ob)
    return r


def unit(lib, h):
    m = [m for m in lib.prog.modules if m.name == h.unit]
    if not m:
        raise Broken('unit missing: %s' % h.unit)
    return m[0]


def compressors(lib, h):
    c = [f.name for f in unit(lib, h).functions.values() if f.order and h.compress.search(f.name)]
    known = [n for n in c if n in (h.name.lower() + '_transform', 'poly1305_blocks', 'GF128_mul')]
    c = known or c
    if not c:
        raise Broken('no compression function in %s' % h.unit)
    return c


def function(lib, h, what):
    n = '%s_%s' % (h.prefix, what)
    f = lib.prog.ext.get(n)
    if f is None:
        raise Broken('anchor vanished: %s' % n)
    return n, f


def helpers(lib, h):
    no = set(compressors(lib, h))
    return [f.name for f in unit(lib, h).functions.values() if f.order and f.name not in no]


def job(item):
    lib, h, what, ks = item
    n, f = function(lib, h, what)
    res = Result()
    if what == 'update':
        res.merge(run1(lib, h, n, Update(h, f, lib.prog), helpers(lib, h)))
        res.count('updates')
    elif ks is None:
        res.merge(run1(lib, h, n, Reset(h, f, lib.prog), helpers(lib, h)))
        res.count('resets')
    else:
        for k in ks:
            res.merge(run1(lib, h, n, Finish(h, f, lib.prog, k), helpers(lib, h)))
            res.count('positions')
    return res


def backend(item):
    lib, fns = item
    res, where = Result(), set()
    digest = 32 if re.search(r'256|2s', fns['update'].module.name) else 64
    for slot in ('reset', 'update', 'finalize'):
        if slot not in fns:
            raise Broken('no %s function in %s' % (slot, fns['update'].module.name))
        cl = Slot(slot, fns[slot], digest)
        e = lib.engine([cl])
        e.run(fns[slot], cl.setup)
        res.merge(engine_result(e, lambda rep: fns[slot].name, lib.prog.config))
        res.count('obligations', cl.ob)
        res.count('slots')
        if not cl.where:
            raise Broken('%s calls no hash primitive' % fns[slot].name)
        where |= cl.where
    if len(where) != 1:
        res.viol.append(V('backend', fns['update'].module.name, fns['update'].name,
                          'the functions of the backend use different hashes: %s' % ', '.join(sorted('%s at %d' % w for w in where)), config=lib.prog.config))
    return res


def backends(lib):
    sm, out = slots.slot_functions(lib), {}
    for slot in ('reset', 'update', 'finalize'):
        for f, _ in sm.get('NoiseHashState_s.' + slot, []):
            out.setdefault(f.module.name, {})[slot] = f
    if not out:
        raise Broken('no hash backends')
    return [(lib, fns) for n, fns in sorted(out.items()) if 'update' in fns]


def check(ctx):
    lib = ctx.lib('ref', crypto=True)
    items = [(lib, h, 'update', None) for h in HASHES]
    for h in HASHES:
        items.append((lib, h, 'init' if h.kind == POLY else 'reset', None))
        ks = list(range(h.block + 1 if h.kind == BLAKE else h.block))
        for what in ('pad', 'finalize') if h.kind == GHASH else ('finish',):
            ctx.count('finishes')
            items += [(lib, h, what, ks[i:i + 16]) for i in range(0, len(ks), 16)]
    ctx.pmap(job, items)
    items = []
    for config in ('ref', 'sodium'):
        items += backends(ctx.lib(config))
    ctx.pmap(backend, items)
