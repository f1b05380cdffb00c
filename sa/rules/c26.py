"""C26: HMAC, HKDF and PBKDF2 combine the hash as RFC 2104, RFC 5869 (Noise form) and RFC 8018 say."""
from ..absint import *
from .. import bits
from ..prov import Prov, showterm, HASH
from ..libmodels import sf, finfo
from .c19 import region
from ..run import Result, engine_result, V, Broken

RULES = [
    'hkdf: every successful path of noise_hashstate_hkdf leaves in the outputs the leading bytes of HMAC(t, 0x01) and HMAC(t, first || 0x02) with t = HMAC(key, data), where HMAC(k, m) is H((k\' xor 0x5c..) || H((k\' xor 0x36..) || m)) over whole blocks and k\' is k, or H(k) when k is longer than a block, padded with zeros',
    'pbkdf2: each output block i (counted from 1, four bytes, most significant first, after the salt) is the exclusive-or of exactly the requested number of chained HMACs under the passphrase, the blocks are stored one after another, the last one shortened, and together cover exactly the requested length',
    'digest: the one- and two-part hash helpers return the hash of exactly their parts in order',
    'lengths: an output longer than the function can give is refused with the length error and nothing is written; every other request succeeds',
]
EXPLANATION = 'content provenance of every byte fed to the hash and of every byte of output on every path, for each block and hash length, symbolic key, data, salt and output lengths and iteration counts (loops by induction)'
MIN = {'functions': 4, 'obligations': 40, 'success_paths': 12, 'hmacs': 8}
ASSUMPTIONS = ['the hash slots absorb and produce what they are given (C27, C20)', 'the buffers given by the caller do not overlap']
SIZES = [(32, 64), (64, 128)]     # hash and block lengths of the Noise hash functions (rule C20 ties the objects to them)
ROT = K(1 << 62)
MIXED = ('mixed',)
UC, BLK, OUT, FULL = 0, 8, 16, 24      # chained values of the block, blocks, bytes stored, bytes stored in whole blocks


def flat(t):
    return list(t[1]) if t and t[0] == 'cat' else [t]


class Terms(Prov):
    """content with byte-wise exclusive-or"""

    def __init__(self):
        super().__init__()
        self.loaded = {}                # value -> where it was loaded from (checked to be still there when used)

    def on_load(self, st, b, off, size, v, inst, fn):
        if b is not None and isconst(off) and isinstance(v, tuple) and v[1]:
            w = self.loaded.setdefault((v, size), [])
            if (b, off[0]) not in w:
                w.append((b, off[0]))

    def last(self, st, b, off, size):
        hist = st.g.get('prov', ())
        eng = self.eng
        for i in range(len(hist) - 1, -1, -1):
            q, m, t = hist[i]
            qb, qo = eng.base(q)
            if qb is None:
                return i
            if qb != b:
                continue
            if isconst(qo) and isconst(m):
                if qo[0] < off + size and off < qo[0] + m[0]:
                    return i
                continue
            if eng.prove_ge(st, lsub(K(off), ladd(qo, m))) or eng.prove_ge(st, lsub(qo, K(off + size))):
                continue
            return i
        return -1

    def peel(self, st, v, size):
        """(mask, [loads])"""
        mask, srcs, todo, n = 0, [], [v], 0
        while todo:
            x = todo.pop()
            n += 1
            if n > 40 or not isinstance(x, tuple):
                return None
            if isconst(x):
                mask ^= x[0] & ((1 << 8 * size) - 1)
                continue
            if x[0] or len(x[1]) != 1 or x[1][0][1] != 1:
                return None
            old = self.stored(st, x, size)
            if old is not None:
                mask ^= old[1]
                srcs += old[2]
                continue
            k = self.eng.syms[x[1][0][0]].origin
            op = k[0] if isinstance(k, tuple) and k else None
            if op in ('trunc', 'zext', 'sext'):
                todo.append(k[1])
            elif op == 'xor':
                todo += [k[1], k[2]]
            elif op == 'and' and any(isconst(y) and y[0] == (1 << 8 * size) - 1 for y in k[1:3]):
                todo += [y for y in k[1:3] if not isconst(y)]
            else:
                for b, o in self.loaded.get((x, size), ()):
                    if self.eng.norm(st, self.eng.load_cell(st, b, K(o), size, False, 8 * size, None)) == self.eng.norm(st, x):
                        srcs.append((b, o, self.last(st, b, o, size)))
                        break
                else:
                    return None
        return mask, srcs

    def stored(self, st, v, size):
        for q, m, t in reversed(st.g.get('prov', ())):
            if t[0] == 'xb' and t[3] == v and m == K(size):
                return t
        return None

    def on_store(self, st, b, off, size, val, inst, fn):
        if b is not None and isconst(off) and isinstance(val, tuple) and not isconst(val):
            r = self.peel(st, self.eng.norm(st, val), size)
            if r and r[1]:
                return self.put(st, (off[0], ((b, 1),)), K(size), ('xb', r[0], tuple(r[1]), self.eng.norm(st, val)))
        super().on_store(st, b, off, size, val, inst, fn)

    def content(self, st, p, n, upto=None):
        t = self.bytewise(st, p, n, upto)
        return t if t is not None else super().content(st, p, n, upto)

    def bytewise(self, st, p, n, upto):
        """a range whose last writes are single words that combine loaded words"""
        eng = self.eng
        b, off = eng.base(eng.norm(st, p))
        n = eng.norm(st, n)
        if b is None or not isconst(off) or not isconst(n) or not 0 < n[0] <= 256:
            return None
        hist = st.g.get('prov', ())
        cover = {}
        end = len(hist) if upto is None else upto
        lo, hi = off[0], off[0] + n[0]
        for i in range(end - 1, -1, -1):
            q, m, t = hist[i]
            qb, qo = eng.base(q)
            if qb is None:
                return None
            if qb != b:
                continue
            cst = t[0] == 'val' and isinstance(t[1], tuple) and isconst(t[1])
            if not isconst(qo) or not isconst(m) or not (t[0] == 'xb' or cst):
                if isconst(qo) and (qo[0] >= hi or (isconst(m) and qo[0] + m[0] <= lo)):
                    continue
                if not cover:
                    return None
                break
            v, ss = (t[1][0], ()) if cst else t[1:3]
            for j in range(m[0]):
                o = qo[0] + j
                if lo <= o < hi and o not in cover:
                    cover[o] = ((v >> 8 * j) & 255, sorted((sb, so + j - o, w) for sb, so, w in ss))
            if len(cover) == hi - lo:
                break
        if not any(ss for _, ss in cover.values()):
            return None
        if len(cover) != hi - lo:
            return MIXED
        segs = []
        for o in range(lo, hi):
            m, ss = cover[o]
            k = (m, tuple((sb, d) for sb, d, _ in ss))
            if segs and segs[-1][0] == k and (k[1] or m != 0):
                segs[-1][2] += 1
            else:
                segs.append([k, o, 1])
        out = []
        for (m, srcs), o, ln in segs:
            ts = []
            for i, (sb, d) in enumerate(srcs):
                w = max(cover[x][1][i][2] for x in range(o, o + ln))
                if any(self.overw(st, sb, x + d, cover[x][1][i][2], w + 1) for x in range(o, o + ln)):
                    return MIXED
                ts.append(self.content(st, (o + d, ((sb, 1),)), K(ln), w + 1))
            if len(ts) > 2 or (len(ts) == 2 and m):
                return MIXED
            out.append((m, ('zero',) if not ts else ts[0] if len(ts) == 1 else self.xor2(st, *ts)))
        if len({m for m, _ in out}) == 1:
            t = ('empty',)
            for _, x in out:
                t = self.cat(t, x)
            return self.xor(out[0][0], t)
        t = ('empty',)
        for (m, x), sg in zip(out, segs):
            t = self.cat(t, self.xor(m, x) if sg[0][1] else ('cat', (('val', K(m)),) * sg[2]))
        return t

    def overw(self, st, b, o, w, upto):
        """was byte o of b written between the writes w and upto"""
        hist = st.g['prov']
        eng = self.eng
        for i in range(w + 1, min(upto, len(hist))):
            q, m, t = hist[i]
            qb, qo = eng.base(q)
            if qb != b:
                continue
            if not isconst(qo) or not isconst(m) or qo[0] <= o < qo[0] + m[0]:
                return True
        return False

    def xor(self, m, t):
        if t[0] == 'xor':
            m ^= t[1]
            t = t[2]
        return t if m == 0 else ('xor', m, t)

    def xor2(self, st, a, b):
        return ('xor2',) + tuple(sorted((a, b), key=repr))

    # flatten the pieces of the hashed message; constants by value
    def on_call(self, st, c):
        if c.name == 'slot:NoiseHashState_s.update':
            old = self.hget(st, c.args[0])
            t = self.content(st, c.args[1], c.args[2])
            add = []
            for x in flat(t):
                if x == ('empty',):
                    continue
                if x[0] == 'val' and isinstance(x[1], tuple):
                    x = ('byte', K(x[1][0] & 255)) if isconst(x[1]) else x
                add.append(x)
            st.g['hacc'] = self.hset(st, c.args[0], old + tuple(add))
            return
        super().on_call(st, c)
        if c.name == 'slot:NoiseHashState_s.finalize':
            self.finished(st, c)

    def finished(self, st, c):
        pass

    # ---- specifications
    def kblock(self, k):
        """pieces of the padded key block as content() reports them"""
        return ('cat', tuple(x for x in flat(k) if x != ('zero',)) + (('zero',),)) if k[0] != 'empty' else ('zero',)

    def hmac(self, k, msg):
        kb = self.kblock(k)
        m = tuple(y for x in msg for y in flat(x))
        return ('hash', (('xor', 0x5c, kb), ('hash', (('xor', 0x36, kb),) + m)))


def lead(t, n):
    return ('part', ZERO, n, t)


class Base(Terms):
    def __init__(self, fn, hlen, blen, long):
        super().__init__()
        self.fn, self.hlen, self.blen, self.long = fn, hlen, blen, long
        self.ob = self.good = self.hm = 0

    def common(self, eng, st, args):
        for a in args:
            if eng.syms[a[1][0][0]].kind == 'ptr':
                eng.add_ne(st, a)
        self.args = args
        sf(eng, st, args[0], HASH, 'hash_len', K(self.hlen))
        sf(eng, st, args[0], HASH, 'block_len', K(self.blen))
        return st

    def inp(self, p, n):
        return ('in', p, n)

    def keyterm(self, eng, st, p, n):
        """the key as HMAC uses it; the run is for one side of the comparison with the block length"""
        if self.long:
            eng.add_ge(st, lsub(n, K(self.blen + 1)))
            return ('hash', (('in', p, n),))
        eng.add_ge(st, lsub(K(self.blen), n))
        return ('in', p, n)

    def same(self, st, a, b):
        if isinstance(a, tuple) and a and a[0] == 'cat' and len(a[1]) > 1 and isinstance(b, tuple) and b and b[0] != 'cat' and len(a[1]) == 2 and a[1][1] == ('zero',):
            return self.same(st, a[1][0], b)        # a key of exactly one block
        if isinstance(b, tuple) and b and b[0] == 'cat' and isinstance(a, tuple) and a and a[0] != 'cat':
            return len(b[1]) == 2 and b[1][1] == ('zero',) and self.same(st, a, b[1][0])
        return super().same(st, a, b)

    def finished(self, st, c):
        self.hm += 1

    def bad(self, st, rule, msg, inst=None):
        self.eng.report(st, rule, self.fn, inst, msg)

    def expect(self, st, rule, what, got, want):
        self.ob += 1
        if not self.same(st, got, want):
            self.bad(st, rule, '%s is %s, not %s' % (what, showterm2(self.eng, got), showterm2(self.eng, want)))


def showterm2(eng, t):
    k = t[0] if t else None
    if k == 'xor':
        return '(%s ^ 0x%02x)' % (showterm2(eng, t[2]), t[1])
    if k == 'xor2':
        return '(%s ^ %s)' % (showterm2(eng, t[1]), showterm2(eng, t[2]))
    if k == 'hash':
        return 'H(' + ' || '.join(showterm2(eng, x) for x in t[1]) + ')'
    if k == 'cat':
        return ' || '.join(showterm2(eng, x) for x in t[1])
    if k == 'part':
        return 'part of ' + showterm2(eng, t[3])
    if k == 'byte':
        return 'byte %d' % t[1][0]
    return showterm(eng, t)


class Hkdf(Base):
    def setup(self, eng, st, args):
        self.common(eng, st, args)
        self.key = self.keyterm(eng, st, args[1], args[2])
        return st

    def on_return(self, st, v, fn):
        eng, a = self.eng, self.args
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            fits = [eng.decide(s, Pred('ge', lsub(K(self.hlen), a[i]))) for i in (6, 8)]
            outs = {eng.base(a[5])[0], eng.base(a[7])[0]}
            if not ok:
                if not eng.prove_eq(s, v, K(BADLEN)):
                    self.bad(s, 'lengths', 'a key derivation fails with something other than the length error')
                if all(x is not False for x in fits):
                    self.bad(s, 'lengths', 'a key derivation whose outputs fit is refused')
                if any(eng.base(q)[0] in outs for q, m, t in s.g.get('prov', ())):
                    self.bad(s, 'lengths', 'a refused key derivation writes to an output')
                continue
            if any(x is not True for x in fits):
                self.bad(s, 'lengths', 'a key derivation longer than the hash succeeds')
            self.good += 1
            t = self.hmac(self.key, [('in', a[3], a[4])])
            o1 = self.hmac(t, [('byte', ONE)])
            o2 = self.hmac(t, [o1, ('byte', K(2))])
            for i, p, n, w in ((1, a[5], a[6], o1), (2, a[7], a[8], o2)):
                got = self.content(s, p, n)
                if eng.prove_eq(s, n):
                    continue
                if got[0] != 'part':
                    got = ('part', ZERO, n, got)
                if self.long is False and not self.same(s, got, lead(w, n)) and eng.prove_eq(s, a[2]):
                    continue
                self.expect(s, 'hkdf', 'output %d of the key derivation' % i, got, lead(w, n))


class Digest(Base):
    def setup(self, eng, st, args):
        self.common(eng, st, args)
        return st

    def on_return(self, st, v, fn):
        eng, a = self.eng, self.args
        hash_i = len(a) - 2
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            fits = eng.decide(s, Pred('eq', lsub(K(self.hlen), a[hash_i + 1])))
            if not ok:
                if fits is not False:
                    self.bad(s, 'lengths', 'a digest of the right length is refused')
                continue
            if fits is not True:
                self.bad(s, 'lengths', 'a digest of the wrong length is given')
            self.good += 1
            parts = tuple(('in', a[i], a[i + 1]) for i in range(1, hash_i, 2) if not eng.prove_eq(s, a[i + 1]))
            self.expect(s, 'digest', 'the digest', self.content(s, a[hash_i], K(self.hlen)), ('hash', parts))


class Pbkdf(Base):
    def __init__(self, fn, hlen, blen, long, iters):
        super().__init__(fn, hlen, blen, long)
        self.iters = iters

    def setup(self, eng, st, args):
        self.common(eng, st, args)
        self.key = self.keyterm(eng, st, args[1], args[2])
        self.it, self.out, self.olen = args[5], args[6], args[7]
        if self.iters == 0:
            eng.add_eq(st, self.it)
        else:
            eng.add_ge(st, lsub(self.it, ONE))
        eng.add_ge(st, lsub(K((1 << 62) - 1), self.it))
        self.cells = region(eng, st, 'pbkdf2', [], const=False)[1][0][0]
        for k in (UC, BLK, OUT, FULL):
            eng.store_cell(st, self.cells, K(k), 8, ZERO)
        self.outb = eng.base(self.out)[0]
        st.g.update(first=False, new=0, last=False)
        return st

    def get(self, st, k):
        return self.eng.load_cell(st, self.cells, K(k), 8, False, 64, None)

    def set(self, st, k, v):
        self.eng.store_cell(st, self.cells, K(k), 8, v)

    def remap(self, st, f):
        st.g['prov'] = tuple((q, m, f(t)) for q, m, t in st.g.get('prov', ()))

    def finished(self, st, c):
        """recognise the chained values as they are produced"""
        super().finished(st, c)
        eng = self.eng
        q, m, t = st.g['prov'][-1]
        nxt = self.hmac(self.key, [('U',)])
        if self.same(st, t, nxt):
            first = st.g.get('first')
            self.remap(st, lambda x: ('Fold',) if x == ('F',) or (x == ('U',) and first) else ('Uold',) if x in (('U',), ('Fold',)) else x)
            self.set(st, UC, ladd(self.get(st, UC), ONE))
            st.g['first'] = False
        else:
            start = self.hmac(self.key, [('in', self.args[3], self.args[4])])
            got = self.prefix(st, t, start)
            if got is None:
                return
            b = ladd(self.get(st, BLK), ONE)
            self.set(st, BLK, b)
            self.set(st, UC, ONE)
            self.ob += 1
            want = bits.word(eng, st, b, 32)[::-1]
            if got != want:
                self.bad(st, 'pbkdf2', 'the block number after the salt is not the four bytes of the number of the block, counted from one, most significant first', c.inst)
            self.remap(st, lambda x: ('Uold',) if x in (('U',), ('F',), ('Fold',)) else x)
            st.g['first'] = True
            st.g['new'] = min(st.g.get('new', 0) + 1, 2)
        h = st.g['prov']
        st.g['prov'] = h[:-1] + ((q, m, ('U',)),)

    def prefix(self, st, t, start):
        """the four bytes after the salt if t is HMAC(passphrase, salt || four bytes), else None"""
        try:
            k2, inner = t[1]
            msg = inner[1]
        except (IndexError, ValueError, TypeError):
            return None
        if t[0] != 'hash' or inner[0] != 'hash' or len(msg) < 2:
            return None
        if self.eng.prove_eq(st, self.args[4]):
            keep, rest = msg[:1], msg[1:]
            if rest and rest[0][0] == 'in':
                rest = rest[1:]
        else:
            keep, rest = msg[:2], msg[2:]
            if not self.same(st, keep[1], start[1][1][1][1]):
                return None
        if not self.same(st, k2, start[1][0]) or not self.same(st, keep[0], start[1][1][1][0]):
            return None
        out = []
        for x in rest:
            v = x[1] if x[0] in ('val', 'byte') else None
            if v is None:
                return None
            out.append(bits.bits(self.eng, st, v, 8))
        return out

    def xor2(self, st, a, b):
        if {a, b} == {('Fold',), ('U',)}:
            return ('F',)
        return super().xor2(st, a, b)

    def put(self, st, p, n, term):
        eng = self.eng
        b, off = eng.base(eng.norm(st, p))
        if b is not None and b == self.outb:
            if eng.prove_eq(st, eng.norm(st, n)):
                return
            self.ob += 1
            at = self.get(st, OUT)
            t = term
            if t[0] == 'part' and eng.prove_eq(st, t[1]):
                t = t[3]
            if not (t == ('F',) or (t == ('U',) and st.g.get('first'))):
                self.bad(st, 'pbkdf2', 'what is stored in the output is %s, not the exclusive-or of the chained values of a block' % showterm2(eng, term))
            uc = self.get(st, UC)
            if not (eng.prove_eq(st, uc, self.it) if self.iters else eng.prove_eq(st, uc, ONE)):
                self.bad(st, 'pbkdf2', 'an output block is stored after a number of iterations other than the requested one')
            full = self.get(st, FULL)
            if st.g.get('last'):
                self.bad(st, 'pbkdf2', 'output is stored after a shortened block')
            elif not eng.prove_eq(st, ladd(self.out, at), p) and not eng.prove_eq(st, ladd(self.out, full), p):
                self.bad(st, 'pbkdf2', 'an output block is not stored right after the previous one')
            if st.g.get('new') != 1:
                self.bad(st, 'pbkdf2', 'an output block is not the next block in number')
            st.g['new'] = 0
            if not eng.prove_ge(st, lsub(K(self.hlen), n)):
                self.bad(st, 'pbkdf2', 'more is stored than one block holds')
            self.set(st, OUT, ladd(at, n))
            if eng.prove_eq(st, n, K(self.hlen)):
                self.set(st, FULL, ladd(full, n))
            else:
                st.g['last'] = True
            return
        super().put(st, p, n, term)

    def on_back_edge(self, st, fn, header):
        eng = self.eng
        keep = []
        seen = set()
        for q, m, t in reversed(st.g.get('prov', ())):
            b = eng.base(q)[0]
            if b is None or b in seen:
                continue
            seen.add(b)
            t = self.content(st, (0, ((b, 1),)), K(self.hlen))
            if t in (('U',), ('F',), ('Fold',)):
                keep.append(((0, ((b, 1),)), K(self.hlen), t))
            elif eng.syms[b].rkind != 'alloca':
                keep.append(((0, ((b, 1),)), ROT, ('by', 'an earlier round')))
        st.g['prov'] = tuple(sorted(keep, key=repr))
        st.g['hacc'] = ()
        st.g['pev'] = ()

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            lim = K(0xffffffff * self.hlen)
            at = self.get(s, OUT)
            if not ok:
                if not eng.prove_eq(s, v, K(BADLEN)):
                    self.bad(s, 'lengths', 'a password derivation fails with something other than the length error')
                if not eng.prove_ge(s, lsub(self.olen, ladd(lim, ONE))):
                    self.bad(s, 'lengths', 'a password derivation of a permitted length is refused')
                if not eng.prove_eq(s, at):
                    self.bad(s, 'lengths', 'a refused password derivation writes output')
                continue
            self.good += 1
            if not eng.prove_ge(s, lsub(lim, self.olen)):
                self.bad(s, 'lengths', 'a password derivation of more blocks than can be numbered succeeds')
            if not eng.prove_eq(s, at, self.olen):
                self.bad(s, 'pbkdf2', 'the stored blocks do not add up to the requested length')


BADLEN = None


def job(item):
    global BADLEN
    from ..handshake import const
    BADLEN = const('NOISE_ERROR_INVALID_LENGTH')
    lib, kind, f, h, b, long, it = item
    cl = {'hkdf': Hkdf, 'digest': Digest}[kind](f, h, b, long) if kind != 'pbkdf2' else Pbkdf(f, h, b, long, it)
    e = lib.engine([cl])
    e.max_steps = 4000000
    e.models.pop(f.name, None)
    e.run(f, cl.setup)
    tag = '%s hash %d%s%s' % (f.name, h, ' long key' if long else '', '' if it is None else ' iterations %s' % ('0' if it == 0 else '>=1'))
    r = engine_result(e, lambda rep: tag, lib.prog.config)
    r.count('runs')
    r.count('obligations', cl.ob)
    r.count('success_paths', cl.good)
    r.count('hmacs', cl.hm)
    r.samples.append({'run': tag, 'hash_computations': cl.hm})
    if not cl.good and not r.viol:
        raise Broken('%s never succeeds' % tag)
    return r


def check(ctx):
    lib = ctx.lib('ref')
    sizes = SIZES
    items = []
    fs = {k: ctx.fn(lib, 'noise_hashstate_' + k) for k in ('hkdf', 'pbkdf2', 'hash_one', 'hash_two')}
    for h, b in sizes:
        for long in (False, True):
            items.append((lib, 'hkdf', fs['hkdf'], h, b, long, None))
            for it in (0, 1):
                items.append((lib, 'pbkdf2', fs['pbkdf2'], h, b, long, it))
        for n in ('hash_one', 'hash_two'):
            items.append((lib, 'digest', fs[n], h, b, False, None))
    ctx.count('functions', len(fs))
    ctx.pmap(job, items)
