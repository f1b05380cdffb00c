"""C22: protobuf values are encoded and decoded exactly, text is validated, and errors stick."""
from ..absint import *
from ..bits import bits, inv, xor, value, fixed, Raw
from ..libmodels import gf, ef, finfo
from ..run import engine_result, Result, V, Broken
from .c21 import checkers

RULES = [
    'sticky: when the buffer already holds an error every operation on it reports a failure (a tag peeked is 0, an element is at its end), consumes nothing, stores nothing in the buffer and leaves the recorded error alone',
    'latch: an operation with valid arguments that fails records exactly the error it returns, one that succeeds leaves the buffer free of errors; read_stop always fails and records it; finish_input succeeds only when everything was consumed',
    'decode: a successful read consumed a tag with exactly the expected number and wire type (nothing for tag 0, never for a negative tag) followed by an encoding of the value stored: a varint of at most ten bytes (zigzag for sint, non-zero for bool, low-order bits for the type), 4 or 8 little-endian bytes, or a length and that many bytes',
    'encode: a successful write produced exactly the tag (none for tag 0) with the wire type of the type and the shortest varint, little-endian or length-delimited encoding of its value',
    'peek: the tag or size reported without reading is the one that reading would find, and 0 when there is none',
    'text: strings are accepted only if every byte sequence in them is well-formed UTF-8 without NUL (RFC 3629), and all such strings are accepted',
]
EXPLANATION = 'each public function on all paths; values are followed bit by bit from the encoded bytes to the result and back; the text checker is compared with the RFC 3629 table on all contents of strings up to 5 bytes, which covers every combination of one character and its successor'
MIN = {'functions': 40, 'decoders': 18, 'encoders': 14, 'obligations': 8000, 'texts': 1500}
ASSUMPTIONS = ['the loop of the text checker carries nothing but the position from one character to the next (its code is compared for strings up to 5 bytes)']
PB, F = 'NoiseProtobuf', 'noise_protobuf_'
INV = 'NOISE_ERROR_INVALID_PARAM'
VAR, W64, DELIM, W32 = 0, 1, 2, 5
INTS = {'int32': 32, 'uint32': 32, 'int64': 64, 'uint64': 64, 'sint32': 32, 'sint64': 64, 'bool': 32}
FIXED = {'fixed32': 4, 'sfixed32': 4, 'fixed64': 8, 'sfixed64': 8, 'float': 4, 'double': 8}
NOFAIL = {F + 'peek_tag', F + 'peek_size', F + 'read_at_end_element'}
MAXTAG = (1 << 29) - 1


def pad(l, w):
    return (list(l) + [0] * w)[:w]


class Base:
    def __init__(self, fn):
        self.fn = fn
        self.ob = self.good = 0

    def rep(self, st, rule, msg):
        self.eng.report(st, rule, self.fn, None, msg)

    def g(self, st, f):
        return gf(self.eng, st, self.p, PB, f)

    def e(self, f):
        return ef(self.eng, self.p, PB, f)

    def eq(self, st, a, b=ZERO):
        return isinstance(a, tuple) and self.eng.prove_eq(st, lsub(a, b))

    def valid(self, eng, st, args):
        """arguments a caller may pass"""
        self.args = args
        self.p = args[0]
        n = self.fn.name
        for a, p in zip(args, self.fn.params):
            if p[0][0] == 'ptr':
                eng.add_ne(st, a)
        eng.add_ge(st, lsub(self.g(st, 'size'), self.g(st, 'posn')))
        eng.add_ge(st, lsub(K(1 << 62), self.g(st, 'size')))
        if '_read_' in n or '_peek_' in n:
            eng.add_ne(st, self.g(st, 'data'))
        if n == F + 'read_string':
            eng.add_ge(st, lsub(args[3], ONE))
        if n == F + 'write_start_element':
            eng.add_ge(st, lsub(args[2], self.g(st, 'posn')))
            eng.add_ge(st, lsub(self.g(st, 'size'), args[2]))
        return st

    def is_null(self, st, v):
        """v is a failure report"""
        return None


class Sticky(Base):
    def setup(self, eng, st, args):
        self.valid(eng, st, args)
        self.err = self.g(st, 'error')
        eng.add_ne(st, self.err)
        self.D = eng.base(eng.norm(st, self.g(st, 'data')))[0]
        return st

    def touch(self, st, b, inst, fn):
        if b is not None and b == self.D:
            self.eng.report(st, 'sticky', fn or self.fn, inst, '%s may store into the buffer after an error' % self.fn.name)

    def on_store(self, st, b, off, size, val, inst, fn):
        self.touch(st, b, inst, fn)

    def on_copy(self, st, db, doff, sb, soff, length):
        self.touch(st, db, None, None)

    def on_fill(self, st, b, off, val, length):
        self.touch(st, b, None, None)

    def on_return(self, st, v, fn):
        eng, n = self.eng, self.fn.name
        self.good += 1
        self.ob += 3
        if not self.eq(st, self.g(st, 'error'), self.err):
            self.rep(st, 'sticky', '%s may change the error recorded before' % n)
        if not self.eq(st, self.g(st, 'posn'), self.e('posn')):
            self.rep(st, 'sticky', '%s may go on after an error' % n)
        pred = v if isinstance(v, Pred) else Pred('eq', v, True)
        want = not n.startswith(F + 'peek_')
        if eng.decide(st, pred) is not want:
            self.rep(st, 'sticky', '%s may %s after an error' % (n, 'succeed' if want else 'report something'))


class Latch(Base):
    def setup(self, eng, st, args):
        self.valid(eng, st, args)
        eng.add_eq(st, self.g(st, 'error'))
        return st

    def on_return(self, st, v, fn):
        eng, n = self.eng, self.fn.name
        self.good += 1
        if n in NOFAIL:
            self.ob += 1
            if not self.eq(st, self.g(st, 'error')):
                self.rep(st, 'latch', '%s only looks and may record an error' % n)
            return
        if n == F + 'read_stop':
            self.ob += 1
            if eng.decide(st, Pred('eq', v)) is not False:
                self.rep(st, 'latch', '%s may succeed' % n)
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            r = self.g(s, 'error')
            if ok:
                if not self.eq(s, r):
                    self.rep(s, 'latch', '%s may succeed although an error is recorded' % n)
                if n == F + 'finish_input' and not self.eq(s, self.e('posn'), self.e('size')):
                    self.rep(s, 'latch', 'unread data at the end of the input goes unnoticed')
            elif not self.eq(s, r, v):
                self.rep(s, 'latch', '%s may fail without recording its error' % n)


class Codec(Base):
    """bit-exact view of the bytes in the buffer"""

    def __init__(self, fn, mode):
        super().__init__(fn)
        self.mode = mode
        self.raw = {}
        self.copies = []

    def rawbits(self, s, st=None):
        r = self.raw.get(s)
        if r is None:
            r = self.raw[s] = tuple(bits(self.eng, None, (0, ((s, 1),)), 64))
        if st is not None and None in r:
            r = tuple(bits(self.eng, Raw(st), (0, ((s, 1),)), 64))
        return r

    def byte(self, st, posn, i):
        """symbol of byte i after a position, or its constant"""
        eng = self.eng
        b, off = eng.base(self.D)
        at = ladd(ladd(off, posn), K(i))
        if F + 'write_' in self.fn.name:
            at = eng.norm(st, at)
        return eng.load_cell(st, b, at, 1, False, 8, None)

    def sym(self, lin):
        return lin[1][0][0] if len(lin[1]) == 1 and lin[0] == 0 and lin[1][0][1] == 1 else None

    def bit7(self, st, B):
        """is the top bit of a byte set? True, False or None"""
        eng = self.eng
        if eng.prove_ge(st, lsub(K(127), B)):
            return False
        if eng.prove_ge(st, lsub(B, K(128))):
            return True
        bs = bits(eng, None, B, 8)
        for y in range(len(eng.syms)):
            r = self.rawbits(y) if self.opq(y, ('and', 'lshr', 'udiv')) else None
            if r and sum(1 for x in r if x != 0) == 1 and bs[7] in r:
                v = eng.norm(st, (0, ((y, 1),)))
                if isconst(v):
                    return v[0] != 0
                if eng.decide(st, Pred('eq', v)) is False:
                    return True
        return None

    def opq(self, y, ops):
        og = self.eng.syms[y].origin if not isinstance(self.eng.syms, dict) or y in self.eng.syms else None
        return isinstance(og, tuple) and og and og[0] in ops

    def varint(self, st, posn, n):
        """the 64 bits encoded by n bytes at a position, or None if they are not a varint of that length"""
        out, env = [], {}
        for i in range(n):
            B = self.byte(st, posn, i)
            if self.bit7(st, B) is not (i < n - 1):
                return None
            bs = bits(self.eng, None, B, 8)
            out += bs[:7]
            if bs[7] not in (0, 1):
                env[bs[7]] = int(i < n - 1)
        return pad(out, 64), env

    def same(self, st, a, b, env):
        for x, y in zip(a, b):
            if x == y and x is not None:
                continue
            x, y = fixed(self.eng, st, value(x, env)), fixed(self.eng, st, value(y, env))
            if x is None or x != y:
                return False
        return True

    def cands(self, st):
        return range(len(self.eng.syms))

    def lins(self, st, la, env):
        """linear values with given bits"""
        for y in self.cands(st):
            if self.same(st, self.rawbits(y, st), la, env):
                yield (0, ((y, 1),))
        # a value put together from groups of seven bits
        for pick in (0, -1):
            z = ZERO
            for i in range(0, 64, 7):
                part = pad(la[i:i + 7], 64)
                c = [(0, ((y, 1),)) for y in self.cands(st) if self.same(st, self.rawbits(y, st), part, env)] if any(part) else [ZERO]
                if not c:
                    return
                z = ladd(z, lscale(c[pick], 1 << i))
            yield z

    def equal(self, st, la, lb, env, consts=()):
        """is the value with bits la known to equal the one with bits lb (or one of the given linear values)"""
        eng = self.eng
        X = self.lins(st, la, env)
        Y = list(consts) + (list(self.lins(st, lb, env)) if lb is not None else [])
        return any(eng.prove_eq(st, lsub(x, y)) for x in X for y in Y)

    def setup(self, eng, st, args):
        self.valid(eng, st, args)
        eng.add_eq(st, self.g(st, 'error'))
        if F + 'write_' in self.fn.name:
            eng.add_ne(st, self.g(st, 'data'))
        self.D = eng.norm(st, self.g(st, 'data'))
        t = self.mode.get('tag')
        if len(args) > 1 and self.fn.params[1][0] == ('int', 32) and t:
            if t == 'zero':
                eng.add_eq(st, args[1])
            elif t == 'positive':
                eng.add_ge(st, lsub(args[1], ONE))
            elif t == 'negative':
                eng.add_ge(st, lsub(K(-1), args[1]))
        sg = self.mode.get('sign')
        if sg:
            w = self.fn.params[2][0][1]
            v = args[2]
            eng.add_ge(st, (v if w == 32 else lsub(K((1 << 63) - 1), v)) if sg == '+' else lsub(K(-1), v) if w == 32 else lsub(v, K(1 << 63)))
        return st

    def tag(self, st, posn, total, wire):
        """possible lengths of the tag with the wire type at a position"""
        eng = self.eng
        t = self.args[1]
        if self.mode['tag'] == 'zero':
            return [0]
        out = []
        tb = bits(eng, None, t, 32)
        want = [(wire >> i) & 1 for i in range(3)] + tb[:31] + [0] * 30
        for n in range(1, (total if total is not None else 11)):
            r = self.varint(st, posn, n) if n <= 10 else None
            if r is None:
                continue
            lanes, env = r
            env = dict(env)
            env[tb[31]] = 0
            if self.equal(st, lanes, want, env, [ladd(lscale(t, 8), K(wire))]) or self.same(st, lanes, want, env):
                out.append(n)
        return out

    # -- reading
    def on_copy(self, st, db, doff, sb, soff, length):
        if sb is not None and sb == self.eng.base(self.D)[0]:
            st.g['copy'] = (db, self.eng.norm(st, doff), sb, self.eng.norm(st, soff), self.eng.norm(st, length))
        elif db is not None and db == self.eng.base(self.D)[0]:
            st.g['copy'] = (db, self.eng.norm(st, doff), sb, self.eng.norm(st, soff), self.eng.norm(st, length))

    def consumed(self, st):
        d = self.eng.norm(st, lsub(self.g(st, 'posn'), self.e('posn')))
        return d[0] if isconst(d) else None

    def out(self, st, i, size, signed=False, ptr=False):
        b, off = self.eng.base(self.eng.norm(st, self.args[i]))
        return self.eng.load_cell(st, b, off, size, ptr, 8 * size, None)

    def reader(self, st, v):
        eng = self.eng
        ty = self.fn.name[len(F + 'read_'):]
        p0 = self.e('posn')
        for s, ok in eng.split(st, Pred('eq', v)):
            if not ok:
                if (ty in INTS or ty in FIXED) and self.mode['tag'] != 'negative':
                    self.refused(s, ty, p0)
                continue
            self.good += 1
            self.ob += 1
            if self.mode['tag'] == 'negative':
                self.rep(s, 'decode', '%s accepts a negative tag' % self.fn.name)
                continue
            if ty in INTS:
                self.dec_int(s, ty, p0)
            elif ty in FIXED:
                n = FIXED[ty]
                tot = self.consumed(s)
                ts = self.tag(s, p0, tot, W32 if n == 4 else W64) if tot is not None else []
                if not any(t + n == tot for t in ts):
                    self.rep(s, 'decode', '%s succeeds without having consumed the expected tag and %d bytes' % (self.fn.name, n))
                    continue
                got = bits(eng, None, self.out(s, 2, n), 8 * n)
                want = []
                for i in range(n):
                    want += bits(eng, None, self.byte(s, p0, tot - n + i), 8)
                if not self.same(s, got, want, {}):
                    self.rep(s, 'decode', '%s does not store the little-endian value of the bytes read' % self.fn.name)
            else:
                self.dec_delim(s, ty, p0)

    def refused(self, s, ty, p0):
        """a read failed: what it was asked for must not be there"""
        self.ob += 1
        for t in self.tag(s, p0, None, VAR if ty in INTS else W32 if FIXED[ty] == 4 else W64):
            at = ladd(p0, K(t))
            if t and not self.inside(s, p0, t):
                continue
            if not self.truncated(s, at) if ty in INTS else not self.eng.prove_ge(s, lsub(ladd(at, K(FIXED[ty] - 1)), self.e('size'))):
                self.rep(s, 'decode', '%s refuses a valid value' % self.fn.name)

    def dec_int(self, s, ty, p0):
        eng = self.eng
        w = INTS[ty]
        tot = self.consumed(s)
        if tot is None:
            return self.rep(s, 'decode', '%s consumes an unknown number of bytes' % self.fn.name)
        found = False
        for t in self.tag(s, p0, tot, VAR):
            r = self.varint(s, ladd(p0, K(t)), tot - t) if 1 <= tot - t <= 10 else None
            if r is None:
                continue
            found = True
            lanes, env = r
            x = self.out(s, 2, w // 8)
            got = bits(eng, None, x, w)
            if ty == 'bool':
                x = x if isinstance(x, Pred) else eng.norm(s, x)
                cs = [(z, int(b)) for z, b in eng.split(s, x)] if isinstance(x, Pred) else [(s, x[0])] if isconst(x) else []
                if cs and all(b in (0, 1) and (self.nonzero(z, lanes, env) if b else self.iszero(z, lanes, env)) for z, b in cs):
                    return
            elif ty in ('sint32', 'sint64'):
                z = pad(lanes[1:], 64)[:w]
                b = self.bit(s, lanes[0])
                if self.same(s, got, [xor(i, lanes[0]) for i in z], env if b is None else {**env, lanes[0]: b}):
                    return
            elif self.same(s, got, lanes[:w], env):
                return
        self.rep(s, 'decode', ('%s does not store the value that is encoded' if found else '%s succeeds without having consumed the expected tag and a varint') % self.fn.name)

    def bit(self, st, lane):
        if lane in (0, 1):
            return lane
        for y in self.cands(st):
            if self.opq(y, ('and', 'urem', 'trunc', 'zext', 'part', 'shl')):
                r = self.rawbits(y)
                if r and r[0] == lane and all(x == 0 for x in r[1:]):
                    v = self.eng.norm(st, (0, ((y, 1),)))
                    if isconst(v):
                        return v[0]
        return None

    def iszero(self, st, lanes, env):
        return any(self.eng.prove_eq(st, x) for x in self.lins(st, lanes, env))

    def nonzero(self, st, lanes, env):
        return any(self.eng.decide(st, Pred('eq', x)) is False for x in self.lins(st, lanes, env))

    def lengths(self, s, p0, wire=DELIM):
        """(bytes of tag and length, length value) of what was consumed"""
        eng = self.eng
        out = []
        for t in self.tag(s, p0, 11, wire):
            for n in range(1, 11):
                r = self.varint(s, ladd(p0, K(t)), n)
                if r is None:
                    continue
                out += [(t + n, x) for x in self.lins(s, r[0], r[1])]
                c = self.constant(r)
                if c is not None:
                    out.append((t + n, K(c)))
        return out

    def constant(self, r):
        l = [r[1].get(x, x) for x in r[0]]
        return sum(b << i for i, b in enumerate(l)) if all(b in (0, 1) for b in l) else None

    def dec_delim(self, s, ty, p0):
        eng = self.eng
        p1 = self.g(s, 'posn')
        if ty == 'start_element':
            end = self.out(s, 2, 8)
            if self.mode['tag'] == 'zero':
                if not self.eq(s, p1, p0):
                    self.rep(s, 'decode', 'an element without a tag consumes something')
                return
            if not any(self.eq(s, p1, ladd(p0, K(h))) and self.eq(s, end, ladd(p1, n)) for h, n in self.lengths(s, p0)):
                self.rep(s, 'decode', 'an element is opened without its tag, or its end is not its length further on')
            return
        # strings and bytes
        alloc = 'alloc' in ty
        dst = self.out(s, 2, 8, ptr=True) if alloc else self.args[2]
        for h, n in self.lengths(s, p0):
            if self.eq(s, p1, ladd(ladd(p0, K(h)), n)):
                break
        else:
            return self.rep(s, 'decode', '%s succeeds without having consumed the expected tag, a length and that many bytes' % self.fn.name)
        db, do = eng.base(eng.norm(s, dst))
        if db is None:
            return self.rep(s, 'decode', '%s succeeds without a result' % self.fn.name)
        if not self.eq(s, n):
            c = s.g.get('copy')
            src = ladd(p0, K(h))
            b, off = eng.base(self.D)
            if c is None or c[0] != db or not self.eq(s, c[1], do) or not self.eq(s, c[3], ladd(off, src)) or not self.eq(s, c[4], n):
                self.rep(s, 'decode', '%s does not store exactly the bytes of the field' % self.fn.name)
        if 'string' in ty:
            z = eng.load_cell(s, db, ladd(do, n), 1, False, 8, None)
            if not self.eq(s, z):
                self.rep(s, 'decode', '%s does not terminate the string' % self.fn.name)
            if not s.g.get('text'):
                self.rep(s, 'text', '%s accepts a string that was not checked' % self.fn.name)
        sz = self.args[4]
        sb, so = eng.base(eng.norm(s, sz))
        if sb is not None and not self.eq(s, eng.load_cell(s, sb, so, 8, False, 64, None), n):
            self.rep(s, 'decode', '%s does not report the length of the field' % self.fn.name)

    def on_call_done(self, st, c, ret):
        if c.name in self.chk:
            out = []
            for s, z in self.eng.split(st, Pred('eq', ret)):
                s.g['text'] = not z
                s.g['textof'] = tuple(self.eng.norm(s, a) for a in c.args)
                out.append((s, ret))
            return out

    def skip(self, st, v):
        eng = self.eng
        p0 = self.e('posn')
        for s, ok in eng.split(st, Pred('eq', v)):
            if not ok:
                continue
            self.good += 1
            self.ob += 1
            p1 = self.g(s, 'posn')
            tot = self.consumed(s)
            fine = False
            for n in range(1, 11):
                r = self.varint(s, p0, n)
                if r is None:
                    continue
                wire = self.low3(s, r)
                if wire == VAR:
                    fine = tot is not None and 1 <= tot - n <= 10 and self.varint(s, ladd(p0, K(n)), tot - n) is not None
                elif wire in (W64, W32):
                    fine = tot == n + (8 if wire == W64 else 4)
                elif wire == DELIM:
                    for m in range(1, 11):
                        q = self.varint(s, ladd(p0, K(n)), m)
                        if q is None:
                            continue
                        fine |= any(self.eq(s, p1, ladd(ladd(p0, K(n + m)), x)) for x in self.lins(s, q[0], q[1]))
                break
            if not fine:
                self.rep(s, 'decode', 'a field is skipped other than its wire type demands')

    def low3(self, s, r):
        want = pad(r[0][:3], 64)
        for y in self.cands(s):
            if self.opq(y, ('and', 'urem')) and self.same(s, self.rawbits(y, s), want, r[1]):
                v = self.eng.norm(s, (0, ((y, 1),)))
                if isconst(v):
                    return v[0]
        return None

    def peek(self, st, v):
        eng = self.eng
        p0 = self.e('posn')
        size = self.fn.name == F + 'peek_size'
        for s, zero in eng.split(st, Pred('eq', v)):
            self.good += 1
            self.ob += 1
            tag = self.first(s, p0)
            if not zero:
                ok = False
                if tag is not None:
                    n, r = tag
                    if not size:
                        got = bits(eng, None, v, 32)
                        ok = self.inside(s, p0, n) and self.same(s, got, pad(r[0][3:], 64)[:32], r[1]) and \
                            eng.prove_ge(s, lsub(v, ONE)) and eng.prove_ge(s, lsub(K(MAXTAG), v)) and self.upper(s, r)
                    elif self.low3(s, r) == DELIM:
                        q = self.first(s, ladd(p0, K(n)))
                        ok = q is not None and self.inside(s, p0, n + q[0]) and self.same(s, bits(eng, None, v, 64), q[1][0], q[1][1])
                if not ok:
                    self.rep(s, 'peek', '%s reports something that is not in the input' % self.fn.name)
                continue
            # nothing reported: there must be nothing to report
            if tag is None or not self.inside(s, p0, tag[0]):
                if tag is not None and self.maybe_inside(s, p0, tag[0]) or tag is None and not self.truncated(s, p0):
                    self.rep(s, 'peek', '%s reports nothing although there is a tag' % self.fn.name)
                continue
            n, r = tag
            if not size:
                if not self.tagless(s, r):
                    self.rep(s, 'peek', '%s reports nothing although there is a tag' % self.fn.name)
                continue
            w = self.low3(s, r)
            if w is not None and w != DELIM or w is None and self.notdelim(s, r):
                continue
            q = self.first(s, ladd(p0, K(n)))
            if q is None:
                if not self.truncated(s, ladd(p0, K(n))):
                    self.rep(s, 'peek', '%s reports nothing although there is a size' % self.fn.name)
            elif self.inside(s, p0, n + q[0]) and not self.iszero(s, q[1][0], q[1][1]) and not self.small0(s, q, p0, n):
                self.rep(s, 'peek', '%s reports nothing although there is a size' % self.fn.name)

    def small0(self, s, q, p0, n):
        return q[0] == 1 and self.eq(s, self.byte(s, ladd(p0, K(n)), 0))

    def notdelim(self, s, r):
        want = pad(r[0][:3], 64)
        return any(self.opq(y, ('and', 'urem')) and self.same(s, self.rawbits(y, s), want, r[1]) and
                   self.eng.decide(s, Pred('eq', ladd((0, ((y, 1),)), K(-DELIM)))) is False for y in self.cands(s))

    def first(self, s, p0):
        """(length, varint) of the varint at a position, as far as the path has looked"""
        for n in range(1, 11):
            b = self.bit7(s, self.byte(s, p0, n - 1))
            if b is None:
                return None
            if b is False:
                r = self.varint(s, p0, n)
                return (n, r) if r else None
        return None

    def inside(self, s, p0, n):
        return self.eng.prove_ge(s, lsub(self.e('size'), ladd(p0, K(n))))

    def maybe_inside(self, s, p0, n):
        return not self.eng.prove_ge(s, lsub(ladd(p0, K(n - 1)), self.e('size')))

    def truncated(self, s, p0):
        """the input ends inside the varint at a position, or it is longer than ten bytes"""
        for n in range(0, 10):
            if self.eng.prove_ge(s, lsub(ladd(p0, K(n)), self.e('size'))):
                return True
            if self.bit7(s, self.byte(s, p0, n)) is not True:
                return False
        return True

    def upper(self, s, r):
        """the tag fits 29 bits"""
        hi = pad(r[0][32:], 64)
        if all(r[1].get(x, x) == 0 for x in hi):
            return True
        want = pad(r[0][3:], 64)
        return any(self.same(s, self.rawbits(y, s), want, r[1]) and self.eng.prove_ge(s, lsub(K(MAXTAG), (0, ((y, 1),)))) for y in self.cands(s))

    def tagless(self, s, r):
        want = pad(r[0][3:], 64)
        for y in self.cands(s):
            if self.same(s, self.rawbits(y, s), want, r[1]):
                l = (0, ((y, 1),))
                if self.eng.prove_eq(s, l) or self.eng.prove_ge(s, lsub(l, K(MAXTAG + 1))):
                    return True
        return False

    # -- writing
    def writer(self, st, v):
        eng = self.eng
        ty = self.fn.name[len(F + 'write_'):]
        for s, ok in eng.split(st, Pred('eq', v)):
            if not ok:
                continue
            self.good += 1
            self.ob += 1
            p1, p0 = self.g(s, 'posn'), self.e('posn')
            if ty in ('bytes', 'string'):
                n = self.args[3]
                if ty == 'string' and not (s.g.get('text') and self.eq(s, s.g['textof'][0], self.args[2]) and self.eq(s, s.g['textof'][1], n)):
                    self.rep(s, 'text', 'a string is written that was not checked')
                if not self.eq(s, n):
                    c = s.g.get('copy')
                    b, off = eng.base(self.D)
                    sb, so = eng.base(eng.norm(s, self.args[2]))
                    if c is None or c[0] != b or not self.eq(s, c[1], ladd(off, lsub(p0, n))) or c[2] != sb or not self.eq(s, c[3], so) or not self.eq(s, c[4], n):
                        self.rep(s, 'encode', '%s does not write the value it is given' % self.fn.name)
                self.enc_var(s, lsub(p0, n), n, DELIM)
            elif ty == 'start_element':
                if self.mode['tag'] == 'zero':
                    if not self.eq(s, p1, p0):
                        self.rep(s, 'encode', 'an element without a tag writes something')
                else:
                    self.enc_var(s, p0, lsub(self.args[2], p0), DELIM)
            elif ty in INTS:
                self.enc_var(s, p0, ty, VAR)
            else:
                n = FIXED[ty]
                d = eng.norm(s, lsub(p0, p1))
                if not isconst(d):
                    self.rep(s, 'encode', '%s writes an unknown number of bytes' % self.fn.name)
                    continue
                vb = self.valbits(s, self.args[2], 8 * n)
                for i in range(n):
                    if not self.same(s, bits(eng, s, self.byte(s, p0, i - n), 8), vb[8 * i:8 * i + 8], {}):
                        self.rep(s, 'encode', '%s does not write the little-endian value' % self.fn.name)
                        break
                self.enc_tag(s, lsub(p0, K(n)), p1, W32 if n == 4 else W64)

    def valbits(self, s, v, w):
        if not isinstance(v, tuple):
            return [None] * w
        r = bits(self.eng, s, v, w)
        x = self.sym(v)
        if x is not None and (r[0] is None or self.eng.syms[x].kind != 'int'):
            r = [(x, i) for i in range(w)]
        return r

    def written(self, s, at, n):
        """bits of a varint of n bytes stored at a position, or None"""
        out = []
        for i in range(n):
            B = self.byte(s, at, i)
            if self.bit7(s, B) is not (i < n - 1):
                return None
            b = bits(self.eng, s, B, 8)
            out += (bits(self.eng, Raw(s), B, 8) if None in b else b)[:7]
        return out

    def ranged(self, s):
        """bits of inputs that follow from the ranges of values computed from them"""
        env = {}
        for y in self.cands(s):
            lo, hi = self.eng.bounds(s, y)
            if lo >= 0 and lo.bit_length() == hi.bit_length() and hi:
                r = self.rawbits(y, s)
                i = hi.bit_length() - 1
                while i >= 0 and lo >> i == hi >> i:
                    x, v = fixed(self.eng, s, r[i]), (lo >> i) & 1
                    if isinstance(x, tuple):
                        if x[0] == '~':
                            x, v = x[1], 1 - v
                        if x[0] != '^':
                            env[x] = v
                    i -= 1
        return env

    def enc_tag(self, s, end, p1, wire):
        eng = self.eng
        d = eng.norm(s, lsub(end, p1))
        if not isconst(d) or d[0] > 10:
            return self.rep(s, 'encode', '%s writes an unknown number of bytes' % self.fn.name)
        if self.mode['tag'] == 'zero':
            if d[0]:
                self.rep(s, 'encode', '%s writes a tag although none is wanted' % self.fn.name)
            return
        w = self.written(s, p1, d[0])
        t = self.args[1]
        tb = bits(eng, s, t, 31)
        want = [(wire >> i) & 1 for i in range(3)] + tb + [0] * 30
        if not d[0] or w is None or not self.same(s, pad(w, 64), self.cut(want, len(w)), {}) or not self.below(s, want, ladd(lscale(t, 8), K(wire)), 1 << min(7 * d[0], 40)):
            self.rep(s, 'encode', '%s does not write its tag with wire type %d' % (self.fn.name, wire))
        elif d[0] > 1 and not self.atleast(s, want, ladd(lscale(t, 8), K(wire)), 1 << (7 * d[0] - 7)):
            self.rep(s, 'encode', '%s does not write the shortest form of its tag' % self.fn.name)

    def cut(self, l, n):
        return pad(l[:n], 64)

    def enc_var(self, s, end, val, wire):
        """a varint ends at a position, and the tag is before it"""
        eng = self.eng
        p1 = self.g(s, 'posn')
        d = eng.norm(s, lsub(end, p1))
        if not isconst(d):
            return self.rep(s, 'encode', '%s writes an unknown number of bytes' % self.fn.name)
        # the varint is the last one: walk back from its end
        n = 1
        while n <= 10 and n < d[0] and self.bit7(s, self.byte(s, end, -n - 1)) is True:
            n += 1
        w = self.written(s, ladd(end, K(-n)), n) if d[0] >= 1 else None
        if w is None:
            return self.rep(s, 'encode', '%s does not write a varint' % self.fn.name)
        full = self.full(s, val)
        if full is None or not self.same(s, pad(w, 64), self.cut(full, 7 * n), {}) and not self.same(s, pad(w, 64), self.cut(full, 7 * n), self.ranged(s)):
            return self.rep(s, 'encode', '%s does not write its value' % self.fn.name)
        # nothing is cut off and no byte is wasted
        if any(x != 0 for x in full[7 * n:]):
            if not self.below(s, full, val, 1 << (7 * n)):
                self.rep(s, 'encode', '%s may cut off the value' % self.fn.name)
        if n > 1 and not any(x == 1 for x in full[7 * n - 7:]) and not any(fixed(eng, s, value(x, self.ranged(s))) == 1 for x in full[7 * n - 7:]) and not self.atleast(s, full, val, 1 << (7 * n - 7)):
            self.rep(s, 'encode', '%s may write a longer form than needed' % self.fn.name)
        self.enc_tag(s, ladd(end, K(-n)), p1, wire)

    def full(self, s, val):
        """64 bits of the value to encode"""
        eng = self.eng
        if not isinstance(val, str):
            r = bits(eng, s, val, 64)
            return bits(eng, Raw(s), val, 64) if None in r else r
        v = self.args[2]
        if val == 'bool':
            z = eng.decide(s, Pred('eq', v))
            return None if z is None else pad([int(not z)], 64)
        w = INTS[val]
        vb = bits(eng, s, v, w)
        neg = self.mode.get('sign') == '-'
        if val in ('uint32', 'uint64'):
            return pad(bits(eng, None, v, w), 64) if val == 'uint32' else vb
        if val in ('int32', 'int64'):
            return (vb + [int(neg)] * 64)[:64] if not neg else (vb[:w - 1] + [1] * 64)[:64]
        if neg:
            vb = vb[:w - 1] + [1]
            return pad([1] + [inv(x) for x in vb[:w - 1]], 64)
        return pad([0] + vb[:w - 1], 64)

    def find(self, s, full, val):
        out = []
        if isinstance(val, tuple):
            out.append(val)
        env = {}
        if isinstance(val, str) and self.fn.params[2][0][0] == 'int':
            x = lscale(self.args[2], 2)
            if self.same(s, bits(self.eng, Raw(s), x, 64), full, env):
                out.append(x)
        for y in self.cands(s):
            if self.same(s, bits(self.eng, s, (0, ((y, 1),)), 64), full, env) or self.same(s, self.rawbits(y, s), full, env):
                out.append((0, ((y, 1),)))
        return out

    def below(self, s, full, val, lim):
        return any(self.eng.prove_ge(s, lsub(K(lim - 1), x)) for x in self.find(s, full, val))

    def atleast(self, s, full, val, lim):
        return any(self.eng.prove_ge(s, lsub(x, K(lim))) for x in self.find(s, full, val))

    def on_return(self, st, v, fn):
        n = self.fn.name
        if n == F + 'read_skip':
            self.skip(st, v)
        elif n.startswith(F + 'peek_'):
            self.peek(st, v)
        elif n.startswith(F + 'read_'):
            self.reader(st, v)
        else:
            self.writer(st, v)


class Text(Base):
    def __init__(self, fn, seq):
        super().__init__(fn)
        self.seq = seq
        self.rets = set()

    def setup(self, eng, st, args):
        eng.add_ne(st, args[0])
        eng.add_eq(st, lsub(args[1], K(len(self.seq))))
        b, off = eng.base(args[0])
        for i, (lo, hi) in enumerate(self.seq):
            v = eng.load_cell(st, b, ladd(off, K(i)), 1, False, 8, None)
            eng.add_ge(st, lsub(v, K(lo)))
            eng.add_ge(st, lsub(K(hi), v))
        return st

    def on_return(self, st, v, fn):
        z = self.eng.decide(st, v if isinstance(v, Pred) else Pred('eq', v, True))
        z = None if z is None else not z
        self.rets |= {True, False} if z is None else {not z}


CONT = [(0, 0x7F), (0x80, 0x8F), (0x90, 0x9F), (0xA0, 0xBF), (0xC0, 0xFF)]


def wanted(lead):
    """ranges of the bytes after a leading byte, by RFC 3629; None if it cannot start a character"""
    if 1 <= lead <= 0x7F:
        return []
    n = 1 if 0xC2 <= lead <= 0xDF else 2 if 0xE0 <= lead <= 0xEF else 3 if 0xF0 <= lead <= 0xF4 else None
    if n is None:
        return None
    first = {0xE0: (0xA0, 0xBF), 0xED: (0x80, 0x9F), 0xF0: (0x90, 0xBF), 0xF4: (0x80, 0x8F)}.get(lead, (0x80, 0xBF))
    return [first] + [(0x80, 0xBF)] * (n - 1)


def wellformed(seq):
    if not seq:
        return True
    w = wanted(seq[0][0])
    if w is None or len(seq) < len(w) + 1:
        return False
    return all(a <= lo and hi <= b for (lo, hi), (a, b) in zip(seq[1:], w)) and wellformed(seq[len(w) + 1:])


def accepts(lib, f, fs, seq):
    """what the checker returns for strings of given ranges of bytes"""
    cl = Text(f, seq)
    e = lib.engine([cl], inline=[g.name for g in fs], merge_limit=5000)
    for g in fs:
        e.models.pop(g.name, None)
    e.linmask = True
    e.run(f, cl.setup)
    if len(cl.rets) > 1:
        w = max(range(len(seq)), key=lambda i: seq[i][1] - seq[i][0])
        lo, hi = seq[w]
        if lo == hi:
            return cl.rets
        m = (lo + hi) // 2
        return accepts(lib, f, fs, seq[:w] + [(lo, m)] + seq[w + 1:]) | accepts(lib, f, fs, seq[:w] + [(m + 1, hi)] + seq[w + 1:])
    return cl.rets


def sequences(lead):
    """strings to look at that start with a byte"""
    one = [(lead, lead)]
    yield one
    w = wanted(lead)
    n = len(w) if w is not None else 0
    s = [one]
    for i in range(n):
        s = [a + [c] for a in s for c in CONT if i == len(a) - 1]
        yield from s
    if w is None:
        for c in CONT:
            for k in (1, 2, 3):
                yield one + [c] * k
    if w is not None:
        # the next character starts after this one
        for nxt in (0x41, 0, 0x80):
            yield one + w + [(nxt, nxt)]
        yield [(0x41, 0x41)] + one + w
        if n:
            yield [(0x41, 0x41)] + one + w[:-1]


def textjob(item):
    lib, f, fs, leads = item
    r = Result()
    for l in leads:
        for seq in sequences(l):
            want = wellformed(seq)
            r.count('obligations')
            r.count('texts')
            if accepts(lib, f, fs, seq) != {want}:
                r.viol.append(V('text', f.name, f.name, ('a string that is not well-formed UTF-8 is accepted' if not want else 'a well-formed string is refused') +
                                ': bytes ' + ' '.join('%02x-%02x' % x for x in seq), config=lib.prog.config))
                break
    return r


def job(item):
    lib, kind, f, fs, mode = item
    chk = checkers(fs)
    cl = Codec(f, mode) if kind == 'codec' else Sticky(f) if kind == 'sticky' else Latch(f)
    cl.chk = chk
    e = lib.engine([cl], inline=[g.name for g in fs], merge_limit=5000)
    for g in fs:
        e.models.pop(g.name, None)
    for n in chk:
        e.models[n] = lambda e, s, c: [(s, e.retval(c, lo=0, hi=1))]
    e.contract = set(e.contract) | chk
    e.max_steps = 2000000
    e.symcells = True
    e.run(f, cl.setup)
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    r.count('obligations', cl.ob)
    if kind == 'sticky':
        r.count('functions')
    if not cl.good and not r.viol and mode.get('tag') != 'negative':
        raise Broken('%s never returns as wanted (%s %s)' % (f.name, kind, mode))
    return r


def modes(n):
    t = [{'tag': 'zero'}, {'tag': 'positive'}]
    if '_read_' in n:
        t.append({'tag': 'negative'})
    ty = n.split('_write_')[-1]
    if ty in ('int32', 'int64', 'sint32', 'sint64'):
        t = [dict(m, sign=s) for m in t for s in '+-']
    return t


def check(ctx):
    lib = ctx.lib('ref')
    mod = ctx.fn(lib, F + 'write_bytes').module
    fs = [f for f in lib.prog.functions() if f.module is mod]
    pub = [f for f in fs if not f.internal and f.params and 'prepare_' not in f.name and 'array' not in f.name and 'free_memory' not in f.name]
    items = []
    for f in pub:
        n = f.name
        items.append((lib, 'sticky', f, fs, {}))
        items.append((lib, 'latch', f, fs, {}))
        ty = n[len(F + 'read_'):] if '_read_' in n else n[len(F + 'write_'):] if '_write_' in n else None
        if n in (F + 'read_skip', F + 'peek_tag', F + 'peek_size'):
            items.append((lib, 'codec', f, fs, {}))
            ctx.count('decoders')
        elif ty and (ty in INTS or ty in FIXED or 'string' in ty or 'bytes' in ty or ty == 'start_element'):
            for m in modes(n):
                items.append((lib, 'codec', f, fs, m))
            ctx.count('decoders' if '_read_' in n else 'encoders')
    ctx.pmap(job, items)
    chk = sorted(checkers(fs))
    ctx.pmap(textjob, [(lib, [g for g in fs if g.name == n][0], fs, range(i, 256, 32)) for n in chk for i in range(32)])
