"""C18: random values come from the system generator, or from the library's generator seeded from it, which is rekeyed after use."""
from ..absint import *
from .. import bits, slots
from ..prov import Prov, showterm
from ..libmodels import gf, sf, finfo
from ..handshake import const
from .c19 import region
from .c20 import SPEC, ROLE_LENGTHS, DH, SG, constructors
from ..run import Result, engine_result, V, Broken

RULES = [
    'system-source: on every path noise_rand_bytes either fills the whole buffer from the system generator (a device opened as /dev/urandom or /dev/random and read until every byte was delivered, or a system or libsodium call that delivers them) and leaves those bytes alone, or does not return',
    'fresh-keys: after every successful key generation of every backend the private key consists of bits drawn from the system generator, each used once, apart from at most eight fixed bits',
    'seeding: creating or reseeding a generator succeeds only with a key computed from at least 32 new system bytes, and sets the budget to at most 1600000 bytes; nothing is drawn from a generator that has only the built-in starting key',
    'output: a successful request fills exactly the requested bytes, each once, with key stream of a seeded key; no key stream is used twice; every block is paid for from the budget, and a new seed is taken when it is used up',
    'rekey: when a request returns, the key that produced output has been replaced by key stream that was not given out',
    'padding: padding writes exactly the bytes between the two lengths, zeros in zero mode and otherwise generator output whose failure is reported',
    'weak-source: no unit of the library uses a generator of the C library',
]
EXPLANATION = 'content provenance of every random byte, seed, key and output on every path of the system source, the generator and every key generation operation of every backend, with symbolic lengths (loops by induction)'
MIN = {'obligations': 40, 'source_paths': 3, 'keys_generated': 8, 'generator_paths': 10, 'draws': 6}
ASSUMPTIONS = ['a request to the system source is for less than 2^30 bytes (all are for constants of at most 64)', 'the stream cipher produces unpredictable key stream from an unpredictable key (C90)']
RS = 'NoiseRandState_s'
BUDGET = 1600000
# functions that deliver system randomness: buffer argument, length argument, how the outcome shows
SOURCE = {'randombytes_buf': (0, 1, 'all'), 'randombytes': (0, 1, 'all'), 'arc4random_buf': (0, 1, 'all'), 'getrandom': (0, 1, 'count'),
          'getentropy': (0, 1, 'zero'), 'RAND_bytes': (0, 1, 'one'), 'RAND_priv_bytes': (0, 1, 'one')}
DEVICES = (b'/dev/urandom\0', b'/dev/random\0')
GENKEY = {'crypto_sign_ed25519_keypair': (1, 64), 'crypto_sign_keypair': (1, 64), 'crypto_box_keypair': (1, 32), 'crypto_kx_keypair': (1, 32)}
WEAK = {'rand', 'random', 'rand_r', 'drand48', 'erand48', 'lrand48', 'nrand48', 'mrand48', 'jrand48', 'srand', 'srandom', 'srand48', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getpid'}
# stream cipher calls: (out, in, length, counter, key); ctx: the key is in the context object
STREAM = {'crypto_stream_chacha20_ietf_xor_ic': (0, 1, 2, 4, 5), 'crypto_stream_chacha20_ietf_xor': (0, 1, 2, None, 4),
          'crypto_stream_chacha20_xor_ic': (0, 1, 2, 4, 5), 'crypto_stream_chacha20_xor': (0, 1, 2, None, 4),
          'crypto_stream_chacha20_ietf': (0, None, 1, None, 3), 'crypto_stream_chacha20': (0, None, 1, None, 3)}
MINE = set(STREAM) | set(SOURCE) | set(GENKEY) | {'read', 'noise_rand_bytes', 'chacha_encrypt_bytes', 'chacha_keysetup', 'chacha_ivsetup'}
GOT, OUT, LEFT, LASTIC = 0, 8, 16, 24


class Cells(Prov):
    def cellsetup(self, eng, st, keys):
        self.cells = region(eng, st, 'count', [], const=False)[1][0][0]
        for k in keys:
            eng.store_cell(st, self.cells, K(k), 8, ZERO)

    def get(self, st, k):
        return self.eng.load_cell(st, self.cells, K(k), 8, False, 64, None)

    def set(self, st, k, v):
        self.eng.store_cell(st, self.cells, K(k), 8, v)

    def bad(self, st, rule, msg, inst=None):
        self.eng.report(st, rule, self.fn, inst, msg)

    def on_clobber(self, st, b, off, length, why):
        if getattr(why, 'name', None) in MINE:
            return
        super().on_clobber(st, b, off, length, why)


# ---- the system source

class Source(Cells):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn
        self.paths = self.ob = 0

    def setup(self, eng, st, args):
        self.buf, self.size = args
        eng.add_ne(st, args[0])
        eng.add_ge(st, lsub(K(1 << 30), args[1]))
        eng.add_ge(st, args[1])
        self.cellsetup(eng, st, [GOT])
        self.b = eng.base(args[0])[0]
        return st

    def put(self, st, p, n, term):
        if self.eng.base(self.eng.norm(st, p))[0] == self.b and not self.eng.prove_eq(st, self.get(st, GOT)):
            st.g['spoiled'] = True

    def content(self, st, p, n, upto=None):
        return ('mixed',)

    def on_call(self, st, c):
        eng = self.eng
        c.prov = None
        if c.name == 'read':
            c.prov = (c.args[1], c.args[2], 'count' if self.device(st, c.args[0]) else 'none')
        elif c.name in SOURCE:
            i, j, k = SOURCE[c.name]
            c.prov = (c.args[i], c.args[j], k)
        if c.prov and eng.base(eng.norm(st, c.prov[0]))[0] != self.b:
            c.prov = None

    def device(self, st, fd):
        fd = self.eng.norm(st, fd)
        return any(self.eng.prove_eq(st, fd, x) for x in st.g.get('fds', ()))

    def on_call_done(self, st, c, ret):
        eng = self.eng
        if c.name in ('open', 'openat', 'open64') and isinstance(ret, tuple):
            b, off = eng.base(eng.norm(st, c.args[1 if c.name == 'openat' else 0]))
            y = eng.syms[b] if b is not None else None
            if y is not None and y.rkind == 'global' and y.extra.const and y.extra.image is not None and isconst(off) and bytes(y.extra.image[off[0]:]) in DEVICES:
                st.g['fds'] = st.g.get('fds', ()) + (ret,)
            return None
        if c.name == 'close' and c.args:
            st.g['fds'] = tuple(x for x in st.g.get('fds', ()) if not eng.prove_eq(st, x, c.args[0]))
            return None
        if not getattr(c, "prov", None):
            return None
        p, n, kind = c.prov
        at = ladd(self.buf, self.get(st, GOT))
        res = []

        def deliver(s, k):
            if eng.prove_eq(s, p, at):
                self.set(s, GOT, ladd(self.get(s, GOT), k))
            elif eng.prove_eq(s, p, self.buf):
                self.set(s, GOT, k)         # starts again from the beginning
            else:
                s.g['spoiled'] = True
            return s
        if kind == 'none':
            st.g['spoiled'] = True
            return None
        if kind == 'all':
            return [(deliver(st, n), ret)]
        if kind in ('zero', 'one'):
            for s, ok in eng.split(st, Pred('eq', lsub(ret, K(int(kind == 'one'))))):
                res.append((deliver(s, n) if ok else s, ret))
            return res
        for s, ok in eng.split(st, Pred('ge', lsub(ret, ONE))):
            if ok and not eng.add_ge(s, lsub(n, ret)):
                continue
            res.append((deliver(s, ret) if ok else s, ret))
        return res

    def on_return(self, st, v, fn):
        eng = self.eng
        self.paths += 1
        self.ob += 1
        if not eng.prove_eq(st, self.get(st, GOT), self.size):
            self.bad(st, 'system-source', 'returns although the system generator has not delivered every byte')
        elif st.g.get('spoiled'):
            self.bad(st, 'system-source', 'returns bytes that were changed after, or come from elsewhere than, the system generator')


def m_read(eng, st, c):
    v = eng.fresh('read', 'int', 64, -1, (1 << 62))
    eng.add_ge(st, lsub(c.args[2], v))
    eng.clobber(st, c.args[1], c.args[2], c)
    return [(st, v)]


def m_ext(buf, ln):
    def f(eng, st, c):
        eng.clobber(st, c.args[buf], c.args[ln] if isinstance(ln, int) and ln < 8 else K(ln), c)
        return [(st, eng.retval(c))]
    return f


def source_job(item):
    lib, f = item
    cl = Source(f)
    ov = {'read': m_read, 'getrandom': lambda eng, st, c: m_read(eng, st, SimpleCall(c))}
    e = lib.engine([cl], override=ov)
    e.models.pop(f.name, None)
    e.contract = set(e.contract) - {f.name}
    e.run(f, cl.setup)
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    if not cl.paths:
        raise Broken('%s never returns' % f.name)
    r.count('source_paths', cl.paths)
    r.count('obligations', cl.ob)
    return r


class SimpleCall:
    def __init__(self, c):
        self.name, self.args = c.name, [None, c.args[0], c.args[1]]


# ---- key generation

class KeyGen:
    """which bits of the private key are bits of the system generator"""

    def __init__(self, fn, alg, role, poff, plen, struct):
        self.fn, self.alg, self.role, self.poff, self.plen, self.struct = fn, alg, role, poff, plen, struct
        self.ob = self.keys = 0
        self.src = {}

    def setup(self, eng, st, args):
        self.p = args[0]
        eng.add_ne(st, args[0])
        if self.role is not None:
            sf(eng, st, args[0], DH, 'role', K(self.role))
        sf(eng, st, args[0], self.struct, 'private_key_len', K(self.plen))
        sf(eng, st, args[0], self.struct, 'private_key', ladd(args[0], K(self.poff)))
        return st

    # ghost 'rb': ((base, off), bits) sorted
    def rb(self, st):
        return dict(st.g.get('rb', ()))

    def setrb(self, st, d):
        st.g['rb'] = tuple(sorted(d.items(), key=repr))

    def erase(self, st, b, off, n):
        d = self.rb(st)
        if not d:
            return
        if b is None or not isconst(off) or n is None or not isconst(n):
            d = {k: v for k, v in d.items() if b is not None and k[0] != b}
        else:
            for k in range(off[0], off[0] + n[0]):
                d.pop((b, k), None)
        self.setrb(st, d)

    def rand(self, st, p, n, c):
        eng = self.eng
        b, off = eng.base(eng.norm(st, p))
        n = eng.norm(st, n)
        if b is None or not isconst(off) or not isconst(n) or n[0] > 4096:
            return
        d = self.rb(st)
        s = st.g['draws'] = st.g.get('draws', 0) + 1
        for k in range(n[0]):
            d[(b, off[0] + k)] = tuple((s, k, i) for i in range(8))
        self.setrb(st, d)

    def on_clobber(self, st, b, off, length, why):
        self.erase(st, b, off, length)

    def on_fill(self, st, b, off, val, length):
        self.erase(st, b, off, length)

    def on_copy(self, st, db, doff, sb, soff, length):
        d = self.rb(st)
        n = self.eng.norm(st, length)
        self.erase(st, db, doff, n)
        if db is None or sb is None or not (isconst(doff) and isconst(soff) and isconst(n)):
            return
        e = self.rb(st)
        for k in range(n[0]):
            x = d.get((sb, soff[0] + k))
            if x is not None:
                e[(db, doff[0] + k)] = x
        self.setrb(st, e)

    def on_load(self, st, b, off, size, v, inst, fn):
        if b is None or not isconst(off) or not isinstance(v, tuple):
            return
        d = self.rb(st)
        by = [d.get((b, off[0] + k)) for k in range(size)]
        if any(x is None for x in by) or v[0] or len(v[1]) != 1 or v[1][0][1] != 1:
            return
        for k, x in enumerate(by):
            for i in range(8):
                self.src[(v[1][0][0], 8 * k + i)] = x[i]

    def on_store(self, st, b, off, size, val, inst, fn):
        self.erase(st, b, off, K(size))
        if b is None or not isconst(off) or not isinstance(val, tuple):
            return
        w = bits.bits(self.eng, st, val, 8 * size)
        d = self.rb(st)
        ch = False
        for k in range(size):
            x = tuple(self.src.get(y) if isinstance(y, tuple) and y[0] != '^' else self.src.get(y[1]) if isinstance(y, tuple) and y[0] == '~' else None for y in w[8 * k:8 * k + 8])
            if any(y is not None for y in x):
                d[(b, off[0] + k)] = x
                ch = True
        if ch:
            self.setrb(st, d)

    def on_call_done(self, st, c, ret):
        eng, n, a = self.eng, c.name, c.args
        if n in ('noise_rand_bytes', 'randombytes_buf', 'arc4random_buf', 'randombytes'):
            self.rand(st, a[0], a[1], c)
        elif n == 'noise_randstate_generate_simple':
            self.rand(st, a[0], a[1], c)
        elif n in GENKEY:
            i, ln = GENKEY[n]
            self.rand(st, a[i], K(ln), c)
        return None

    def on_return(self, st, v, fn):
        eng = self.eng
        if isinstance(v, tuple):
            if eng.prove_ne(st, v):
                return
        self.ob += 1
        self.keys += 1
        d = self.rb(st)
        b, off = eng.base(self.p)
        got, n = set(), 0
        for k in range(self.plen):
            for x in d.get((b, off[0] + self.poff + k), ()):
                if x is not None:
                    n += 1
                    got.add(x)
        if len(got) < 8 * self.plen - 8:
            eng.report(st, 'fresh-keys', self.fn, None, 'a %s private key has %d fresh random bits of %d%s' % (self.alg, len(got), 8 * self.plen, ' (some are used twice)' if n > len(got) else ''))


class Capture:
    """the object a creation function makes: where its private key lives and its key generation operation"""

    def __init__(self, struct):
        self.struct = struct
        self.found = set()

    def setup(self, eng, st, args):
        eng.add_ne(st, args[0])
        self.args = args
        eng.add_eq(st, lsub(args[1], K(self.id)))
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        if not isinstance(v, tuple) or not eng.prove_eq(st, v):
            return
        b, off = eng.base(self.args[0])
        p = eng.norm(st, eng.load_cell(st, b, off, 8, True, 64, None))
        if eng.decide(st, Pred('eq', p)) is not False:
            return
        ob, oo = eng.base(p)
        kb, ko = eng.base(gf(eng, st, p, self.struct, 'private_key'))
        g = gf(eng, st, p, self.struct, 'generate_keypair')
        gb = eng.base(g)[0] if g is not None else None
        ln = gf(eng, st, p, self.struct, 'private_key_len')
        if kb == ob and isconst(ko) and isconst(oo) and isconst(ln) and gb is not None and eng.syms[gb].rkind == 'fn':
            self.found.add((eng.syms[gb].extra, ko[0] - oo[0], ln[0]))


def key_job(item):
    lib, kind, alg = item
    struct = SPEC[kind][0]
    f = lib.prog.ext.get('noise_%sstate_new_by_id' % kind)
    if f is None:
        raise Broken('anchor vanished: noise_%sstate_new_by_id' % kind)
    cap = Capture(struct)
    cap.id = const(alg)
    inl = constructors(lib)
    e = lib.engine([cap], inline=inl)
    for m in inl:
        e.models.pop(m, None)
    e.run(f, cap.setup)
    if not cap.found:
        raise Broken('%s: no object with a key generation operation' % alg)
    r = Result()
    for g, off, ln in cap.found:
        roles = [None] if kind != 'dh' else [(0, ln)] + [(const(x), dict(((a, o), w) for (a, o), w in ROLE_LENGTHS.items()).get((alg, x), (ln,))[0]) for x in ('NOISE_ROLE_INITIATOR', 'NOISE_ROLE_RESPONDER')]
        for x in roles:
            role, n = x if x else (None, ln)
            cl = KeyGen(g, alg, role, off, n, struct)
            e = lib.engine([cl], override={k: m_ext(i, w) for k, (i, w) in GENKEY.items()})
            e.run(g, cl.setup)
            r.merge(engine_result(e, lambda rep: '%s %s' % (alg, rep.msg), lib.prog.config))
            r.count('obligations', cl.ob)
            r.count('keys_generated', cl.keys)
            if not cl.keys:
                raise Broken('%s: key generation never succeeds' % alg)
    return r


# ---- the generator

class Gen(Cells):
    def __init__(self, fn, kind, delta):
        super().__init__({'noise_randstate_new'})
        self.fn, self.kind, self.delta = fn, kind, delta
        self.ob = self.paths = self.draws = 0
        self.outb = None

    def setup(self, eng, st, args):
        self.args = args
        for a in args:
            if eng.syms[a[1][0][0]].kind == 'ptr':
                eng.add_ne(st, a)
        self.cellsetup(eng, st, [OUT, LEFT])
        eng.store_cell(st, self.cells, K(LASTIC), 8, K(4))
        self.state = None
        if self.kind in ('generate', 'reseed'):
            self.state = args[0]
            self.set(st, LEFT, gf(eng, st, args[0], RS, 'left'))
            # a new object has the key its creation left there
            self.known = self.kind == 'generate'
        else:
            self.known = False
        if self.kind in ('generate', 'simple'):
            i = 1 if self.kind == 'generate' else 0
            self.out, self.len = args[i], args[i + 1]
            self.outb = eng.base(self.out)[0]
            eng.add_ge(st, self.len)
            eng.add_ge(st, lsub(K(1 << 61), self.len))
            st.g['reseeded'] = False
        return st

    # the key of a context object
    def ctxget(self, st, o):
        for p, k, x in st.g.get('ctx', ()):
            if self.eng.prove_eq(st, p, o):
                return k, x
        return ('in', self.eng.norm(st, o), K(32)), 'used'

    def ctxset(self, st, o, k, x):
        o = self.eng.norm(st, o)
        st.g['ctx'] = tuple(y for y in st.g.get('ctx', ()) if not self.eng.prove_eq(st, y[0], o)) + ((o, k, x),)

    def seeded(self, st, t, strict=False):
        """does the term depend on system bytes (or, unless strict, on the key of an existing generator)"""
        eng = self.eng
        if t[0] == 'rand':
            return True
        if t[0] == 'K':
            return not strict or t[1]
        if t[0] == 'part':
            x = t[3]
            if x[0] == 'ks' and x[2] == ('rand',):
                return True
            return self.seeded(st, x, strict)
        if t[0] == 'ks':
            return t[2] == ('rand',) or self.seeded(st, t[1], strict)
        if t[0] == 'in' and not strict and self.known and self.state is not None:
            return eng.base(eng.norm(st, t[1]))[0] == eng.base(self.state)[0]
        return False

    def curkey(self, st, obj):
        """the key the generator object holds now"""
        eng = self.eng
        f = eng.prog.fieldinfo.get(RS, {})
        if 'chacha_k' in f:
            return self.content(st, ladd(obj, K(f['chacha_k'][0])), K(32))
        if 'chacha' in f:
            return self.ctxget(st, ladd(obj, K(f['chacha'][0])))[0]
        raise Broken('anchor vanished: the key of the generator')

    def stream(self, st, c, key, out, inp, n, ctr):
        eng = self.eng
        self.draws += 1
        self.ob += 1
        if not self.seeded(st, key):
            # the built-in starting key may only whiten the seed
            if inp is None or self.content(st, inp, n) != ('rand',):
                self.bad(st, 'seeding', 'something other than the seed is processed with a key that was never seeded', c.inst)
        if st.g.get('spent') is not None and st.g['spent'] == key:
            self.bad(st, 'output', 'key stream is drawn again from a key whose replacement was already drawn', c.inst)
        t = self.content(st, inp, n) if inp is not None else ('zero',)
        term = ('ks', key, t)
        if ctr is not None:
            i = ctr
            if eng.prove_eq(st, i):
                st.g['spent'] = key
                if st.g.get('drawn') == key and not eng.prove_ge(st, lsub(K(64), n)):
                    self.bad(st, 'output', 'the first key stream block and more are drawn from a key whose later blocks were used', c.inst)
            else:
                if not eng.prove_ge(st, lsub(i, ONE)):
                    self.bad(st, 'output', 'the block counter can be that of the key stream kept for the next key', c.inst)
                v = ladd(i, K(self.delta + 4))      # never negative
                if st.g.get('drawn') == key:
                    if not eng.prove_ge(st, lsub(v, ladd(self.get(st, LASTIC), ONE))):
                        self.bad(st, 'output', 'the block counter does not pass the blocks already drawn from the key', c.inst)
                if not eng.prove_ge(st, lsub(K(64), n)):
                    self.bad(st, 'output', 'more than a block is drawn at one block counter', c.inst)
                self.set(st, LASTIC, v)
                st.g['drawn'] = key
        self.put(st, out, n, term)

    def put(self, st, p, n, term):
        eng = self.eng
        p, n = eng.norm(st, p), eng.norm(st, n)
        if self.outb is not None and eng.base(p)[0] == self.outb:
            if eng.prove_eq(st, n):
                return
            at = self.get(st, OUT)
            if eng.prove_eq(st, at) and term[0] not in ('ks', 'part'):
                return                      # cleared before anything was drawn
            x = term[3] if term[0] == 'part' else term
            self.ob += 1
            if x[0] != 'ks' or not self.seeded(st, x[1]):
                self.bad(st, 'output', 'the buffer receives %s instead of key stream' % showterm(eng, x))
                return
            if not eng.prove_eq(st, p, ladd(self.out, at)):
                self.bad(st, 'output', 'key stream is not stored right after the previous')
            self.set(st, OUT, ladd(at, n))
            st.g['exposed'] = x[1]
            obj = self.obj(st)
            if obj is not None:
                left, prev = gf(eng, st, obj, RS, 'left'), self.get(st, LEFT)
                if st.g.get('reseeded'):
                    good = eng.prove_ge(st, lsub(prev, left))
                else:
                    good = eng.prove_ge(st, lsub(lsub(prev, n), left))
                if not good:
                    self.bad(st, 'output', 'output is drawn without being charged to the budget')
                self.set(st, LEFT, left)
                st.g['reseeded'] = False
            return
        super().put(st, p, n, term)

    def obj(self, st):
        if self.state is not None:
            return self.state
        return st.g.get('obj')

    def on_store(self, st, b, off, size, val, inst, fn):
        f = self.eng.fieldof.get((b, off[0] if isconst(off) else off)) if b is not None else None
        super().on_store(st, b, off, size, val, inst, fn)
        eng = self.eng
        if b is not None and isconst(off) and st.g.get('seed') and isinstance(val, tuple) and isconst(val) and size == 8:
            o = self.obj(st)
            if o is None and f is not None and f[0] == RS:
                o = (off[0] - finfo(eng.prog, RS, 'left')[0], ((b, 1),))
            if o is not None and eng.base(o)[0] == b and eng.prove_eq(st, ladd(o, K(finfo(eng.prog, RS, 'left')[0])), (off[0], ((b, 1),))):
                st.g['obj'] = eng.norm(st, o)
                if val[0] <= BUDGET:
                    self.set(st, LEFT, val)
                    st.g['reseeded'] = True
                else:
                    self.bad(st, 'seeding', 'the budget after a reseed is %d bytes' % val[0], inst)
                st.g['seed'] = False
                st.g['sown'] = True

    def on_call(self, st, c):
        eng, n, a = self.eng, c.name, c.args
        c.prov = None
        if n == 'noise_rand_bytes' or n in SOURCE:
            i, j = SOURCE.get(n, (0, 1))[:2]
            super().put(st, a[i], a[j], ('rand',))
            st.g['seed'] = True
        elif n == 'chacha_keysetup':
            k = self.content(st, a[1], K(32))
            if not eng.prove_eq(st, a[2], K(256)):
                self.bad(st, 'seeding', 'the generator key has fewer than 256 bits', c.inst)
            self.ctxset(st, a[0], k, 'new')
        elif n == 'chacha_ivsetup':
            k, x = self.ctxget(st, a[0])
            if x == 'used':
                self.bad(st, 'output', 'the key stream is restarted without a new key', c.inst)
        elif n == 'chacha_encrypt_bytes':
            k, x = self.ctxget(st, a[0])
            self.ctxset(st, a[0], k, 'used')
            self.stream(st, c, k, a[2], a[1], a[3], None)
        elif n in STREAM:
            o, i, l, ctr, k = STREAM[n]
            key = self.content(st, a[k], K(32))
            self.stream(st, c, key, a[o], a[i] if i is not None else None, a[l], eng.norm(st, a[ctr]) if ctr is not None else ZERO)

    def on_back_edge(self, st, fn, header):
        """keys that stem from a seed are one thing to the next round"""
        eng = self.eng
        obj = self.obj(st)
        if obj is None:
            return
        old = self.curkey(st, obj)
        s = self.seeded(st, old)
        new = ('K', self.seeded(st, old, True)) if s else old
        strict = ('K', True) if st.g.get('sown') else ('K', False)
        new = strict if s else old
        for k in ('exposed', 'drawn', 'spent'):
            if st.g.get(k) is not None:
                st.g[k] = new if st.g[k] == old else ('gone',)
        if st.g.get('spent') == ('gone',):
            st.g['spent'] = None
        f = eng.prog.fieldinfo.get(RS, {})
        if 'chacha_k' in f:
            st.g['prov'] = ((eng.norm(st, ladd(obj, K(f['chacha_k'][0]))), K(32), new),)
        else:
            st.g['prov'] = ()
            k, x = self.ctxget(st, ladd(obj, K(f['chacha'][0])))
            st.g['ctx'] = ()
            self.ctxset(st, ladd(obj, K(f['chacha'][0])), new, x)

    def on_return(self, st, v, fn):
        eng = self.eng
        if isinstance(v, tuple):
            d = eng.decide(st, Pred('eq', v))
            if d is False:
                return
            if d is None:
                for s, ok in eng.split(st, Pred('eq', v)):
                    if ok:
                        self.finish(s)
                return
        self.finish(st)

    def finish(self, st):
        eng = self.eng
        self.ob += 1
        self.paths += 1
        if self.kind == 'new':
            b, off = eng.base(self.args[0])
            obj = eng.norm(st, eng.load_cell(st, b, off, 8, True, 64, None))
        else:
            obj = self.obj(st)
        if obj is None or not isinstance(obj, tuple):
            self.bad(st, 'seeding', 'succeeds without having seeded a generator')
            return
        if self.kind in ('new', 'reseed', 'simple') and not st.g.get('sown'):
            self.bad(st, 'seeding', 'succeeds without taking a new seed and setting the budget')
        if self.kind != 'simple':
            key = self.curkey(st, obj)
            if not self.seeded(st, key, self.kind in ('new', 'reseed')):
                self.bad(st, 'seeding', 'the key left in the generator does not come from the system source')
            if self.kind != 'generate' and not eng.prove_ge(st, lsub(K(BUDGET), gf(eng, st, obj, RS, 'left'))):
                self.bad(st, 'seeding', 'the budget after seeding is more than %d bytes' % BUDGET)
            if st.g.get('exposed') is not None and (st.g['exposed'] == key):
                self.bad(st, 'rekey', 'returns with the key that produced the output still in the generator')
        if self.kind in ('generate', 'simple'):
            if not eng.prove_eq(st, self.get(st, OUT), self.len):
                self.bad(st, 'output', 'succeeds without filling exactly the requested bytes')


KINDS = {'new': 'new', 'reseed': 'reseed', 'generate': 'generate', 'generate_simple': 'simple'}


def gen_job(item):
    lib, n = item
    f = lib.prog.ext.get('noise_randstate_' + n)
    if f is None:
        raise Broken('anchor vanished: noise_randstate_%s' % n)
    best = None
    for delta in (-1, 0, 1) if lib.prog.config == 'sodium' else (0,):
        cl = Gen(f, KINDS[n], delta)
        inl = ['noise_randstate_' + x for x in ('reseed', 'generate') if x != n]
        e = lib.engine([cl], inline=inl, override={k: m_ext(0, 1) for k in SOURCE})
        for m in inl + [f.name]:
            e.models.pop(m, None)
        e.max_steps = 2000000
        e.run(f, cl.setup)
        r = engine_result(e, lambda rep: '%s %s' % (f.name, rep.msg), lib.prog.config)
        if best is None or len(r.viol) < len(best[0].viol):
            best = (r, cl)
        if not r.viol:
            break
    r, cl = best
    if not cl.paths:
        raise Broken('%s never succeeds' % f.name)
    r.count('generator_paths', cl.paths)
    r.count('draws', cl.draws)
    r.count('obligations', cl.ob)
    r.samples.append({'function': f.name, 'configuration': lib.prog.config, 'paths': cl.paths, 'draws': cl.draws})
    return r


# ---- padding

class Pad(Prov):
    def __init__(self, fn, zero):
        super().__init__({'noise_randstate_generate'})
        self.fn, self.zero = fn, zero
        self.ob = self.paths = 0

    def setup(self, eng, st, args):
        self.args = args
        eng.add_ne(st, args[1])
        m = K(const('NOISE_PADDING_ZERO'))
        if self.zero:
            eng.add_eq(st, lsub(args[4], m))
        else:
            eng.add_ne(st, lsub(args[4], m))
        for a in args[2:4]:
            eng.add_ge(st, a)
            eng.add_ge(st, lsub(K(1 << 61), a))
        self.b = eng.base(args[1])[0]
        return st

    def put(self, st, p, n, term):
        if self.eng.base(self.eng.norm(st, p))[0] == self.b and not self.eng.prove_eq(st, self.eng.norm(st, n)):
            st.g['w'] = st.g.get('w', ()) + ((p, n, term),)

    def content(self, st, p, n, upto=None):
        return ('mixed',)

    def on_call(self, st, c):
        if c.name == 'noise_randstate_generate' and self.eng.prove_eq(st, c.args[0], self.args[0]):
            st.g['w'] = st.g.get('w', ()) + ((c.args[1], c.args[2], ('gen',)),)

    def failed(self, st, c, ret):
        st.g['failed'] = ret

    def on_return(self, st, v, fn):
        eng = self.eng
        _, _, orig, padded, _ = self.args
        for s, more in eng.split(st, Pred('ge', lsub(padded, ladd(orig, ONE)))):
            self.ob += 1
            self.paths += 1
            w = s.g.get('w', ())
            null = eng.decide(s, Pred('eq', self.args[0]))
            ok = eng.prove_eq(s, v)
            if not ok and not eng.prove_ne(s, v):
                eng.report(s, 'padding', fn, None, 'the result does not tell success from failure')
            if s.g.get('failed') is not None and ok:
                eng.report(s, 'padding', fn, None, 'a failure of the generator is reported as success')
            want = 1 if more else 0
            if len(w) != want and not (not ok and not w and null is not True):
                eng.report(s, 'padding', fn, None, '%d writes where %d are due' % (len(w), want))
                continue
            for p, n, t in w:
                if not (eng.prove_eq(s, p, ladd(self.args[1], orig)) and eng.prove_eq(s, n, lsub(padded, orig))):
                    eng.report(s, 'padding', fn, None, 'the padding written is not exactly the bytes between the two lengths')
                if t != (('zero',) if self.zero or null is True else ('gen',)):
                    eng.report(s, 'padding', fn, None, 'the padding is %s' % showterm(eng, t))


def m_gen(eng, st, c):
    eng.clobber(st, c.args[1], c.args[2], c)
    s2 = st.fork()
    return [(st, ZERO), (s2, eng.fresh('err', 'int', 32, 1, (1 << 31) - 1, origin=('ret', c.name)))]


def pad_job(item):
    lib, zero = item
    f = lib.prog.ext.get('noise_randstate_pad')
    if f is None:
        raise Broken('anchor vanished: noise_randstate_pad')
    cl = Pad(f, zero)
    e = lib.engine([cl], override={'noise_randstate_generate': m_gen})
    e.run(f, cl.setup)
    r = engine_result(e, lambda rep: '%s %s %s' % (f.name, 'zero' if zero else 'random', rep.msg), lib.prog.config)
    if not cl.paths:
        raise Broken('noise_randstate_pad never returns')
    r.count('obligations', cl.ob)
    r.count('generator_paths', cl.paths)
    return r


def weak(lib):
    r = Result()
    seen = 0
    for f in lib.prog.functions():
        for b in f.order:
            for i in b.insts:
                if i.op == 'call':
                    seen += 1
                    for n in slots._grefs(i.a):
                        if n in WEAK:
                            r.viol.append(V('weak-source', '%s:%s' % (f.module.name, f.name), '%s %s' % (f.name, n), '%s is used in the library' % n, [], lib.prog.config))
    r.count('calls', seen)
    return r


def job(item):
    k, x = item
    return {'source': source_job, 'key': key_job, 'gen': gen_job, 'pad': pad_job}[k](x)


def check(ctx):
    items = []
    for cfg in ('ref', 'sodium', 'openssl'):
        lib = ctx.lib(cfg)
        items.append(('source', (lib, ctx.fn(lib, 'noise_rand_bytes'))))
        for kind in ('dh', 'sign'):
            for alg in SPEC[kind][3]:
                items.append(('key', (lib, kind, alg)))
        for n in KINDS:
            items.append(('gen', (lib, n)))
        for z in (False, True):
            items.append(('pad', (lib, z)))
        w = weak(lib)
        ctx.res.merge(w)
    ctx.pmap(job, items)
