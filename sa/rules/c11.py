"""C11: secret temporaries are erased on every exit."""
import re
from ..absint import *
from .. import slots
from ..run import Result, engine_result, V, Broken

RULES = [
    'erased: on every path, when a function of the protocol, generator, backend or key file code returns, each byte range of its local storage that has held a secret since it was last erased - a key, shared secret, derived key, keyed digest, key stream, generator output used as a key, or a copy of any of these or of a secret of an object - has been passed to an erasing function the compiler may not remove, over its whole length',
    'erase-function: the erasing functions of the library write zero through a volatile access to every byte they are given, for every length analysed, and touch nothing else',
]
EXPLANATION = 'taint of secret bytes in the frames of every function (static helpers inside their callers), over every path, in each configuration'
MIN = {'functions': 300, 'secret_locals': 14, 'erase_calls': 30, 'obligations': 1000, 'erase_lengths': 60}
ASSUMPTIONS = ['the working variables inside the bundled and external primitives, and scalars in registers, are outside this property']

ERASE = {'noise_clean': (0, 1), 'sodium_memzero': (0, 1), 'OPENSSL_cleanse': (0, 1), 'explicit_bzero': (0, 1)}
# calls whose output is secret by itself: name -> output arguments
OUT = [(r'slot:NoiseDHState_s\.calculate|noise_dhstate_calculate', (2,)), (r'noise_hashstate_hkdf', (5, 7)), (r'noise_hashstate_pbkdf2', (6,)),
       (r'chacha_encrypt_bytes', (2,)), (r'crypto_stream_\w+', (0,)), (r'rijndaelEncrypt', (3,)), (r'\w*_?keysetup|rijndaelKeySetup\w*', (0,)),
       (r'noise_randstate_(reseed|generate)', (0,)), (r'crypto_sign_ed25519_seed_keypair', (1,)), (r'curve25519_donna|crypto_scalarmult_curve25519|curve448_eval', ()),
       (r'slot:NoiseCipherState_s\.decrypt|noise_cipherstate_decrypt\w*', ())]
OUT = [(re.compile('(?:%s)$' % r), a) for r, a in OUT]
# calls that take a key: the argument is secret from then on
KEYARG = [(r'chacha_keysetup', 1), (r'rijndaelKeySetup\w*', 1), (r'crypto_onetimeauth_poly1305_init', 1), (r'poly1305_init', 1), (r'crypto_stream_\w+_ietf_xor', 4),
          (r'noise_cipherstate_init_key|slot:NoiseCipherState_s\.init_key', 1), (r'noise_dhstate_set_keypair(_private)?|noise_signstate_set_keypair(_private)?', 1),
          (r'noise_handshakestate_set_pre_shared_key', 1), (r'noise_symmetricstate_mix_key', 1)]
KEYARG = [(re.compile('(?:%s)$' % r), a) for r, a in KEYARG]
FIELDS = {'private_key', 'ck', 'pre_shared_key', 'chacha_k', 'key', 'skpk', 'aes', 'chacha', 'random_data', 'block', 'keystream'}
PARAMS = {'private_key', 'key', 'passphrase', 'psk', 'shared_key', 'secret'}
SCOPE = ('src/protocol/', 'src/backend/', 'src/keys/')


class Secrets:
    """g['sec']: byte ranges (region, offset, length or None) that hold a secret; g['hs']: hash objects fed with one"""

    def __init__(self, fn):
        self.fn = fn
        self.ob = self.erase = 0
        self.locals = set()

    def setup(self, eng, st, args):
        self.params = {}
        for (t, n), a in zip(self.fn.params, args):
            if t[0] == 'ptr' and n in PARAMS:
                self.params[eng.base(a)[0]] = n
        return st

    # ---- what is secret
    def secret(self, st, b, off):
        eng = self.eng
        if b is None:
            return False
        if b in self.params:
            return True
        y = eng.syms[b]
        og = y.origin if isinstance(y.origin, tuple) else ()
        k = og if og and og[0] == 'lazy' else ()
        if k:
            f = eng.fieldof.get((k[1], k[2]))
            if f and f[1] == 'private_key':
                return True
        if isconst(off) or off[1]:
            f = eng.fieldof.get((b, off[0] if isconst(off) else off))
            if f and f[1] in FIELDS:
                return True
        for (r, o, n) in st.g.get('sec', ()):
            if r == b and not self.apart(st, o, n, off):
                return True
        return False

    def apart(self, st, o, n, off):
        if n is None:
            return False
        return self.eng.prove_ge(st, lsub(off, ladd(o, n)))

    def mark(self, st, b, off, n):
        eng = self.eng
        if b is None or eng.syms[b].rkind != 'alloca':
            return
        off, n = eng.norm(st, off), eng.norm(st, n) if n is not None else None
        if off[1] or n is None:
            off, n = ZERO, None
        y = eng.syms[b]
        if y.extra[0] and not self.inscope(y.extra[0]):
            return
        self.locals.add((y.extra[0], y.name))
        st.g['sec'] = st.g.get('sec', frozenset()) | {(b, off, n)}

    def inscope(self, name):
        f = self.byname.get(name)
        return f is None or f

    def markp(self, st, p, n=None):
        b, off = self.eng.base(self.eng.norm(st, p))
        if b is not None and self.eng.syms[b].rkind == 'alloca':
            y = self.eng.syms[b]
            if n is None and y.size is not None:
                n = lsub(y.size, off)
            self.mark(st, b, off, n)

    # ---- events
    def on_copy(self, st, db, doff, sb, soff, n):
        if sb is None or db is None:
            return
        if self.secret(st, sb, soff):
            self.mark(st, db, doff, n)
        f = self.eng.fieldof.get((db, doff[0] if isconst(doff) else doff))
        if f and f[1] in FIELDS and self.eng.syms[sb].rkind == 'alloca':
            self.mark(st, sb, soff, n)

    def on_store(self, st, b, off, size, val, inst, fn):
        eng = self.eng
        if b is None or size != 1 or not isinstance(val, tuple) or eng.syms[b].rkind != 'alloca':
            return
        for s, _ in eng.norm(st, val)[1]:
            og = eng.syms[s].origin
            if isinstance(og, tuple) and og and og[0] == 'lazy' and self.secret(st, og[1], og[2] if isinstance(og[2], tuple) else K(og[2])):
                self.mark(st, b, off, K(size))

    def on_call(self, st, c):
        eng = self.eng
        if c.name in ERASE:
            i, j = ERASE[c.name]
            self.erase += 1
            b, off = eng.base(eng.norm(st, c.args[i]))
            if b is None:
                return
            n = eng.norm(st, c.args[j])
            keep = set()
            size = eng.syms[b].size
            whole = size is not None and eng.prove_eq(st, off) and eng.prove_ge(st, lsub(n, size))
            for e in st.g.get('sec', ()):
                r, o, m = e
                if r == b:
                    if whole:
                        continue
                    end = ladd(o, m) if m is not None else eng.syms[b].size
                    o = o if m is not None else ZERO
                    if eng.prove_ge(st, lsub(o, off)) and end is not None and eng.prove_ge(st, lsub(ladd(off, n), end)):
                        continue
                keep.add(e)
            st.g['sec'] = frozenset(keep)
            return
        for r, i in KEYARG:
            if r.match(c.name) and i < len(c.args):
                self.markp(st, c.args[i])
        hs = st.g.get('hs', frozenset())
        if c.name == 'slot:NoiseHashState_s.reset':
            st.g['hs'] = hs - {eng.base(eng.norm(st, c.args[0]))[0]}
        elif c.name == 'slot:NoiseHashState_s.update':
            b, off = eng.base(eng.norm(st, c.args[1]))
            if self.secret(st, b, off):
                st.g['hs'] = hs | {eng.base(eng.norm(st, c.args[0]))[0]}

    def on_clobber(self, st, b, off, n, why):
        eng = self.eng
        if b is None or eng.syms[b].rkind != 'alloca' or not isinstance(why, Call):
            return
        if why.name == 'slot:NoiseHashState_s.finalize':
            if eng.base(eng.norm(st, why.args[0]))[0] in st.g.get('hs', ()):
                self.mark(st, b, off, n)
            return
        for r, idx in OUT:
            if r.match(why.name):
                for i in idx:
                    if i < len(why.args) and eng.base(eng.norm(st, why.args[i]))[0] == b:
                        y = eng.syms[b]
                        self.mark(st, b, off, n if n is not None else (lsub(y.size, off) if y.size is not None else None))

    def on_frame_exit(self, st, fn, fr, v, inst):
        sec = st.g.get('sec', ())
        self.ob += 1
        left = [e for e in sec if e[0] in fr.allocas]
        for b, o, n in sorted(left, key=str):
            if n is not None and (self.eng.prove_ge(st, lneg(n))):
                continue
            y = self.eng.syms[b]
            self.eng.report(st, 'erased', fn, inst, '%s returns while the local %s still holds secret data' % (fn.name, locname(y)))
        if left:
            st.g['sec'] = frozenset(sec) - frozenset(left)


def locname(y):
    return 'variable "%s"' % y.name if not y.name.isdigit() and y.name != 'vla' else 'block (allocated in %s)' % y.extra[0]


class Volatile:
    """concrete length: every byte is zeroed by a volatile store"""

    def __init__(self, fn, n):
        self.fn, self.n = fn, n
        self.ob = 0

    def setup(self, eng, st, args):
        self.b = eng.base(args[0])[0]
        eng.add_ne(st, args[0])
        args[1] = K(self.n)
        return st

    def on_store(self, st, b, off, size, val, inst, fn):
        if b is not None and self.eng.syms[b].rkind == 'alloca':
            return
        ok = b == self.b and isconst(off) and 0 <= off[0] and off[0] + size <= self.n and isinstance(val, tuple) and self.eng.norm(st, val) == ZERO
        if not ok:
            self.eng.report(st, 'erase-function', fn, inst, '%s writes something other than zeros into its block' % self.fn.name)
        elif inst is not None and inst.op == 'store' and inst.a[3]:
            st.g['done'] = st.g.get('done', frozenset()) | set(range(off[0], off[0] + size))

    def on_return(self, st, v, fn):
        self.ob += 1
        if st.g.get('done', frozenset()) != frozenset(range(self.n)):
            self.eng.report(st, 'erase-function', fn, None, '%s leaves bytes of a block of %d bytes, or erases them in a way the compiler may remove' % (fn.name, self.n))


def job(item):
    lib, kind, f, a = item
    if kind == 'vol':
        res = Result()
        for n in a:
            cl = Volatile(f, n)
            e = lib.engine([cl])
            for m in ('noise_clean', f.name):
                e.models.pop(m, None)
            e.contract = set(e.contract) - {f.name}
            e.run(f, cl.setup)
            r = engine_result(e, lambda rep: f.name, lib.prog.config)
            r.count('obligations', cl.ob)
            r.count('erase_lengths')
            res.merge(r)
        return res
    cl = Secrets(f)
    cl.byname = a
    e = lib.engine([cl])
    e.run(f, cl.setup)
    r = engine_result(e, lambda rep: '%s/%s' % (f.name, rep.where), lib.prog.config)
    r.count('obligations', cl.ob)
    r.count('functions')
    r.count('erase_calls', cl.erase)
    r.locals = cl.locals
    return r


def source(lib, f):
    return f.module.loc(f.dbg)[0] if f.dbg else f.module.name


def check(ctx):
    items = []
    for cfg in ('ref', 'sodium', 'openssl'):
        lib = ctx.lib(cfg)
        slot = {t.name for fs in slots.slot_functions(lib).values() for t, _ in fs}
        byname = {}
        for f in lib.prog.functions():
            byname.setdefault(f.name, any(s in '/' + source(lib, f) for s in ('/' + x for x in SCOPE)))
        for f in lib.prog.functions():
            if not byname[f.name] or (f.internal and f.name not in slot):
                continue
            if cfg != 'ref' and 'backend/%s' % cfg not in f.module.name and 'randstate' not in f.module.name:
                continue
            items.append((lib, 'sec', f, byname))
        if cfg == 'ref':
            f = ctx.fn(lib, 'noise_clean')
            for i in range(8):
                items.append((lib, 'vol', f, list(range(i, 80, 8)) + [(128, 255, 256, 257, 100, 300, 192, 65)[i]]))
    rs = ctx.pmap(job, items)
    loc = set()
    for r in rs:
        loc |= getattr(r, 'locals', set())
    ctx.count('secret_locals', len(loc))
    ctx.res.info = sorted('%s:%s' % x for x in loc)
