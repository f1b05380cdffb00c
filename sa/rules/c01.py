"""C01: no nonce is ever used twice with one key."""
from ..absint import *
from .. import clients, slots, bits
from ..clients import show
from ..libmodels import gf, ef, finfo
from ..run import Result, engine_result, V, Broken

CS = 'NoiseCipherState_s'
RULES = [
    'nonce-key: at every backend encrypt/decrypt call the cipher object has a key',
    'nonce-range: at every backend encrypt/decrypt call the counter is at most 2^64-2',
    'nonce-fresh: the counter at a backend encrypt call exceeds the counter of every earlier encrypt on that object and key in the function',
    'nonce-advance: after a backend encrypt call (and after a successful decrypt) the counter on exit is at least the used value plus one',
    'nonce-back: no public function leaves the counter lower than it found it unless a key was installed or the key was dropped',
    'nonce-rekey: no public function turns has_key on without installing a key through the backend, and installing one leaves the counter defined by that function at 0',
]
RULES += [
    'nonce-iv: in every backend and build configuration the initialization vector handed to the primitive by the encrypt and '
    'decrypt slots is an injective encoding of the whole 64-bit counter (each of its bits at the position Noise assigns to it)',
    'nonce-backend: no backend slot function changes the counter or the key flag of the object',
]
EXPLANATION = ('path-sensitive interpretation of every public function; every path on which a cipher object is touched is checked '
               'against the rules, with symbolic counters')
MIN = {'functions': 200, 'crypt_calls': 2, 'counter_functions': 6, 'iv_uses': 12, 'backend_slot_functions': 18, 'obligations': 40}
LAST = K((1 << 64) - 2)


class Nonce:
    def __init__(self):
        self.calls = set()
        self.ob = 0
        self.touch = set()

    def on_call(self, st, c):
        if not c.name.startswith('slot:' + CS):
            return
        eng = self.eng
        op = c.name.split('.')[-1]
        if op in ('encrypt', 'decrypt'):
            obj = eng.norm(st, c.args[0])
            n = gf(eng, st, obj, CS, 'n')
            hk = gf(eng, st, obj, CS, 'has_key')
            w = eng.where(c.fn, c.inst)
            self.calls.add(w)
            self.ob += 3
            if hk is None or not eng.prove_ne(st, hk):
                eng.report(st, 'nonce-key', c.fn, c.inst, '%s reached without a key being set on the cipher object' % op)
            if n is None or not eng.prove_ge(st, lsub(LAST, n)):
                eng.report(st, 'nonce-range', c.fn, c.inst, '%s reached although the counter may have its last (reserved) value' % op)
            for kind, o2, n2, r2, w2 in st.g.get('crypt', ()):
                if kind == 'encrypt' and op == 'encrypt' and self.same(st, o2, obj) and not (n is not None and eng.prove_ge(st, ladd(lsub(n, n2), K(-1)))):
                    eng.report(st, 'nonce-fresh', c.fn, c.inst, 'the counter may not have advanced since the encryption at %s' % w2)

    def same(self, st, a, b):
        return not self.eng.prove_ne(st, lsub(a, b))

    def on_call_done(self, st, c, ret):
        if not c.name.startswith('slot:' + CS):
            return None
        eng = self.eng
        op = c.name.split('.')[-1]
        if op in ('encrypt', 'decrypt'):
            obj = eng.norm(st, c.args[0])
            n = gf(eng, st, obj, CS, 'n')
            rec = (op, obj, n, ret, eng.where(c.fn, c.inst))
            st.g['crypt'] = st.g.get('crypt', ()) + (rec,)
            if op == 'decrypt':
                return [(s, ret) for s, tv in eng.split(st, Pred('eq', ret))]
        elif op == 'init_key':
            obj = eng.norm(st, c.args[0])
            st.g['keyed'] = st.g.get('keyed', frozenset()) | {obj}
            # a fresh key forgets earlier uses
            st.g['crypt'] = tuple(x for x in st.g.get('crypt', ()) if not eng.prove_eq(st, x[1], obj))
        return None

    def on_free(self, st, p, c):
        p = self.eng.norm(st, p)
        if p not in self.objects(st):
            return
        st.g['freed'] = st.g.get('freed', frozenset()) | {p}

    def objects(self, st):
        """cipher objects whose counter, key flag or key was looked at on this path"""
        eng = self.eng
        out = set()
        offs = {f: finfo(eng.prog, CS, f)[0] for f in ('n', 'has_key')}
        for (b, off), (sn, fn) in eng.fieldof.items():
            if sn == CS and fn in offs and b in st.mem:
                o = K(off) if isinstance(off, int) else off
                out.add(ladd((0, ((b, 1),)), ladd(o, K(-offs[fn]))))
        return out

    def on_return(self, st, v, fn):
        eng = self.eng
        freed = st.g.get('freed', frozenset())
        keyed = st.g.get('keyed', frozenset())
        for obj in self.objects(st):
            b, off = eng.base(obj)
            if any(eng.prove_eq(st, f, obj) for f in freed):
                continue
            y = eng.syms[b]
            self.touch.add(fn.name)
            n1 = gf(eng, st, obj, CS, 'n')
            k1 = gf(eng, st, obj, CS, 'has_key')
            iskeyed = any(eng.prove_eq(st, k, obj) for k in keyed)
            # an object without a key now may have been given any counter: the next key resets it
            nokey = eng.prove_eq(st, k1)
            if y.rkind in ('heap', 'alloca') or y.origin and y.origin[0] == 'heap':
                if not iskeyed and not nokey:
                    self.ob += 1
                    if not eng.syms[b].extra or eng.syms[b].extra[0] != 'object':
                        eng.report(st, 'nonce-rekey', fn, None, '%s creates a cipher object marked as keyed without installing a key' % fn.name)
                continue
            n0 = ef(eng, obj, CS, 'n') if isconst(off) else None
            k0 = ef(eng, obj, CS, 'has_key') if isconst(off) else None
            self.ob += 2
            if iskeyed:
                if not eng.prove_eq(st, n1):
                    eng.report(st, 'nonce-rekey', fn, None, '%s installs a key on %s but does not start its counter at 0' % (fn.name, show(eng, obj)))
            elif not nokey:
                if n0 is None or not eng.prove_ge(st, lsub(n1, n0)):
                    eng.report(st, 'nonce-back', fn, None, '%s may move the counter of %s backwards under the same key (from %s to %s)' % (fn.name, show(eng, obj), show(eng, n0), show(eng, n1)))
                if k0 is None or not eng.prove_eq(st, k0, k1):
                    if not eng.prove_ne(st, k0):
                        eng.report(st, 'nonce-rekey', fn, None, '%s may mark %s as keyed without installing a key' % (fn.name, show(eng, obj)))
        for op, obj, n, ret, w in st.g.get('crypt', ()):
            if any(eng.prove_eq(st, f, obj) for f in freed):
                continue
            n1 = gf(eng, st, obj, CS, 'n')
            self.ob += 1
            if op == 'decrypt' and eng.decide(st, Pred('eq', ret)) is not True:
                continue
            if not eng.prove_ge(st, ladd(lsub(n1, n), K(-1))):
                eng.report(st, 'nonce-advance', fn, None, '%s returns with the counter not advanced past the value used by the %s at %s' % (fn.name, op, w))


# primitive -> (argument holding the IV, bytes of zero prefix, byte order of the counter, checked on the first call only)
IV = {
    'chacha_ivsetup': (1, 0, 'little', False),
    'rijndaelEncrypt': (2, 4, 'big', True),
    'crypto_aead_aes256gcm_encrypt_afternm': (7, 4, 'big', False),
    'crypto_aead_aes256gcm_decrypt_afternm': (7, 4, 'big', False),
    'crypto_aead_aes256gcm_encrypt': (7, 4, 'big', False),
    'crypto_aead_aes256gcm_decrypt': (7, 4, 'big', False),
    'crypto_stream_chacha20_ietf_xor': (3, 4, 'little', False),
    'crypto_stream_chacha20_ietf_xor_ic': (3, 4, 'little', False),
    'crypto_stream_chacha20_ietf': (2, 4, 'little', False),
    'EVP_EncryptInit_ex': (4, 4, 'big', False),
    'EVP_DecryptInit_ex': (4, 4, 'big', False),
}


class Backend:
    def __init__(self, ivcheck):
        self.iv = ivcheck
        self.n = 0
        self.bad = 0

    def on_call(self, st, c):
        d = IV.get(c.name)
        if d is None or not self.iv or c.callee is not None:
            return
        arg, pre, order, first = d
        eng = self.eng
        if first and st.g.get('ivseen'):
            return
        st.g['ivseen'] = True
        if eng.decide(st, Pred('eq', c.args[arg])) is True:
            return
        got = bits.membytes(eng, st, c.args[arg], pre + 8)
        obj = (0, ((eng.newsym(('param', self.fn.name, 0), 'state', 'ptr', 64).id, 1),))
        n = ef(eng, obj, CS, 'n')
        want = bits.word(eng, st, n, 64)
        if order == 'big':
            want = want[::-1]
        want = [[0] * 8] * pre + want
        self.n += 1
        if got != want:
            bad = [i for i in range(pre + 8) if got[i] != want[i]]
            eng.report(st, 'nonce-iv', c.fn, c.inst, 'the initialization vector passed to %s is not the encoding of the whole counter (bytes %s differ)' % (c.name, bad))

    def on_return(self, st, v, fn):
        eng = self.eng
        if not fn.params or fn.params[0][0][0] != 'ptr':
            return
        obj = (0, ((eng.newsym(('param', fn.name, 0), fn.params[0][1], 'ptr', 64).id, 1),))
        for f in ('n', 'has_key'):
            a, b = ef(eng, obj, CS, f), gf(eng, st, obj, CS, f)
            if b is None or not eng.prove_eq(st, a, b):
                eng.report(st, 'nonce-backend', fn, None, '%s may change the %s of the cipher object' % (fn.name, 'counter' if f == 'n' else 'key flag'))


def backend_job(item):
    lib, f, slot = item
    cl = Backend(slot in ('encrypt', 'decrypt'))
    cl.fn = f
    e = lib.engine([cl])
    e.run(f)
    r = engine_result(e, lambda rep: '%s %s:%s' % (f.name, lib.prog.config, f.module.name), lib.prog.config)
    r.count('backend_slot_functions')
    r.count('iv_uses', cl.n)
    if cl.iv and not cl.n:
        raise Broken('%s (%s) passes no initialization vector to a known primitive' % (f.name, lib.prog.config))
    return r


def job(item):
    lib, f = item
    cl = Nonce()
    e = lib.engine([cl])
    e.run(f)
    r = engine_result(e, lambda rep: '%s %s' % (f.name, rep.where.split(':')[0]), lib.prog.config)
    r.count('functions')
    r.count('crypt_calls', len(cl.calls))
    r.count('obligations', cl.ob)
    r.count('counter_functions', 1 if cl.touch else 0)
    if cl.touch:
        r.samples.append({'function': f.name, 'backend_calls': sorted(cl.calls)})
    return r


def check(ctx):
    lib = ctx.lib('ref')
    items = [(lib, f) for f in lib.prog.functions() if not f.internal and f.name.startswith('noise_')]
    ctx.pmap(job, items)
    items = []
    for cfg in ('ref', 'sodium', 'openssl'):
        lib = ctx.lib(cfg)
        sm = slots.slot_functions(lib)
        for k, fs in sorted(sm.items()):
            if not k.startswith(CS + '.') or k.endswith('.create'):
                continue
            for f, _ in fs:
                items.append((lib, f, k.split('.')[1]))
        for op in ('encrypt', 'decrypt', 'init_key'):
            ctx.require(len(sm.get(CS + '.' + op, ())) >= 2, 'cipher backends of configuration %s install %s' % (cfg, op))
    ctx.pmap(backend_job, items)
