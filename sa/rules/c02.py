"""C02: failed decryption releases nothing and changes nothing; success means the tag was verified over everything."""
from ..absint import *
from .. import clients, slots, bits, prims, equal
from ..clients import show
from ..libmodels import gf, ef, sf, finfo
from ..run import Result, engine_result, V, Broken

CS = 'NoiseCipherState_s'
RULES = [
    'decrypt-verified: a decrypt slot of any backend returns success only on paths on which the 16-byte tag at data+len was compared with the computed tag and matched (or the external AEAD reported a match)',
    'decrypt-clean: a decrypt slot returning an error leaves no decrypted byte in the caller buffer: it was not written, or it was erased over the whole plaintext length after the last write',
    'mac-cover: in encrypt and decrypt slots that compute the tag in this library the authenticator absorbs the associated data, the ciphertext and both lengths, and absorbs ciphertext, not plaintext',
    'decrypt-state: a public decrypt call that returns an error leaves counter, key flag, reported size and buffer pointer as they were',
    'decrypt-success: a public decrypt call returns success only without a key or after the backend verified exactly the supplied associated data and data, and then reports the input size minus the tag',
    'compare: noise_is_equal is 1 exactly for equal blocks (every byte position of blocks of up to 56 bytes) and looks at every byte for every length',
    'payload-release: a handshake read that returns an error has written nothing to the payload buffer and reports size 0',
]
EXPLANATION = ('path-sensitive interpretation of the decrypt slots of all backends in three build configurations and of every public '
               'function that decrypts; obligations are per return path')
MIN = {'slot_functions': 14, 'obligations': 40, 'public_functions': 3}


def lin0(eng, fn, i):
    t, n = fn.params[i]
    y = eng.newsym(('param', fn.name, i), n, 'ptr' if t[0] == 'ptr' else 'int', 64)
    return (0, ((y.id, 1),))


UPD = {'poly1305_update': 'poly', 'ghash_update': 'ghash', 'crypto_onetimeauth_poly1305_update': 'poly'}
INIT = {'poly1305_init', 'ghash_reset', 'crypto_onetimeauth_poly1305_init'}
FIN = {'poly1305_finish': 1, 'crypto_onetimeauth_poly1305_final': 1, 'ghash_pad': None}
STREAM = {'chacha_encrypt_bytes': (1, 2, 3), 'crypto_stream_chacha20_ietf_xor_ic': (1, 0, 2), 'crypto_stream_chacha20_ietf_xor': (1, 0, 2)}


class Slot:
    def __init__(self, fn, op):
        self.fn, self.op = fn, op
        self.ob = 0
        self.updates = 0
        self.final = 0

    def setup(self):
        eng, fn = self.eng, self.fn
        self.st, self.ad, self.adlen, self.data, self.len = [lin0(eng, fn, i) for i in range(5)]

    def on_enter(self, st, fn, args):
        if fn is self.fn and len(st.stack) == 1:
            self.setup()

    # ---- writes into the caller's data
    def wrote(self, st, b, off, length, clean):
        eng = self.eng
        db, doff = eng.base(self.data)
        if b != db:
            return
        # the tag area behind the plaintext does not matter
        if eng.prove_ge(st, lsub(off, self.len)):
            return
        if clean and eng.prove_eq(st, off) and length is not None and eng.prove_ge(st, lsub(length, self.len)):
            st.g['w'] = 'clean'
            return
        st.g['w'] = 'dirty'

    def on_store(self, st, b, off, size, val, inst, fn):
        self.wrote(st, b, off, K(size), False)

    def on_clobber(self, st, b, off, length, why):
        if why is not None and getattr(why, 'name', '') == 'crypto_aead_aes256gcm_decrypt_afternm':
            return
        self.wrote(st, b, off, length, False)

    def on_copy(self, st, db, doff, sb, soff, length):
        self.wrote(st, db, doff, length, False)

    def on_fill(self, st, b, off, val, length):
        self.wrote(st, b, off, length, isinstance(val, tuple) and isconst(val))

    # ---- authenticator input
    def on_call(self, st, c):
        eng = self.eng
        n = c.name
        if n in INIT:
            st.g['upd'] = ()
        elif n in UPD:
            self.updates += 1
            p, ln = c.args[1], c.args[2]
            kind = 'other'
            if eng.prove_eq(st, p, self.ad) and eng.prove_eq(st, ln, self.adlen):
                kind = 'ad'
            elif eng.prove_eq(st, p, self.data) and eng.prove_eq(st, ln, self.len):
                kind = 'data:' + ('cipher' if (st.g.get('w') == 'dirty') == (self.op == 'encrypt') or eng.prove_eq(st, self.len) else 'plain')
            elif eng.prove_eq(st, ln, K(16)):
                got = bits.membytes(eng, st, p, 16)
                if UPD[n] == 'poly':
                    want = bits.word(eng, st, self.adlen, 64) + bits.word(eng, st, self.len, 64)
                else:
                    want = [x for y in (self.adlen, self.len) for x in bits.word(eng, st, eng.binop(st, 'mul', y, K(8), 64, ()), 64)[::-1]]
                if got == want:
                    kind = 'lengths'
            if kind != 'other' or 'other' not in st.g.get('upd', ())[-1:]:
                st.g['upd'] = st.g.get('upd', ()) + (kind,)
        if n in ('poly1305_finish', 'crypto_onetimeauth_poly1305_final'):
            self.check_cover(st, c)
        if n == 'noise_is_equal' and st.g.get('upd') is not None:
            if not st.g.get('covered'):
                self.check_cover(st, c)

    def check_cover(self, st, c):
        eng = self.eng
        self.final += 1
        self.ob += 1
        u = [x for x in st.g.get('upd', ()) if x != 'other']
        st.g['covered'] = True
        adz = eng.prove_eq(st, self.adlen)
        lenz = eng.prove_eq(st, self.len)
        # the caller guarantees a null ad pointer only with ad_len 0
        miss = []
        if 'ad' not in u and not adz:
            miss.append('the associated data')
        if 'data:plain' in u:
            miss.append('the ciphertext (it absorbs the plaintext instead)')
        elif 'data:cipher' not in u and not lenz:
            miss.append('the ciphertext')
        if 'lengths' not in u:
            miss.append('the two lengths')
        if not miss:
            order = [x.split(':')[0] for x in u]
            want = [x for x in ('ad', 'data', 'lengths') if x in order]
            if order != want:
                miss.append('its inputs in the order associated data, ciphertext, lengths')
        if miss:
            eng.report(st, 'mac-cover', c.fn, c.inst, 'the tag does not cover ' + ' or '.join(miss))

    def on_call_done(self, st, c, ret):
        eng = self.eng
        if c.name == 'noise_is_equal':
            out = []
            tag = ladd(self.data, self.len)
            a, b, n = c.args[:3]
            whole = (eng.prove_eq(st, a, tag) != eng.prove_eq(st, b, tag)) and eng.prove_eq(st, n, K(16))
            other = b if eng.prove_eq(st, a, tag) else a
            for s, tv in eng.split(st, Pred('eq', ret)):
                if not tv and whole and s.g.get('covered'):
                    s.g['verified'] = True
                out.append((s, ret))
            return out
        if c.name == 'crypto_aead_aes256gcm_decrypt_afternm':
            out = []
            good = (eng.prove_eq(st, c.args[0], self.data) and eng.prove_eq(st, c.args[3], self.data)
                    and eng.prove_eq(st, c.args[4], ladd(self.len, K(16))) and eng.prove_eq(st, c.args[6], self.adlen)
                    and eng.prove_eq(st, c.args[5], self.ad))
            for s, tv in eng.split(st, Pred('eq', ret)):
                if tv:
                    s.g['w'] = 'dirty'
                    if good:
                        s.g['verified'] = True
                elif not eng.add_ge(s, ladd(lneg(ret), K(-1))):
                    continue          # the primitive returns 0 or -1
                out.append((s, ret))
            self.final += 1
            return out
        if c.name == 'crypto_aead_aes256gcm_encrypt_afternm':
            self.final += 1
            self.ob += 1
            if not (eng.prove_eq(st, c.args[2], self.data) and eng.prove_eq(st, c.args[3], self.len)
                    and eng.prove_eq(st, c.args[4], self.ad) and eng.prove_eq(st, c.args[5], self.adlen) and eng.prove_eq(st, c.args[0], self.data)):
                eng.report(st, 'mac-cover', c.fn, c.inst, 'the external AEAD is not given exactly the associated data and data of the call')
        if c.name in ('EVP_DecryptUpdate', 'EVP_EncryptUpdate') and eng.prove_eq(st, ret, ONE):
            isad = eng.decide(st, Pred('eq', c.args[1])) is True
            p, ln = c.args[3], c.args[4]
            w = self.adlen if isad else self.len
            if eng.prove_eq(st, p, self.ad if isad else self.data) and self.same_len(st, ln, w):
                st.g['evp'] = st.g.get('evp', frozenset()) | {'ad' if isad else 'data'}
            else:
                st.g['evp'] = st.g.get('evp', frozenset()) | {'wrong'}
        if c.name == 'EVP_CIPHER_CTX_ctrl':
            if eng.prove_eq(st, c.args[1], K(0x11)) and eng.prove_eq(st, c.args[2], K(16)) and eng.prove_eq(st, c.args[3], self.tagptr(st)):
                st.g['evp'] = st.g.get('evp', frozenset()) | {'settag'}
            if eng.prove_eq(st, c.args[1], K(0x10)) and eng.prove_eq(st, c.args[2], K(16)) and eng.prove_eq(st, c.args[3], self.tagptr(st)):
                st.g['evp'] = st.g.get('evp', frozenset()) | {'gettag'}
            return [(s, ret) for s, tv in eng.split(st, Pred('eq', ladd(ret, K(-1))))]
        if c.name == 'EVP_DecryptFinal_ex':
            self.final += 1
            out = []
            for s, tv in eng.split(st, Pred('ge', ladd(ret, K(-1)))):
                ev = s.g.get('evp', frozenset())
                if tv and {'data', 'settag'} <= ev and 'wrong' not in ev and ('ad' in ev or eng.prove_eq(s, self.adlen)):
                    s.g['verified'] = True
                out.append((s, ret))
            return out
        return None

    def same_len(self, st, a, w):
        """an int parameter carries a length of at most 65535"""
        eng = self.eng
        if eng.prove_eq(st, a, w):
            return True
        return bits.bits(eng, st, a, 31) == bits.bits(eng, st, w, 31)

    def tagptr(self, st):
        return ladd(self.data, self.len)

    def on_return(self, st, v, fn):
        eng = self.eng
        if self.op != 'decrypt':
            if fn.rettype == ('int', 32) and st.g.get('upd') is not None and not st.g.get('covered'):
                self.check_cover(st, type('C', (), {'fn': fn, 'inst': None}))
            ev = st.g.get('evp')
            if ev is not None:
                for s, tv in eng.split(st, Pred('eq', v)):
                    if tv:
                        self.ob += 1
                        if 'wrong' in ev or not {'data', 'gettag'} <= ev or not ('ad' in ev or eng.prove_eq(s, self.adlen)):
                            eng.report(s, 'mac-cover', fn, None, 'success without the external AEAD having processed exactly the associated data and data and produced the tag behind the data')
            return
        for s, tv in eng.split(st, Pred('eq', v)):
            self.ob += 1
            if tv:
                if not s.g.get('verified'):
                    eng.report(s, 'decrypt-verified', fn, None, '%s may return success without a matching tag over the whole message' % fn.name)
            elif s.g.get('w') == 'dirty':
                eng.report(s, 'decrypt-clean', fn, None, '%s may return an error with decrypted bytes left in the caller buffer' % fn.name)


def slot_job(item):
    lib, f, op = item
    cl = Slot(f, op)
    e = lib.engine([cl])

    def setup(eng, st, args):
        # what the public wrapper guarantees (checked there by C03): at most 65535 bytes
        eng.add_ge(st, lsub(K(65535 - 16), args[4]))
        # what every constructor sets and nothing changes (C20)
        sf(eng, st, args[0], CS, 'mac_len', K(16))
        return st
    e.run(f, setup)
    r = engine_result(e, lambda rep: '%s %s:%s' % (f.name, lib.prog.config, f.module.name), lib.prog.config)
    r.count('slot_functions')
    r.count('obligations', cl.ob)
    if op == 'decrypt' and not cl.final and not cl.ob:
        raise Broken('no return path found in %s' % f.name)
    if op == 'encrypt' and not cl.final and not any(rep.rule == 'mac-cover' for rep in e.reports) and not cl.ob:
        raise Broken('%s produces no tag through a known primitive' % f.name)
    return r


# ---------------------------------------------------------------- public functions

class Public(clients.ErrFork):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn
        self.ob = 0
        self.hit = False

    def on_call_done(self, st, c, ret):
        if c.name == 'slot:' + CS + '.decrypt':
            self.hit = True
            eng = self.eng
            out = []
            for s, tv in eng.split(st, Pred('eq', ret)):
                s.g['dec'] = s.g.get('dec', ()) + ((tuple(c.args), tv),)
                out.append((s, ret))
            return out
        return None


class CipherDec(Public):
    def on_return(self, st, v, fn):
        eng = self.eng
        names = [n for t, n in fn.params]
        P = [lin0(eng, fn, i) for i in range(len(names))]
        if len(P) == 4:
            obj, ad, adlen, buf = P
        else:
            obj, buf = P
            ad = adlen = ZERO
        if eng.decide(st, Pred('eq', obj)) is True or eng.decide(st, Pred('eq', buf)) is True:
            return
        for s, tv in eng.split(st, Pred('eq', v)):
            self.ob += 1
            sz0, sz1 = ef(eng, buf, 'NoiseBuffer', 'size'), gf(eng, s, buf, 'NoiseBuffer', 'size')
            d0, d1 = ef(eng, buf, 'NoiseBuffer', 'data'), gf(eng, s, buf, 'NoiseBuffer', 'data')
            if not eng.prove_eq(s, d0, d1):
                eng.report(s, 'decrypt-state', fn, None, 'the data pointer of the buffer is changed')
            if not tv:
                for what, a, b in (('counter', ef(eng, obj, CS, 'n'), gf(eng, s, obj, CS, 'n')),
                                   ('key flag', ef(eng, obj, CS, 'has_key'), gf(eng, s, obj, CS, 'has_key')),
                                   ('reported size', sz0, sz1)):
                    if not eng.prove_eq(s, a, b):
                        eng.report(s, 'decrypt-state', fn, None, 'a failing decrypt may change the %s' % what)
                continue
            dec = s.g.get('dec', ())
            hk = ef(eng, obj, CS, 'has_key')
            ml = ef(eng, obj, CS, 'mac_len')
            if not dec:
                if not eng.prove_eq(s, hk):
                    eng.report(s, 'decrypt-success', fn, None, 'success without the backend having verified anything although a key may be set')
                elif not eng.prove_eq(s, sz0, sz1):
                    eng.report(s, 'decrypt-success', fn, None, 'pass-through changes the size')
                continue
            args, good = dec[-1]
            if not good:
                eng.report(s, 'decrypt-success', fn, None, 'success although the backend rejected the message')
                continue
            okargs = (len(dec) == 1 and eng.prove_eq(s, args[0], obj) and eng.prove_eq(s, args[1], ad) and eng.prove_eq(s, args[2], adlen)
                      and eng.prove_eq(s, args[3], d0) and eng.prove_eq(s, args[4], lsub(sz0, ml)))
            if not okargs:
                eng.report(s, 'decrypt-success', fn, None, 'the backend was not given exactly the supplied associated data and the message without its tag')
            if not eng.prove_eq(s, sz1, lsub(sz0, ml)):
                eng.report(s, 'decrypt-success', fn, None, 'the reported plaintext size is not the message size minus the tag')


class SymDec(Public):
    '''noise_symmetricstate_decrypt_and_hash(state, buffer)'''

    def on_enter(self, st, fn, args):
        if fn is self.fn and len(st.stack) == 1:
            self.obj = lin0(self.eng, fn, 0)
            self.ob0 = self.eng.base(self.obj)[0]
            self.lo, self.hi = finfo(self.eng.prog, 'NoiseSymmetricState_s', 'ck')[0], finfo(self.eng.prog, 'NoiseSymmetricState_s', 'h')[0] + 64

    def w(self, st, b, off, length):
        if b != self.ob0:
            return
        eng = self.eng
        if eng.prove_ge(st, lsub(off, K(self.hi))) or length is not None and eng.prove_ge(st, lsub(K(self.lo), ladd(off, length))):
            return
        st.g['tr'] = True

    def on_store(self, st, b, off, size, val, inst, fn):
        self.w(st, b, off, K(size))

    def on_copy(self, st, db, doff, sb, soff, length):
        self.w(st, db, doff, length)

    def on_fill(self, st, b, off, val, length):
        self.w(st, b, off, length)

    def on_clobber(self, st, b, off, length, why):
        self.w(st, b, off, length)

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, tv in eng.split(st, Pred('eq', v)):
            self.ob += 1
            if tv:
                continue
            if s.g.get('tr'):
                eng.report(s, 'decrypt-state', fn, None, 'a failing decryption may change the chaining key or the transcript hash')
            if eng.decide(s, Pred('eq', lin0(eng, fn, 1))) is True:
                continue
            buf = lin0(eng, fn, 1)
            if not eng.prove_eq(s, ef(eng, buf, 'NoiseBuffer', 'size'), gf(eng, s, buf, 'NoiseBuffer', 'size')):
                eng.report(s, 'decrypt-state', fn, None, 'a failing decrypt may change the reported size')


class HandRead(Public):
    """noise_handshakestate_read_message(state, message, payload), payload not null"""

    def setup(self, eng, st, args):
        eng.add_ne(st, args[2])
        return st

    def on_enter(self, st, fn, args):
        if fn is self.fn and len(st.stack) == 1:
            self.payload = lin0(self.eng, fn, 2)
            self.pd = ef(self.eng, self.payload, 'NoiseBuffer', 'data')
            self.pb = self.eng.base(self.pd)[0]

    def w(self, st, b, what):
        if b == self.pb:
            st.g['pay'] = what

    def on_store(self, st, b, off, size, val, inst, fn):
        self.w(st, b, 'store')
        if b == self.eng.base(self.payload)[0]:
            st.g['touched'] = True

    def on_copy(self, st, db, doff, sb, soff, length):
        self.w(st, db, 'copy')

    def on_fill(self, st, b, off, val, length):
        if not (isinstance(val, tuple) and isconst(val)):
            self.w(st, b, 'fill')

    def on_clobber(self, st, b, off, length, why):
        self.w(st, b, 'call')

    def on_return(self, st, v, fn):
        eng = self.eng
        if eng.decide(st, Pred('eq', self.payload)) is True:
            return
        for s, tv in eng.split(st, Pred('eq', v)):
            if tv:
                continue
            self.ob += 1
            if s.g.get('pay'):
                eng.report(s, 'payload-release', fn, None, 'a failing read may have written payload bytes to the caller (%s)' % s.g['pay'])
            sz0, sz1 = ef(eng, self.payload, 'NoiseBuffer', 'size'), gf(eng, s, self.payload, 'NoiseBuffer', 'size')
            # rejected before the payload was looked at: untouched; otherwise empty
            st0 = lin0(eng, fn, 0)
            if s.g.get('touched') and not eng.prove_eq(s, sz1):
                eng.report(s, 'payload-release', fn, None, 'a failing read may report a payload size')


def pub_job(item):
    lib, f, cls = item
    cl = cls(f)
    e = lib.engine([cl], inline=('noise_cipherstate_decrypt_with_ad',))
    e.run(f, cl.setup if hasattr(cl, 'setup') else None)
    r = engine_result(e, lambda rep: '%s %s' % (f.name, rep.msg[:40]), lib.prog.config)
    r.count('public_functions')
    r.count('obligations', cl.ob)
    return r


def dispatch(item):
    if item[0] == 'e':
        return equal.job(item[1:])
    return slot_job(item[1:]) if item[0] == 's' else pub_job(item[1:])


def check(ctx):
    items = []
    ref = ctx.lib('ref')
    items.append(('p', ref, ctx.fn(ref, 'noise_handshakestate_read_message'), HandRead))
    items.append(('p', ref, ctx.fn(ref, 'noise_symmetricstate_decrypt_and_hash'), SymDec))
    for cfg in ('ref', 'sodium', 'openssl'):
        lib = ctx.lib(cfg)
        sm = slots.slot_functions(lib)
        for op in ('decrypt', 'encrypt'):
            fs = sm.get(CS + '.' + op, ())
            ctx.require(len(fs) >= 2, 'cipher backends of configuration %s install %s' % (cfg, op))
            for f, _ in fs:
                items.append(('s', lib, f, op))
    for n in ('noise_cipherstate_decrypt', 'noise_cipherstate_decrypt_with_ad'):
        items.append(('p', ref, ctx.fn(ref, n), CipherDec))
    items.append(('e', ref, 'noise_is_equal', 'compare'))
    ctx.pmap(dispatch, items)
