"""What each SymmetricState operation must do to the chaining key, the transcript hash and the cipher (Noise specification,
section 5.2), checked against the content of memory at each return of its body."""
from .absint import *
from . import prov, symmodels
from .clients import show
from .libmodels import gf, ef, finfo
from .prov import Prov, showterm, HASH, CS, NB
from .run import Result, Broken

SS = 'NoiseSymmetricState_s'


def param(eng, fn, i):
    t, n = fn.params[i]
    y = eng.newsym(('param', fn.name, i), n, 'ptr' if t[0] == 'ptr' else 'int', 64 if t[0] == 'ptr' else t[1])
    return (0, ((y.id, 1),))


class Body(Prov):
    kind = None

    def __init__(self, fn):
        super().__init__()
        self.fn = fn
        self.ob = 0
        self.good = 0

    def setup(self, eng, st, args):
        self.state = args[0]
        eng.add_ne(st, args[0])
        self.hash = ef(eng, self.state, SS, 'hash')
        self.cipher = ef(eng, self.state, SS, 'cipher')
        eng.add_ne(st, self.hash)
        self.hlen = ef(eng, self.hash, HASH, 'hash_len')
        self.h = ladd(self.state, K(finfo(eng.prog, SS, 'h')[0]))
        self.ck = ladd(self.state, K(finfo(eng.prog, SS, 'ck')[0]))
        eng.add_ge(st, lsub(K(64), self.hlen))
        eng.add_ge(st, lsub(self.hlen, ONE))
        klen = ef(eng, self.cipher, CS, 'key_len')
        eng.add_ge(st, lsub(K(32), klen))
        eng.add_ge(st, lsub(klen, ONE))
        self.klen = klen
        eng.add_ge(st, lsub(self.hlen, klen))
        self.args = args
        return st

    def fail(self, st, msg):
        self.eng.report(st, self.rule, self.fn, None, msg)

    def unchanged(self, st, what):
        p = self.h if what == 'h' else self.ck
        for n in (self.hlen, K(64)):
            if self.same(st, self.content(st, p, n), ('in', p, n)):
                return True
        return False

    def expect(self, st, p, n, want, what):
        got = self.content(st, p, n)
        if not self.same(st, got, want):
            self.fail(st, '%s is %s, not %s' % (what, showterm(self.eng, got), showterm(self.eng, want)))
            return False
        return True

    def on_return(self, st, v, fn):
        for s, ok in self.eng.split(st, Pred('eq', v)):
            self.ob += 1
            if ok:
                self.good += 1
                self.success(s)
            else:
                for w in ('h', 'ck'):
                    if not self.unchanged(s, w):
                        self.fail(s, '%s returns an error although it has changed the %s' % (fn.name, 'transcript hash' if w == 'h' else 'chaining key'))


class MixHash(Body):
    rule = 'mix-hash'

    def success(self, st):
        a = self.args
        self.expect(st, self.h, self.hlen, ('hash', tuple(x for x in (('in', self.h, self.hlen), self.inp(st)) if x)), 'after MixHash the transcript hash')
        if not self.unchanged(st, 'ck'):
            self.fail(st, 'MixHash changes the chaining key')
        if any(e[0] in ('init', 'enc', 'dec') for e in st.g.get('pev', ())):
            self.fail(st, 'MixHash uses the cipher')

    def inp(self, st):
        if self.eng.prove_eq(st, self.args[2]):
            return None
        return ('in', self.eng.norm(st, self.args[1]), self.eng.norm(st, self.args[2]))


class MixKey(MixHash):
    rule = 'mix-key'

    def success(self, st):
        i = self.inp(st) or ('empty',)
        ck = ('in', self.ck, self.hlen)
        self.expect(st, self.ck, self.hlen, ('hkdf', 1, ck, i), 'after MixKey the chaining key')
        if not self.unchanged(st, 'h'):
            self.fail(st, 'MixKey changes the transcript hash')
        ev = [e for e in st.g.get('pev', ()) if e[0] in ('init', 'enc', 'dec')]
        if len(ev) != 1 or ev[0][0] != 'init' or not self.eng.prove_eq(st, ev[0][1], self.cipher):
            self.fail(st, 'MixKey does not initialise the key of the cipher exactly once')
        elif not self.same(st, ev[0][2], ('hkdf', 2, ck, i)) or not self.eng.prove_eq(st, ev[0][3], self.klen):
            self.fail(st, 'the cipher key after MixKey is %s, not the second HKDF output' % showterm(self.eng, ev[0][2]))


class Crypt(Body):
    rule = 'transcript'

    def __init__(self, fn, enc):
        super().__init__(fn)
        self.enc = enc

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        self.bdata, self.bsize = ef(eng, args[1], NB, 'data'), ef(eng, args[1], NB, 'size')
        return st

    def success(self, st):
        eng = self.eng
        h0 = ('in', self.h, self.hlen)
        d0 = ('empty',) if eng.prove_eq(st, self.bsize) else ('in', self.bdata, self.bsize)
        ev = [e for e in st.g.get('pev', ()) if e[0] in ('init', 'enc', 'dec')]
        k = 'enc' if self.enc else 'dec'
        if len(ev) != 1 or ev[0][0] != k or not self.eng.prove_eq(st, ev[0][2], self.cipher):
            return self.fail(st, '%s does not %srypt the buffer exactly once' % (self.fn.name, k))
        t = ev[0][1]
        if not self.same(st, t[1], h0):
            self.fail(st, 'the associated data is %s, not the transcript hash' % showterm(eng, t[1]))
        if not self.same(st, t[2], d0):
            self.fail(st, 'what is %srypted is %s, not exactly the buffer' % (k, showterm(eng, t[2])))
        n1 = gf(eng, st, self.args[1], NB, 'size')
        if self.enc:
            absorbed = () if eng.prove_eq(st, n1) else (t,)
        else:
            absorbed = () if d0 == ('empty',) else (d0,)
        self.expect(st, self.h, self.hlen, ('hash', (h0,) + absorbed), 'the transcript hash')
        if not self.unchanged(st, 'ck'):
            self.fail(st, '%s changes the chaining key' % self.fn.name)


P = 'noise_symmetricstate_'
INLINE = prov.INLINE + [P + 'mix_hash', P + 'get_mac_length', 'noise_cipherstate_get_mac_length', 'noise_cipherstate_has_key',
                        'noise_hashstate_get_hash_length', 'noise_cipherstate_get_key_length']


def run_body(lib, fn, cl):
    e = lib.engine([cl], override=symmodels.kdf_models(), inline=[n for n in INLINE if n != fn.name])
    e.run(fn, cl.setup)
    return e
