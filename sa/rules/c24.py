"""C24: encrypted private keys are well protected and fully validated."""
from ..absint import *
from .. import bits
from ..libmodels import gf, ef, sf
from ..prov import Prov, showterm, NB
from ..handshake import const
from ..run import Result, engine_result, V, Broken

RULES = [
    'algorithm: a protection name is accepted only if its parts are the name of a cipher, the name of a hash and PBKDF2, and the cipher and hash used are those; only ciphers whose key has 32 bytes are used',
    'derivation: the cipher key is the first 32 bytes, and the nonce the next 8 bytes (big-endian), of the PBKDF2 output for the caller\'s passphrase under the hash of the algorithm name',
    'saving: the salt is fresh random data of at least 16 bytes, and fresh again for each further attempt, the iteration count is at least 20000; the version, algorithm, salt and iteration count written are the ones used, and what is written is the output of a successful encryption of the whole encoded key',
    'plaintext: on every path the encoded private key left in the caller\'s buffer is erased',
    'loading: before the derivation the version is the supported one and the algorithm, salt, iteration count and encrypted data are present; the salt, iteration count and encrypted data used are those of the file; the private key is parsed from the output of a decryption that succeeded, and only then can a key be returned',
]
EXPLANATION = 'every path of saving, loading and the parsing of protection names, with their file-local helpers and every outcome of every call'
MIN = {'obligations': 60, 'derivations': 2, 'saved_paths': 1, 'loaded_paths': 1, 'accepted_names': 1}
ASSUMPTIONS = ['PBKDF2, encryption and the random generator do what C26, C02 and C18 state']
CS, HASH, PB, EK = 'NoiseCipherState_s', 'NoiseHashState_s', 'NoiseProtobuf', '_Noise_EncryptedPrivateKey'
E = 'Noise_EncryptedPrivateKey_'
VERSION, ITER, SALT = 1, 20000, 16


def may_fail(eng, st, c):
    s2 = st.fork()
    r = eng.fresh('err:' + c.name, 'int', 32, 1, (1 << 31) - 1, origin=('ret', c.name))
    s2.trail = (s2.trail, '%s: %s fails' % (eng.where(c.fn, c.inst), c.name))
    return [(st, ZERO), (s2, r)]


def m_pbkdf2(eng, st, c):
    eng.clobber(st, c.args[6], c.args[7], c)
    return [(st, ZERO)]


def m_strchr(eng, st, c):
    k = eng.fresh('strchr', 'int', 64, 0, 1 << 40)
    s2 = st.fork()
    eng.add_ne(st, c.args[0])
    return [(st, ladd(c.args[0], k)), (s2, ZERO)]


def m_encrypt(eng, st, c):
    z = gf(eng, st, c.args[3], NB, 'size')
    res = may_fail(eng, st, c)
    eng.clobber(st, gf(eng, st, c.args[3], NB, 'data'), ladd(z, gf(eng, st, c.args[0], CS, 'mac_len')), c)
    sf(eng, st, c.args[3], NB, 'size', ladd(z, gf(eng, st, c.args[0], CS, 'mac_len')))
    return res


def m_rand(eng, st, c):
    eng.clobber(st, c.args[0], c.args[1], c)
    return [(st, ZERO)]


class Key(Prov):
    def __init__(self, kind):
        super().__init__({E + 'write', E + 'read', 'Noise_PrivateKey_write', 'Noise_PrivateKey_read'})
        self.kind = kind
        self.ob = self.wins = self.derivs = 0

    def setup(self, eng, st, args):
        self.args = list(args)
        if self.kind == 'save':
            for x in ('data', 'size', 'posn', 'error'):
                gf(eng, st, args[1], PB, x)
            d = ef(eng, args[1], PB, 'data')
            eng.add_ne(st, d)
            sz, po = ef(eng, args[1], PB, 'size'), ef(eng, args[1], PB, 'posn')
            eng.add_ge(st, lsub(sz, po))
            eng.add_ge(st, lsub(K(1 << 40), sz))
            self.end = ladd(d, po)
        return st

    def bad(self, st, c, m, rule=None):
        self.eng.report(st, rule or ('saving' if self.kind == 'save' else 'loading'), c.fn if c else self.fn, c.inst if c else None, m)

    def on_back_edge(self, st, fn, header):
        l = []
        for p, n, t in st.g.get('prov', ()):
            if not isconst(n) or t[0] == 'val':
                p, n, t = (0, ((self.eng.base(p)[0], 1),)), K(1 << 62), ('mixed',)
            if (p, n, t) in l and t != ('mixed',):
                l.remove((p, n, t))
            if (p, n, t) not in l:
                l.append((p, n, t))
        if 'prov' in st.g:
            st.g['prov'] = tuple(l)
        st.g.pop('pev', None)

    def on_clobber(self, st, b, off, length, why):
        if getattr(why, 'name', None) in ('noise_hashstate_pbkdf2', 'noise_randstate_generate_simple', 'noise_randstate_generate'):
            return
        super().on_clobber(st, b, off, length, why)

    # ---- events
    def on_call(self, st, c):
        eng, n, a = self.eng, c.name, c.args
        g = st.g
        super().on_call(st, c)
        if n in ('noise_randstate_generate_simple', 'noise_randstate_generate'):
            k = 0 if n.endswith('simple') else 1
            self.put(st, a[k], a[k + 1], ('rand',))
        elif n == 'Noise_PrivateKey_write':
            g['top'] = gf(eng, st, a[0], PB, 'posn')
        elif n == 'noise_hashstate_pbkdf2':
            self.pbkdf2(st, c)
        elif n == 'noise_cipherstate_init_key':
            self.ob += 1
            self.bad_key(st, c)
        elif n == 'noise_cipherstate_set_nonce':
            self.ob += 1
            want = g.get('kdf')
            ok = False
            if want is not None:
                by = bits.membytes(eng, st, ladd(want[0], K(32)), 8)
                ok = bits.word(eng, st, a[1], 64) == by[::-1] and bits.known(by)
            t = self.content(st, ladd(want[0], K(32)), K(8)) if want else None
            if not ok or t[0] != 'part' or t[3][0] != 'pbkdf2':
                self.bad(st, c, 'the nonce is not the 8 bytes of the derived material after the key, most significant first', 'derivation')
        elif n in ('noise_cipherstate_encrypt_with_ad', 'noise_cipherstate_decrypt_with_ad', 'noise_cipherstate_encrypt', 'noise_cipherstate_decrypt'):
            self.crypt(st, c, 'enc' if 'encrypt' in n else 'dec')
        elif n.startswith(E + 'set_') and self.kind == 'save':
            f = n[len(E) + 4:]
            g['set'] = tuple(x for x in g.get('set', ()) if x[0] != f) + ((f,) + tuple(self.content(st, *a[1:3]) if f in ('salt', 'encrypted_data') and i == 0 else eng.norm(st, x)
                                                                   for i, x in enumerate(a[1:])),)
        elif n == E + 'write' and self.kind == 'save':
            self.written(st, c)
        elif n == 'Noise_PrivateKey_read' and self.kind == 'load':
            self.ob += 1
            d, s, p = (gf(eng, st, a[0], PB, x) for x in ('data', 'size', 'posn'))
            t = self.content(st, d, s)
            if eng.prove_ne(st, gf(eng, st, a[0], PB, 'error')):
                return
            if not g.get('dec') or t[0] != 'dec' or not eng.prove_eq(st, p):
                self.bad(st, c, 'a private key is parsed from something other than the whole output of a decryption that succeeded')

    def bad_key(self, st, c):
        eng, a = self.eng, c.args
        t = self.content(st, a[1], a[2])
        if not eng.prove_eq(st, a[2], K(32)) or t[0] != 'part' or t[1] != ZERO or t[3][0] != 'pbkdf2':
            self.bad(st, c, 'the cipher key is not the first 32 bytes of the derived material', 'derivation')
        if not eng.prove_eq(st, gf(eng, st, a[0], CS, 'key_len'), K(32)):
            self.bad(st, c, 'the cipher may not have a key of 32 bytes', 'algorithm')
        if 'kdf' in st.g:
            st.g['cipher'] = (eng.norm(st, a[0]), 'keyed')

    def pbkdf2(self, st, c):
        eng, a, g = self.eng, c.args, st.g
        self.ob += 1
        self.derivs += 1
        salt = self.content(st, a[3], a[4])
        self.put(st, a[6], a[7], ('pbkdf2', eng.norm(st, a[5])))
        g['kdf'] = (eng.norm(st, a[6]), eng.norm(st, a[3]), eng.norm(st, a[4]), eng.norm(st, a[5]), eng.norm(st, a[0]))
        g.pop('cipher', None)
        pw, pl = self.args[2], self.args[3]
        if not (eng.prove_eq(st, a[1], pw) and eng.prove_eq(st, a[2], pl)):
            self.bad(st, c, 'the derivation does not use the whole passphrase of the caller', 'derivation')
        if not eng.prove_ge(st, lsub(a[7], K(40))):
            self.bad(st, c, 'less than a key and a nonce is derived', 'derivation')
        if self.kind == 'save':
            if salt != ('rand',) or not eng.prove_ge(st, lsub(a[4], K(SALT))):
                self.bad(st, c, 'the salt is not fresh random data of at least %d bytes for each attempt' % SALT)
            if not eng.prove_ge(st, lsub(a[5], K(ITER))):
                self.bad(st, c, 'fewer than %d iterations are made' % ITER)
        else:
            e = g.get('file')
            if e is None:
                return self.bad(st, c, 'the derivation comes before the file is read')
            f = {x: gf(eng, st, e, EK, x) for x in ('version', 'algorithm', 'salt', 'salt_size_', 'iterations', 'encrypted_data', 'encrypted_data_size_')}
            if not eng.prove_eq(st, f['version'], K(VERSION)):
                self.bad(st, c, 'the version may not be the supported one')
            for x in ('algorithm', 'salt', 'iterations', 'encrypted_data'):
                if not eng.prove_ne(st, f[x]):
                    self.bad(st, c, 'the %s may be missing' % x.replace('_', ' '))
            if not (eng.prove_eq(st, a[3], f['salt']) and eng.prove_eq(st, a[4], f['salt_size_']) and self.eq32(st, a[5], f['iterations'])):
                self.bad(st, c, 'the salt and iteration count are not those of the file')

    def eq32(self, st, a, b):
        eng = self.eng
        x, y = bits.bits(eng, st, a, 64), bits.bits(eng, st, b, 32) + [0] * 32
        return eng.prove_eq(st, a, b) or None not in x and x == y

    def crypt(self, st, c, kind):
        eng, a, g = self.eng, c.args, st.g
        self.ob += 1
        k = 3 if c.name.endswith('_ad') else 1
        if not c.name.endswith('_ad'):
            return self.bad(st, c, 'the rule knows only the operations with associated data')
        if not g.get('cipher') or g['cipher'][0] != eng.norm(st, a[0]):
            self.bad(st, c, 'the cipher was not keyed from this derivation', 'derivation')
        d, z = self.buf(st, a[k])
        if kind == 'enc':
            p = g.get('plain')
            if p is None or not eng.prove_eq(st, d, p[0]) or not eng.prove_eq(st, z, p[1]):
                self.bad(st, c, 'something other than the whole encoded private key is encrypted')
        else:
            e = g.get('file')
            if e is None or not (eng.prove_eq(st, d, gf(eng, st, e, EK, 'encrypted_data')) and eng.prove_eq(st, z, gf(eng, st, e, EK, 'encrypted_data_size_'))):
                self.bad(st, c, 'something other than the whole encrypted data of the file is decrypted')

    def on_call_done(self, st, c, ret):
        eng, n = self.eng, c.name
        res = super().on_call_done(st, c, ret)
        out = res if res is not None else [(st, ret)]
        for s, r in out:
            ok = isinstance(r, tuple) and eng.decide(s, Pred('eq', r)) is True
            if n == 'Noise_PrivateKey_write' and self.kind == 'save':
                if not ok:              # part of the key may have been written before the failure
                    sf(eng, s, c.args[0], PB, 'posn', eng.fresh('posn', 'int', 64))
                d, p = gf(eng, s, c.args[0], PB, 'data'), gf(eng, s, c.args[0], PB, 'posn')
                sz = gf(eng, s, c.args[0], PB, 'size')
                top = s.g.get('top')
                s.g['left'] = s.g.get('left', ()) + ((ladd(d, p), lsub(top, p)),)
                if top is not None:
                    eng.add_ge(s, lsub(top, p))
                if ok:
                    s.g['plain'] = (ladd(d, p), lsub(top, p))
            elif n.startswith('noise_cipherstate_encrypt') and not ok and 'kdf' in s.g:
                k = s.g['kdf']
                self.put(s, k[1], k[2], ('used',))
            elif n.startswith('noise_cipherstate_decrypt'):
                s.g['dec'] = ok
            elif n == E + 'read' and ok:
                b = eng.base(eng.norm(s, c.args[2]))
                s.g['file'] = eng.load_cell(s, b[0], b[1], 8, True, 64, None)
            elif n == 'Noise_PrivateKey_read':
                s.g['read'] = ok and s.g.get('dec') is True
        return res

    def written(self, st, c):
        eng, g = self.eng, st.g
        self.ob += 1
        sets = {x[0]: x[1:] for x in g.get('set', ())}
        k = g.get('kdf')
        if k is None:
            return self.bad(st, c, 'a key is written without a derivation')
        if 'version' not in sets or not eng.prove_eq(st, sets['version'][0], K(VERSION)):
            self.bad(st, c, 'the version written is not %d' % VERSION)
        if 'algorithm' not in sets or not eng.prove_eq(st, sets['algorithm'][0], self.args[4]):
            self.bad(st, c, 'the algorithm written is not the one asked for')
        if 'iterations' not in sets or not eng.prove_eq(st, sets['iterations'][0], k[3]):
            self.bad(st, c, 'the iteration count written is not the one used')
        if 'salt' not in sets or sets['salt'][0] != ('rand',) or not eng.prove_eq(st, sets['salt'][1], k[2]):
            self.bad(st, c, 'the salt written is not the one used')
        t = sets.get('encrypted_data')
        if t is None or t[0][0] != 'enc':
            self.bad(st, c, 'the data written is not the whole output of a successful encryption')

    def on_return(self, st, v, fn):
        eng, g = self.eng, st.g
        self.fn = fn
        for p, n in g.get('left', ()):
            self.ob += 1
            if self.content(st, p, n) not in (('zero',), ('empty',)):
                eng.report(st, 'plaintext', fn, None, 'the encoded private key may be left in the caller\'s buffer')
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            if ok:
                self.wins += 1
                if self.kind == 'load' and not s.g.get('read'):
                    self.bad(s, None, 'success without a key from a decryption that succeeded')
                if self.kind == 'save' and not any(x for x in s.g.get('set', ())):
                    self.bad(s, None, 'success without writing a key')
            elif self.kind == 'load' and eng.decide(s, Pred('eq', self.args[0])) is not True:
                b, off = eng.base(self.args[0])
                if not eng.prove_eq(s, eng.load_cell(s, b, off, 8, True, 64, None)) and not s.g.get('dec'):
                    self.bad(s, None, 'a key is returned although decryption did not succeed')


class Name:
    """parsing of a protection name through its callers' view: what new_by_id is given"""

    def __init__(self, kind):
        self.kind = kind
        self.ob = self.wins = 0

    def setup(self, eng, st, args):
        self.args = list(args)
        return st

    def on_call(self, st, c):
        eng, a, g = self.eng, c.args, st.g
        if c.name in ('noise_cipherstate_new_by_id', 'noise_hashstate_new_by_id'):
            self.ob += 1
            self.wins += 1
            cat = 'CIPHER' if 'cipher' in c.name else 'HASH'
            k = a[1] if c.name.endswith('by_id') else None
            parts = g.get('names', ())
            name = g.get('src')
            hit = [p for p in parts if eng.prove_eq(st, p[3], eng.norm(st, k)) and p[0] == K(const('NOISE_%s_CATEGORY' % cat))]
            if not hit:
                return eng.report(st, 'algorithm', c.fn, c.inst, 'the %s used is not the one named' % cat.lower())
            p = hit[0]
            seps = [x for x in g.get('seps', ()) if eng.prove_ne(st, x[1])]
            # the part runs from the end of the part before it to the separator found from there
            good = any(eng.prove_eq(st, x[0], p[1]) and eng.prove_eq(st, x[1], ladd(p[1], p[2])) for x in seps)
            if not good:
                eng.report(st, 'algorithm', c.fn, c.inst, 'the name of the %s is not a whole part of the protection name' % cat.lower())
            first = g.get('seps', ((None,),))[0][0]
            if cat == 'HASH' and not any(eng.prove_eq(st, p[1], ladd(x[1], ONE)) for x in seps):
                eng.report(st, 'algorithm', c.fn, c.inst, 'the hash is not named by the part after the cipher')
            if not eng.prove_ne(st, k):
                eng.report(st, 'algorithm', c.fn, c.inst, 'an unknown %s name is accepted' % cat.lower())
            if not any(t == 'PBKDF2' and eng.prove_eq(st, r) and any(eng.prove_eq(st, q, ladd(x[1], ONE)) for x in seps) for q, t, r in g.get('cmps', ())):
                eng.report(st, 'algorithm', c.fn, c.inst, 'the derivation function named may not be PBKDF2')

    def on_call_done(self, st, c, ret):
        eng, a, g = self.eng, c.args, st.g
        if c.name == 'noise_name_to_id':
            g['names'] = g.get('names', ()) + ((eng.norm(st, a[0]), eng.norm(st, a[1]), eng.norm(st, a[2]), ret),)
        elif c.name == 'strchr':
            if eng.norm(st, a[1]) == K(ord('_')):
                g['seps'] = g.get('seps', ()) + ((eng.norm(st, a[0]), ret),)
        elif c.name in ('strcmp',):
            b, off = eng.base(eng.norm(st, a[1]))
            try:
                t = bytes(eng.syms[b].extra.image[off[0]:]).split(b'\0')[0].decode()
            except Exception:
                t = None
            g['cmps'] = g.get('cmps', ()) + ((eng.norm(st, a[0]), t, ret),)
        return None


def job(item):
    lib, kind, f, name = item
    ov = {}
    for n in lib.prog.ext:
        if n.startswith(E + 'set_'):
            ov[n] = may_fail
    ov['noise_hashstate_pbkdf2'] = m_pbkdf2
    ov['noise_randstate_generate_simple'] = m_rand
    ov['strchr'] = m_strchr
    ov['noise_cipherstate_encrypt_with_ad'] = m_encrypt
    cl = Name(kind) if name else Key(kind)
    e = lib.engine([cl], inline=[f.name] + [n for n in lib.prog.ext if n.startswith(E + 'get_') or n.startswith(E + 'has_')], override=ov)
    e.merge_limit = 400
    e.run(f, cl.setup)
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    r.count('obligations', cl.ob)
    if name:
        r.count('accepted_names', cl.wins)
    else:
        r.count('derivations', cl.derivs)
        r.count('saved_paths' if kind == 'save' else 'loaded_paths', cl.wins)
    return r


def check(ctx):
    lib = ctx.lib('ref')
    items = []
    for n, k in (('noise_save_private_key_to_buffer', 'save'), ('noise_load_private_key_from_buffer', 'load')):
        f = ctx.fn(lib, n)
        items += [(lib, k, f, False), (lib, k, f, True)]
    ctx.pmap(job, items)
