"""C15: wrong lengths, roles, identifiers and phases are rejected without side effects."""
from ..absint import *
from ..libmodels import gf, sf, ef, finfo
from .. import errcodes, public
from ..handshake import const
from ..run import Result, engine_result, V, Broken
from . import c17
from .c14 import NullArg

RULES = [
    'documented-error: with one argument or object state wrong and everything else right, a function returns exactly the documented error on every path',
    'no-effect: on these paths nothing the caller can see is changed, no backend operation is called and nothing is freed, except that a pure result may be set to zero',
    'still-refused: with one argument wrong and everything else arbitrary it returns some error, again without effect',
    'refused-key: a signing object whose new key is refused by the backend keeps its keys or has none',
    'stored-length: wherever a library object stores data behind a pointer and its length, they change together: at every return the block has exactly the stored length (one more for strings), and no block goes with length zero; a pre-shared key or hash value stored in an object is stored with the length given',
]
EXPLANATION = 'every path of every function with a documented length, role, identifier or phase condition, with that condition violated; every path of every function that stores a block and its length'
MIN = {'conditions': 70, 'functions': 40, 'obligations': 1000, 'length_functions': 50}
ASSUMPTIONS = ['lengths given by callers are below 2^62, as any object in memory is']

CS, DH, SG, HA, SY, HS = ('NoiseCipherState_s', 'NoiseDHState_s', 'NoiseSignState_s', 'NoiseHashState_s', 'NoiseSymmetricState_s', 'NoiseHandshakeState_s')


# ---- expressions over arguments and entry fields
def A(i):
    return lambda e, a: a[i]


def F(i, *path):
    """F(i, 'field') or F(i, 'ptr field', 'struct', 'field')"""
    def f(e, a):
        p, s = a[i], e.client.struct(i)
        path_ = list(path)
        while len(path_) > 1:
            p = ef(e, p, s, path_[0])
            e.need.append(p)
            s = path_[1]
            path_ = path_[2:]
        return ef(e, p, s, path_[0])
    return f


def N(n):
    return lambda e, a: K(const(n) if isinstance(n, str) else n)


def plus(x, y, k=1):
    return lambda e, a: ladd(x(e, a), lscale(y(e, a), k))


class Cond:
    """one condition: how it is violated, how it is met, and the error documented"""

    def __init__(self, what, code, wrong, right):
        self.what, self.code, self.wrong, self.right = what, code, wrong, right


def differ(what, code, x, y):
    return Cond(what, code, lambda e, st, a: e.add_ne(st, lsub(x(e, a), y(e, a))), lambda e, st, a: e.add_eq(st, lsub(x(e, a), y(e, a))))


def same(what, code, x, y):
    c = differ(what, code, x, y)
    return Cond(what, code, c.right, c.wrong)


def above(what, code, x, y):
    return Cond(what, code, lambda e, st, a: e.add_ge(st, lsub(lsub(x(e, a), y(e, a)), ONE)), lambda e, st, a: e.add_ge(st, lsub(y(e, a), x(e, a))))


def below(what, code, x, y):
    return above(what, code, y, x)


def other(what, code, x, ys):
    def wrong(e, st, a):
        for y in ys:
            e.add_ne(st, lsub(x(e, a), y(e, a)))
    return Cond(what, code, wrong, lambda e, st, a: e.add_eq(st, lsub(x(e, a), ys[0](e, a))))


def flag(what, code, i, field, bad, good):
    def setit(v):
        def f(e, st, a):
            c17.setbit(e, st, a[i], field, v)
        return f
    return Cond(what, code, setit(bad), setit(good))


ROWS = {}


def row(name, *conds):
    ROWS[name] = conds


LEN, STATE, PARAM, NA = 'INVALID_LENGTH', 'INVALID_STATE', 'INVALID_PARAM', 'NOT_APPLICABLE'
MAXP = 65535


def keylen(i, field, what=None, o=0):
    return differ('a wrong %s' % (what or field), LEN, A(i), F(o, field))


row('noise_cipherstate_init_key', keylen(2, 'key_len'))
row('noise_cipherstate_encrypt_with_ad',
    above('a plaintext longer than its buffer', LEN, F(3, 'size'), F(3, 'max_size')),
    Cond('no room for the MAC', LEN, lambda e, st, a: (e.add_ge(st, lsub(lsub(ladd(F(3, 'size')(e, a), F(0, 'mac_len')(e, a)), F(3, 'max_size')(e, a)), ONE)),
                                                         e.add_ne(st, F(0, 'has_key')(e, a)), e.add_ge(st, F(3, 'max_size')(e, a))),
         lambda e, st, a: e.add_ge(st, lsub(F(3, 'max_size')(e, a), ladd(F(3, 'size')(e, a), F(0, 'mac_len')(e, a))))),
    Cond('a message over the limit', LEN, lambda e, st, a: (e.add_ge(st, lsub(ladd(F(3, 'size')(e, a), F(0, 'mac_len')(e, a)), K(MAXP + 1))), e.add_ne(st, F(0, 'has_key')(e, a))),
         lambda e, st, a: e.add_ge(st, lsub(K(MAXP), ladd(F(3, 'size')(e, a), F(0, 'mac_len')(e, a))))))
row('noise_cipherstate_encrypt_with_ad#nokey',
    Cond('a message over the limit without a key', LEN, lambda e, st, a: (e.add_eq(st, F(0, 'has_key')(e, a)), e.add_ge(st, lsub(F(3, 'size')(e, a), K(MAXP + 1)))),
         lambda e, st, a: None))
row('noise_cipherstate_decrypt_with_ad',
    above('a ciphertext longer than its buffer', LEN, F(3, 'size'), F(3, 'max_size')),
    above('a ciphertext over the limit', LEN, F(3, 'size'), N(MAXP)),
    Cond('a ciphertext without a MAC', LEN, lambda e, st, a: (e.add_ge(st, lsub(lsub(F(0, 'mac_len')(e, a), F(3, 'size')(e, a)), ONE)), e.add_ne(st, F(0, 'has_key')(e, a))),
         lambda e, st, a: e.add_ge(st, lsub(F(3, 'size')(e, a), F(0, 'mac_len')(e, a)))))
row('noise_cipherstate_set_nonce',
    same('no key', STATE, F(0, 'has_key'), N(0)),
    below('a nonce that was already used', 'INVALID_NONCE', A(1), F(0, 'n')))
row('noise_dhstate_set_keypair', keylen(2, 'private_key_len'), keylen(4, 'public_key_len'))
row('noise_dhstate_set_keypair_private', keylen(2, 'private_key_len'))
row('noise_dhstate_set_public_key', keylen(2, 'public_key_len'))
row('noise_dhstate_get_keypair', keylen(2, 'private_key_len'), keylen(4, 'public_key_len'),
    differ('no key pair', STATE, F(0, 'key_type'), N('NOISE_KEY_TYPE_KEYPAIR')))
row('noise_dhstate_get_public_key', keylen(2, 'public_key_len'))
row('noise_dhstate_set_null_public_key', flag('an algorithm without null key', PARAM, 0, 'nulls_allowed', 0, 1))
row('noise_dhstate_calculate',
    differ('different algorithms', PARAM, F(0, 'dh_id'), F(1, 'dh_id')),
    differ('a wrong shared key length', LEN, A(3), F(0, 'shared_key_len')),
    differ('no private key', 'INVALID_PRIVATE_KEY', F(0, 'key_type'), N('NOISE_KEY_TYPE_KEYPAIR')))
row('noise_dhstate_copy', differ('different algorithms', NA, F(0, 'dh_id'), F(1, 'dh_id')))
row('noise_dhstate_generate_dependent_keypair', differ('different algorithms', PARAM, F(0, 'dh_id'), F(1, 'dh_id')))
row('noise_dhstate_format_fingerprint',
    same('an empty buffer', LEN, A(3), N(0)),
    same('no key', STATE, F(0, 'key_type'), N('NOISE_KEY_TYPE_NO_KEY')))
row('noise_dhstate_set_role', other('an unknown role', PARAM, A(1), [N('NOISE_ROLE_INITIATOR'), N('NOISE_ROLE_RESPONDER'), N(0)]))
row('noise_signstate_set_keypair', keylen(2, 'private_key_len'), keylen(4, 'public_key_len'))
row('noise_signstate_set_keypair_private', keylen(2, 'private_key_len'))
row('noise_signstate_get_keypair', keylen(2, 'private_key_len'), keylen(4, 'public_key_len'),
    differ('no key pair', STATE, F(0, 'key_type'), N('NOISE_KEY_TYPE_KEYPAIR')))
row('noise_signstate_set_public_key', keylen(2, 'public_key_len'))
row('noise_signstate_get_public_key', keylen(2, 'public_key_len'),
    same('no key', STATE, F(0, 'key_type'), N('NOISE_KEY_TYPE_NO_KEY')))
row('noise_signstate_sign', keylen(4, 'signature_len'),
    differ('no private key', 'INVALID_PRIVATE_KEY', F(0, 'key_type'), N('NOISE_KEY_TYPE_KEYPAIR')))
row('noise_signstate_verify', keylen(4, 'signature_len'),
    same('no key', 'INVALID_PUBLIC_KEY', F(0, 'key_type'), N('NOISE_KEY_TYPE_NO_KEY')))
row('noise_signstate_copy', differ('different algorithms', NA, F(0, 'sign_id'), F(1, 'sign_id')))
row('noise_signstate_format_fingerprint',
    same('an empty buffer', LEN, A(3), N(0)),
    same('no key', STATE, F(0, 'key_type'), N('NOISE_KEY_TYPE_NO_KEY')))
row('noise_format_fingerprint',
    same('an empty buffer', LEN, A(2), N(0)),
    other('an unknown fingerprint type', PARAM, A(0), [N('NOISE_FINGERPRINT_BASIC'), N('NOISE_FINGERPRINT_FULL')]),
    below('a buffer too small for the fingerprint', LEN, A(2), N(48)))
row('noise_format_fingerprint#full',
    Cond('a buffer too small for the full fingerprint', LEN, lambda e, st, a: (e.add_eq(st, lsub(a[0], K(const('NOISE_FINGERPRINT_FULL')))), e.add_ge(st, lsub(K(95), a[2]))),
         lambda e, st, a: e.add_ge(st, lsub(a[2], K(96)))))
row('noise_hashstate_finalize', keylen(2, 'hash_len'))
row('noise_hashstate_hash_one', keylen(4, 'hash_len'))
row('noise_hashstate_hash_two', keylen(6, 'hash_len'))
row('noise_hashstate_hkdf', above('a first output longer than a hash', LEN, A(6), F(0, 'hash_len')), above('a second output longer than a hash', LEN, A(8), F(0, 'hash_len')))
row('noise_hashstate_pbkdf2', above('an output over the limit', LEN, A(7), lambda e, a: lscale(F(0, 'hash_len')(e, a), 0xffffffff)))
for n in ('mix_key', 'mix_hash', 'encrypt_and_hash', 'decrypt_and_hash', 'split'):
    row('noise_symmetricstate_' + n, same('a symmetric state already split', STATE, F(0, 'cipher'), N(0)))
ROWS['noise_symmetricstate_encrypt_and_hash'] += (
    above('a plaintext longer than its buffer', LEN, F(1, 'size'), F(1, 'max_size')),
    Cond('no room for the MAC', LEN,
         lambda e, st, a: (e.add_ge(st, lsub(lsub(ladd(F(1, 'size')(e, a), F(0, 'cipher', CS, 'mac_len')(e, a)), F(1, 'max_size')(e, a)), ONE)),
                           e.add_ne(st, F(0, 'cipher', CS, 'has_key')(e, a))),
         lambda e, st, a: e.add_ge(st, lsub(F(1, 'max_size')(e, a), ladd(F(1, 'size')(e, a), F(0, 'cipher', CS, 'mac_len')(e, a))))))
ROWS['noise_symmetricstate_decrypt_and_hash'] += (
    above('a ciphertext longer than its buffer', LEN, F(1, 'size'), F(1, 'max_size')),
    Cond('a ciphertext without a MAC', LEN,
         lambda e, st, a: (e.add_ge(st, lsub(lsub(F(0, 'cipher', CS, 'mac_len')(e, a), F(1, 'size')(e, a)), ONE)),
                           e.add_ne(st, F(0, 'cipher', CS, 'has_key')(e, a))),
         lambda e, st, a: e.add_ge(st, lsub(F(1, 'size')(e, a), F(0, 'cipher', CS, 'mac_len')(e, a)))),
    above('a ciphertext over the limit', LEN, F(1, 'size'), N(MAXP)))
row('noise_handshakestate_new_by_id', other('an unknown role', PARAM, A(2), [N('NOISE_ROLE_INITIATOR'), N('NOISE_ROLE_RESPONDER')]))
row('noise_handshakestate_new_by_name', other('an unknown role', PARAM, A(2), [N('NOISE_ROLE_INITIATOR'), N('NOISE_ROLE_RESPONDER')]))
started = differ('a handshake already started', STATE, F(0, 'action'), N('NOISE_ACTION_NONE'))
row('noise_handshakestate_set_pre_shared_key',
    differ('a wrong key length', LEN, A(2), N('NOISE_PSK_LEN')),
    Cond('a protocol without pre-shared key', NA, lambda e, st, a: e.add_ne(st, lsub(prefix(e, a), K(const('NOISE_PREFIX_PSK')))),
         lambda e, st, a: e.add_eq(st, lsub(prefix(e, a), K(const('NOISE_PREFIX_PSK'))))), started)
row('noise_handshakestate_set_prologue', started)
row('noise_handshakestate_start', started)
row('noise_handshakestate_write_message', differ('a handshake not ready to write', STATE, F(0, 'action'), N('NOISE_ACTION_WRITE_MESSAGE')))
row('noise_handshakestate_read_message', above('a message longer than its buffer', LEN, F(1, 'size'), F(1, 'max_size')),
    differ('a handshake not ready to read', STATE, F(0, 'action'), N('NOISE_ACTION_READ_MESSAGE')))
row('noise_handshakestate_split', differ('a handshake not ready to split', STATE, F(0, 'action'), N('NOISE_ACTION_SPLIT')))
row('noise_handshakestate_get_handshake_hash',
    other('an unfinished handshake', STATE, F(0, 'action'), [N('NOISE_ACTION_SPLIT'), N('NOISE_ACTION_COMPLETE')]))


def prefix(e, a):
    sym = ef(e, a[0], HS, 'symmetric')
    off, size = finfo(e.prog, 'NoiseProtocolId', 'prefix_id')[:2]
    b, o = e.base(sym)
    k = finfo(e.prog, SY, 'id')[0] + off
    y = e.newsym(('lazy', b, o[0] + k, size, 'int', ()), e.lazyname(b, o[0] + k), 'int', 8 * size)
    return (0, ((y.id, 1),))


# ---- stored lengths
def pairs(prog):
    """{struct: [(pointer field, length field)]} of blocks an object owns"""
    out = {HS: [('prologue', 'prologue_len')]}
    for s, fs in prog.fieldnames.items():
        names = set(fs.values())
        for n in names:
            if n.endswith('_size_') and n[:-6] in names:
                out.setdefault(s, []).append((n[:-6], n))
    return out


class Stored:
    def __init__(self, fn, lib, prs):
        self.fn, self.lib, self.prs = fn, lib, prs
        self.field = {}
        for s, ps in prs.items():
            for p, n in ps:
                self.field[(s, p)] = self.field[(s, n)] = (s, p, n)
        self.ob = 0

    def setup(self, eng, st, args):
        self.args = args
        for i, (t, _) in enumerate(self.fn.params):
            if t == ('int', 64):
                eng.add_ge(st, lsub(K(1 << 62), args[i]))
        return st

    def touch(self, st, b, off):
        if b is None or not isconst(off):
            return None
        f = self.field.get(self.eng.fieldof.get((b, off[0])))
        if f is None:
            return None
        s, p, n = f
        fld = self.eng.fieldof[(b, off[0])][1]
        base = off[0] - finfo(self.eng.prog, s, fld)[0]
        st.g['touch'] = st.g.get('touch', frozenset()) | {(b, base, s, p, n)}
        return fld, s, p, n, base

    def on_store(self, st, b, off, size, val, inst, fn):
        if inst is None or inst.op != 'call':
            self.touch(st, b, off)

    def on_clobber(self, st, b, off, length, why):
        if not getattr(why, 'name', '').startswith('noise_protobuf_read_alloc_'):
            self.touch(st, b, off)

    def on_call(self, st, c):
        if not c.name.startswith('noise_protobuf_read_alloc_'):
            return
        got = []
        for k in (2, 4):
            b, off = self.eng.base(self.eng.norm(st, c.args[k]))
            t = self.touch(st, b, off)
            got.append((b,) + t[1:] if t else None)     # (object, structure, data field, length field, base)
        self.ob += 1
        st.g['touch'] = frozenset(t for t in st.g.get('touch', ()) if t not in [(g[0], g[4]) + g[1:4] for g in got if g])     # set together by the call
        if got[0] != got[1]:
            self.eng.report(st, 'stored-length', c.fn, c.inst, 'data is read into one field and its length into another')

    def on_copy(self, st, db, doff, sb, soff, length):
        if db is not None:
            st.g['cp'] = st.g.get('cp', frozenset()) | {(db, doff, sb, soff, length)}

    def on_free(self, st, p, c):
        b, off = self.eng.base(self.eng.norm(st, p))
        st.g['touch'] = frozenset(t for t in st.g.get('touch', ()) if t[0] != b)

    def bad(self, st, m):
        self.eng.report(st, 'stored-length', self.fn, None, m)

    def on_return(self, st, v, fn):
        eng = self.eng
        if self.fn.name == 'noise_handshakestate_set_pre_shared_key':
            if isinstance(v, tuple) and eng.prove_ne(st, v):
                return
            self.ob += 1
            n = gf(eng, st, self.args[0], HS, 'pre_shared_key_len')
            b, off = eng.base(ladd(self.args[0], K(finfo(eng.prog, HS, 'pre_shared_key')[0])))
            sb, so = eng.base(self.args[1])
            if n is None or not eng.prove_eq(st, n, self.args[2]):
                self.bad(st, 'the stored length of the pre-shared key is not the length given')
            if not any(x[0] == b and x[2] == sb and eng.prove_eq(st, x[1], off) and eng.prove_eq(st, x[3], so) and eng.prove_eq(st, x[4], self.args[2]) for x in st.g.get('cp', ())):
                self.bad(st, 'the pre-shared key is not stored as given')
            return
        for b, base, s, p, n in sorted(st.g.get('touch', ())):
            o = (base, ((b, 1),))
            self.ob += 1
            pv, nv = gf(eng, st, o, s, p), gf(eng, st, o, s, n)
            p0, n0 = ef(eng, o, s, p), ef(eng, o, s, n)
            if pv is None or nv is None:
                self.bad(st, '%s and %s cannot be related' % (p, n))
                continue
            if eng.decide(st, Pred('eq', pv)) is True:
                if not eng.prove_eq(st, nv):
                    self.bad(st, '%s is null but %s is not zero' % (p, n))
                continue
            if eng.prove_eq(st, pv, p0):
                if not eng.prove_eq(st, nv, n0):
                    self.bad(st, '%s changes while %s stays' % (n, p))
                continue
            hb, ho = eng.base(pv)
            y = eng.syms[hb] if hb is not None else None
            if y is None or y.rkind != 'heap' or y.size is None or not eng.prove_eq(st, ho):
                self.bad(st, '%s may be stored with a length that is not that of its block' % p)
                continue
            if not any(eng.prove_eq(st, y.size, ladd(nv, K(k))) for k in (0, 1)):
                self.bad(st, 'the block in %s does not have the length in %s' % (p, n))
        if self.setter() and not (isinstance(v, tuple) and eng.prove_ne(st, v)):
            s, p, n = self.target()
            self.ob += 1
            pv, nv = gf(eng, st, self.args[0], s, p), gf(eng, st, self.args[0], s, n)
            sb, so = eng.base(self.args[1])
            hb, ho = eng.base(pv)
            if not eng.prove_eq(st, nv, self.args[2]):
                self.bad(st, '%s is not the length given' % n)
            elif not eng.prove_eq(st, nv) and not any(x[0] == hb and x[2] == sb and eng.prove_eq(st, x[1], ho) and eng.prove_eq(st, x[3], so) and eng.prove_eq(st, x[4], self.args[2])
                                                        for x in st.g.get('cp', ())):
                self.bad(st, '%s is not filled with the data given' % p)

    def target(self):
        t = self.fn.module.param_types(self.fn)[1][0]
        name = self.fn.name.split('_set_')[1]
        for s in (t, t + '_s'):
            for p, n in self.prs.get(s, ()):
                if p == name:
                    return s, p, n
        raise Broken('%s: no field %s' % (self.fn.name, name))

    def setter(self):
        return '_set_' in self.fn.name and len(self.fn.params) == 3 and self.fn.params[2][0] == ('int', 64)


class Alloc:
    """the functions that read a block and its length from a protobuf"""

    def __init__(self, fn):
        self.fn = fn
        self.ob = self.good = 0

    def setup(self, eng, st, args):
        self.args = args
        eng.add_ne(st, args[2])
        eng.add_ne(st, args[4])
        return st

    def on_copy(self, st, db, doff, sb, soff, length):
        if db is not None and self.eng.syms[db].rkind == 'heap':
            st.g['cp'] = st.g.get('cp', frozenset()) | {(db, doff, length)}

    def on_return(self, st, v, fn):
        eng = self.eng

        def cell(i):
            b, off = eng.base(self.args[i])
            return eng.norm(st, eng.load_cell(st, b, off, 8, i == 2, 64, None))
        p, n = cell(2), cell(4)
        self.ob += 1
        if isinstance(v, tuple) and eng.prove_ne(st, v):
            if not eng.prove_eq(st, p) or not eng.prove_eq(st, n):
                eng.report(st, 'stored-length', fn, None, 'a failure leaves the data pointer or the length set')
            return
        self.good += 1
        b, off = eng.base(p)
        y = eng.syms[b] if b is not None else None
        if y is None or y.rkind != 'heap' or y.size is None or not eng.prove_eq(st, off):
            eng.report(st, 'stored-length', fn, None, 'the data returned is not a new block')
        elif not any(eng.prove_eq(st, y.size, ladd(n, K(k))) for k in (0, 1)):
            eng.report(st, 'stored-length', fn, None, 'the block returned does not have the length returned')
        elif not eng.prove_eq(st, n) and not any(x[0] == b and eng.prove_eq(st, x[1]) and eng.prove_eq(st, x[2], n) for x in st.g.get('cp', ())):
            eng.report(st, 'stored-length', fn, None, 'the block returned is not filled over the length returned')


def alloc_job(item):
    lib, n = item
    f = lib.prog.ext[n]
    c = Alloc(f)
    e = lib.engine([c])
    e.run(f, c.setup)
    r = engine_result(e, lambda rep: '%s:%s %s' % (f.module.name.split('/')[-1], n, rep.msg), lib.prog.config)
    r.count('obligations', c.ob)
    if not c.good:
        raise Broken('%s never succeeds' % n)
    r.count('length_functions')
    return r


def length_job(item):
    lib, n, prs = item
    f = lib.prog.ext[n]
    c = Stored(f, lib, prs)
    e = lib.engine([c])
    e.run(f, c.setup)
    r = engine_result(e, lambda rep: '%s:%s %s' % (f.module.name.split('/')[-1], n, rep.msg), lib.prog.config)
    r.count('obligations', c.ob)
    if c.ob:
        r.count('length_functions')
    return r


def touches(f, prs):
    """does this function take or return an object with stored lengths"""
    ts = [t[0] for t in f.module.param_types(f) if t[0]]
    return any(t in prs or t + '_s' in prs for t in ts)


class Wrong(NullArg):
    """one condition violated"""

    def __init__(self, fn, lib, conds, k, loose):
        super().__init__(fn, 0, 'opt', lib, None)
        self.conds, self.k, self.loose = conds, k, loose
        self.good = 0

    def struct(self, i):
        t = self.pts[i][0]
        return t + '_s' if t in ('NoiseCipherState', 'NoiseDHState', 'NoiseSignState', 'NoiseHashState', 'NoiseSymmetricState', 'NoiseHandshakeState') else t

    def setup(self, eng, st, args):
        self.eng = eng
        eng.client = self
        eng.need = []
        self.args = args
        for i, (t, _) in enumerate(self.fn.params):
            if t[0] == 'ptr':
                eng.add_ne(st, args[i])
                if self.pts[i][0] == 'NoiseBuffer':
                    eng.add_ne(st, ef(eng, args[i], 'NoiseBuffer', 'data'))
            elif t == ('int', 64):
                eng.add_ge(st, lsub(K(1 << 62), args[i]))
        for i in range(len(self.pts)):
            if self.struct(i) == DH:
                eng.add_ge(st, lsub(K(0x7fff), ef(eng, args[i], DH, 'dh_id')))     # algorithm identifiers are positive
        mac = [F(i, 'mac_len') for i in range(len(self.pts)) if self.struct(i) == CS] + [F(i, 'cipher', CS, 'mac_len') for i in range(len(self.pts)) if self.struct(i) == SY]
        for m in mac:
            eng.add_eq(st, lsub(m(eng, args), K(16)))
        for j, c in enumerate(self.conds):
            if j == self.k:
                c.wrong(eng, st, args)
            elif not self.loose:
                c.right(eng, st, args)
        for p in eng.need:
            if not (self.k is not None and self.conds[self.k].what == 'a symmetric state already split'):
                eng.add_ne(st, p)
        for i, (t, _) in enumerate(self.fn.params):
            if self.struct(i) == HS:
                eng.add_ne(st, ef(eng, args[i], HS, 'symmetric'))
        return st

    def nulled(self, b, off, val):
        if isinstance(val, tuple) and isconst(val) and val[0] == 0:
            if isconst(off) and self.eng.fieldof.get((b, off[0])) == ('NoiseBuffer', 'size'):
                return self.fn.name in ('noise_handshakestate_write_message', 'noise_handshakestate_read_message')
        return NullArg.nulled(self, b, off, val)

    def on_return(self, st, v, fn):
        eng = self.eng
        if self.k is None:
            if isinstance(v, tuple) and eng.prove_ne(st, v):
                return
            self.good += 1
            return
        c = self.conds[self.k]
        self.ob += 1
        if st.g.get('eff'):
            self.bad(st, 'no-effect', '%s although the call is refused for %s' % (st.g['eff'], c.what))
        if isinstance(v, Pred):
            d = eng.decide(st, v)
            v = K(1 if d else 0) if d is not None else None
        if v is None or self.loose and not eng.prove_ne(st, v):
            self.bad(st, 'still-refused', '%s may be accepted' % c.what)
        elif not self.loose and not eng.prove_eq(st, v, K(self.codes['NOISE_ERROR_' + c.code])):
            n = [k for k, x in self.codes.items() if eng.prove_eq(st, v, K(x))]
            self.bad(st, 'documented-error', '%s is answered with %s instead of NOISE_ERROR_%s' % (c.what, n[0] if n else 'an undetermined result', c.code))


class Refused(Wrong):
    """a key that is refused for any other reason"""

    def __init__(self, fn, lib):
        super().__init__(fn, lib, [], None, True)
        self.fails = 0

    def on_call(self, st, c):
        pass            # checking the key is what the backend operations are for

    def on_return(self, st, v, fn):
        eng = self.eng
        if not isinstance(v, tuple) or eng.prove_eq(st, v):
            self.good += 1
            return
        self.ob += 1
        self.fails += 1
        if st.g.get('eff') and not eng.prove_eq(st, gf(eng, st, self.args[0], SG, 'key_type'), K(const('NOISE_KEY_TYPE_NO_KEY'))):
            self.bad(st, 'refused-key', '%s although the key may be refused' % st.g['eff'])


def refused_job(item):
    lib, n = item
    f = lib.prog.ext.get(n)
    if f is None:
        raise Broken('anchor vanished: %s' % n)
    c = Refused(f, lib)
    e = lib.engine([c], inline=['noise_signstate_clear_key'])
    e.models.pop('noise_signstate_clear_key', None)
    e.run(f, c.setup)
    r = engine_result(e, lambda rep: '%s:%s %s' % (f.module.name.split('/')[-1], n, rep.rule), lib.prog.config)
    r.count('obligations', c.ob)
    if not c.fails or not c.good:
        raise Broken('%s never %s' % (n, 'succeeds' if c.fails else 'fails'))
    return r


def job(item):
    lib, n, k, loose = item
    f = lib.prog.ext[n.split('#')[0]]
    c = Wrong(f, lib, ROWS[n], k, loose)
    inl = [m for m in ROWS if m.split('_')[1] in ('cipherstate', 'dhstate', 'signstate')] if k is not None else []
    e = lib.engine([c], inline=inl)
    for m in inl:
        e.models.pop(m, None)
    e.run(f, c.setup)
    r = engine_result(e, lambda rep: '%s:%s %s %s' % (f.module.name.split('/')[-1], n, rep.rule, ROWS[n][k].what if k is not None else ''), lib.prog.config)
    if k is None:
        if not c.good:
            raise Broken('%s never succeeds' % n)
    else:
        r.count('obligations', c.ob)
        if not c.ob:
            raise Broken('%s: %s never happens' % (n, ROWS[n][k].what))
        if not loose:
            r.count('conditions')
    return r


def check(ctx):
    lib = ctx.lib('ref')
    jobs = []
    for n, cs in ROWS.items():
        if n.split('#')[0] not in lib.prog.ext:
            raise Broken('anchor vanished: %s' % n)
        ctx.count('functions')
        for k in [None] + list(range(len(cs))):
            jobs.append((lib, n, k, False))
            if k is not None:
                jobs.append((lib, n, k, True))
    ctx.pmap(job, jobs)
    ctx.pmap(refused_job, [(lib, 'noise_signstate_' + n) for n in ('set_keypair', 'set_keypair_private', 'set_public_key')])
    ctx.pmap(alloc_job, [(lib, n) for n in ('noise_protobuf_read_alloc_string', 'noise_protobuf_read_alloc_bytes')])
    prs = pairs(lib.prog)
    names = [n for n in public.functions() if n in lib.prog.ext and touches(lib.prog.ext[n], prs)]
    ctx.pmap(length_job, [(lib, n, prs) for n in names])
