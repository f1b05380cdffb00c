"""Shared machinery of the handshake rules: interprets the write or read of one handshake message for a concrete token
string and compares the events on every successful path with what the Noise specification assigns to the tokens."""
from .absint import *
from . import clients, errcodes, noisespec
from .clients import show
from .libmodels import gf, ef, finfo
from .run import Broken

HS, SS, DHS, NB = 'NoiseHandshakeState_s', 'NoiseSymmetricState_s', 'NoiseDHState_s', 'NoiseBuffer'
S_ = 'noise_symmetricstate_'
CORE = {S_ + 'mix_hash': 'hash', S_ + 'mix_key': 'key', S_ + 'encrypt_and_hash': 'enc', S_ + 'decrypt_and_hash': 'dec',
        'noise_dhstate_calculate': 'dh', 'slot:' + DHS + '.calculate': 'dh'}
D_ = 'noise_dhstate_'
KEYOPS = {D_ + 'generate_keypair', D_ + 'generate_dependent_keypair', 'slot:' + DHS + '.generate_keypair', 'slot:' + DHS + '.copy',
          D_ + 'copy', D_ + 'set_public_key', D_ + 'set_keypair', D_ + 'set_keypair_private', D_ + 'set_null_public_key', D_ + 'clear_key',
          D_ + 'set_role', D_ + 'get_public_key', D_ + 'is_null_public_key', 'noise_is_zero'}
# operations on the symmetric state that no token calls for
FORBIDDEN_PREFIX = ('noise_hashstate_', 'noise_cipherstate_', 'slot:NoiseCipherState_s', 'slot:NoiseHashState_s', S_)
NEUTRAL = ('_get_', '_has_', '_is_', '_needs_')
KEYNAME = {('e', True): 'dh_local_ephemeral', ('s', True): 'dh_local_static', ('f', True): 'dh_local_hybrid',
           ('e', False): 'dh_remote_ephemeral', ('s', False): 'dh_remote_static', ('f', False): 'dh_remote_hybrid'}
_c = None


def const(n):
    global _c
    if _c is None:
        _c = errcodes.constants('NOISE_')
    if n not in _c:
        raise Broken('anchor vanished: constant %s' % n)
    return _c[n]


def param(eng, fn, i):
    t, n = fn.params[i]
    y = eng.newsym(('param', fn.name, i), n, 'ptr' if t[0] == 'ptr' else 'int', 64 if t[0] == 'ptr' else t[1])
    return (0, ((y.id, 1),))


def tokens_region(eng, st, toks, flip):
    b = []
    for t in toks:
        b.append(const('NOISE_TOKEN_' + t.upper()))
    if flip:
        b.append(const('NOISE_TOKEN_FLIP_DIR'))
    b.append(const('NOISE_TOKEN_END'))
    y = eng.newsym(None, '@tokens', 'ptr', 64, 1, U64, origin=('spec',))
    y.rkind = 'global'

    class G:
        const = True
        image = bytes(b)
        size = len(b)
        relocs = {}
        name = '@tokens'
    y.extra = G
    y.size = K(len(b))
    y.nonnull = True
    r = Region()
    for i, v in enumerate(b):
        r.cells[(i, 1)] = K(v)
    st.mem[y.id] = r
    return (0, ((y.id, 1),))


class Message(clients.ErrFork):
    """one call of write_message / read_message with `toks`; flip: another message follows"""

    def __init__(self, fn, write, toks, flip, role, initiator, psk=None, fixed=None, haskey=None):
        super().__init__()
        self.psk, self.fixed, self.haskey = psk, fixed, haskey
        self.fn, self.write, self.toks, self.flip, self.role = fn, write, toks, flip, role
        self.initiator = initiator
        self.ob = 0
        self.ok = 0
        self.ops = 0

    def setup(self, eng, st, args):
        self.state, self.msg, self.pay = args[:3]
        st.g['ev'] = ()
        eng.add_ne(st, args[0])
        self.tok = tokens_region(eng, st, self.toks, self.flip)
        from .libmodels import sf
        sf(eng, st, self.state, HS, 'tokens', self.tok)
        sf(eng, st, self.state, HS, 'role', K(self.role))
        self.sym = ef(eng, self.state, HS, 'symmetric')
        self.mdata = ef(eng, self.msg, NB, 'data')
        self.mbase = eng.base(self.mdata)[0]
        self.msize = ef(eng, self.msg, NB, 'size')
        self.pdata = ef(eng, self.pay, NB, 'data')
        self.pbase = eng.base(self.pdata)[0]
        self.psize = ef(eng, self.pay, NB, 'size')
        self.keys = {k: ef(eng, self.state, HS, n) for k, n in KEYNAME.items()}
        o = eng.prog.fieldinfo[SS]['id'][0] + eng.prog.fieldinfo['NoiseProtocolId']['prefix_id'][0]
        sb = eng.base(self.sym)[0]
        y = eng.newsym(('lazy', sb, o, 4, 'int', ()), 'symmetric->id.prefix_id', 'int', 32)
        self.prefix = (0, ((y.id, 1),))
        eng.unroll_width = 100
        if self.psk is not None:
            d = lsub(self.prefix, K(const('NOISE_PREFIX_PSK')))
            (eng.add_eq if self.psk else eng.add_ne)(st, d)
        ci = ef(eng, self.sym, SS, 'cipher')
        eng.add_ne(st, self.sym)
        eng.add_ne(st, ci)
        eng.add_ne(st, self.msg)
        if self.haskey is not None:
            hk = ef(eng, ci, 'NoiseCipherState_s', 'has_key')
            (eng.add_ne if self.haskey else eng.add_eq)(st, hk)
        for t in self.toks:
            for n in ([(t, True), (t, False)] if t == 'f' else [(t, self.write)] if t in ('e', 's') else
                      [(noisespec.DH[t][0], self.initiator), (noisespec.DH[t][1], not self.initiator)]):
                eng.add_ne(st, self.keys[n])
                eng.add_ne(st, ef(eng, self.keys[n], DHS, 'public_key'))
        if self.fixed is not None:
            for n in ('dh_fixed_ephemeral', 'dh_fixed_hybrid'):
                (eng.add_ne if self.fixed else eng.add_eq)(st, ef(eng, self.state, HS, n))
        return st

    # ---- recording
    def rec(self, st, *e):
        st.g['ev'] = st.g['ev'] + (e,)

    def on_call(self, st, c):
        c.pre = None
        if CORE.get(c.name) in ('enc', 'dec'):
            b = c.args[1]
            ci = gf(self.eng, st, self.sym, SS, 'cipher')
            hk = gf(self.eng, st, ci, 'NoiseCipherState_s', 'has_key')
            d = self.eng.decide(st, Pred('eq', hk)) if hk is not None else None
            ml = ZERO if d is True else gf(self.eng, st, ci, 'NoiseCipherState_s', 'mac_len') if d is False else None
            ln = tuple((k, gf(self.eng, st, d, DHS, 'public_key_len')) for k, d in self.keys.items() if k[0] in ('s', 'f'))
            c.pre = (gf(self.eng, st, b, NB, 'data'), gf(self.eng, st, b, NB, 'size'), ml, ln)

    def on_copy(self, st, db, doff, sb, soff, length):
        if 'ev' in st.g and db is not None and sb is not None:
            self.rec(st, 'copy', ladd((0, ((db, 1),)), doff), ladd((0, ((sb, 1),)), soff), length)

    def on_call_done(self, st, c, ret):
        n = c.name
        res = super().on_call_done(st, c, ret)
        if n == 'noise_is_zero' or n == D_ + 'is_null_public_key':
            res = [(s, ret) for s, tv in self.eng.split(st, Pred('eq', ret))]
        w = self.eng.where(c.fn, c.inst)
        k = CORE.get(n)
        if k is None and n not in KEYOPS and not (n.startswith(FORBIDDEN_PREFIX) and not any(x in n for x in NEUTRAL)):
            return res
        for s, r in (res if res is not None else [(st, ret)]):
            post = None
            if k in ('enc', 'dec'):
                post = gf(self.eng, s, c.args[1], NB, 'size')
            self.rec(s, k or 'op', n, tuple(self.eng.norm(s, a) for a in c.args), r, c.pre, post, w)
        return res

    # ---- judging
    def on_return(self, st, v, fn):
        eng = self.eng
        for s, tv in eng.split(st, Pred('eq', v)):
            self.ob += 1
            a1 = gf(eng, s, self.state, HS, 'action') if eng.decide(s, Pred('eq', self.state)) is not True else None
            self.on_outcome(s, tv, a1, fn)

    def on_outcome(self, st, ok, action, fn):
        pass


class TokenSpec:
    """walks the events of one successful path"""

    def __init__(self, m, st, fn):
        self.m, self.st, self.fn, self.eng = m, st, fn, m.eng
        self.ev = st.g['ev']
        self.i = 0
        self.fail = None

    def eq(self, a, b):
        return a is not None and b is not None and self.eng.prove_eq(self.st, a, b)

    def core(self):
        """index of the next core event"""
        while self.i < len(self.ev) and self.ev[self.i][0] in ('copy', 'op'):
            self.i += 1
        return self.ev[self.i] if self.i < len(self.ev) else None

    def bad(self, msg, e=None):
        if self.fail is None:
            self.fail = msg + (' (at %s)' % e[6] if e is not None and len(e) > 6 else '')
        return False

    def pk(self, key):
        dh = self.m.keys[key]
        return ef(self.eng, dh, DHS, 'public_key'), ef(self.eng, dh, DHS, 'public_key_len')

    def copied(self, lo, hi, dst, src, n):
        """was n bytes of src copied to dst in events lo..hi"""
        for e in self.ev[lo:hi]:
            if e[0] == 'copy' and self.eq(e[1], dst) and self.eq(e[2], src) and self.eq(e[3], n):
                return True
            if e[0] == 'op' and e[1] == D_ + 'get_public_key' and self.eq(e[2][1], dst) and self.eq(ef(self.eng, e[2][0], DHS, 'public_key'), src) and self.eq(e[2][2], n):
                return True
        return self.eng.prove_eq(self.st, n)

    def find_op(self, lo, hi, pred):
        for j in range(lo, hi):
            e = self.ev[j]
            if e[0] == 'op' and pred(e):
                return j
        return None

    def generated(self, lo, hi, k):
        local, remote = self.m.keys[(k, True)], self.m.keys[(k, False)]
        fixed = ef(self.eng, self.m.state, HS, 'dh_fixed_ephemeral' if k == 'e' else 'dh_fixed_hybrid')

        def pred(e):
            n, a = e[1], e[2]
            if n == D_ + 'generate_dependent_keypair' or n == 'slot:' + DHS + '.generate_keypair':
                return self.eq(a[0], local) and self.eq(a[1], remote)
            if n == 'slot:' + DHS + '.copy':
                return self.eq(a[0], local) and self.eq(a[1], fixed) and self.eq(a[2], remote) and self.eng.prove_ne(self.st, fixed)
            return False
        return self.find_op(lo, hi, pred)

    def hash_of(self, what, places, n, e):
        if e is None or e[0] != 'hash':
            return self.bad('%s is not mixed into the transcript hash at its place' % what, e)
        if not any(self.eq(e[2][1], p) for p in places) or not self.eq(e[2][2], n) or not self.eq(e[2][0], self.m.sym):
            return self.bad('the data mixed into the transcript hash is not exactly %s' % what, e)
        return True

    def psk_mix(self, what, places, n):
        psk = K(const('NOISE_PREFIX_PSK'))
        d = self.eng.decide(self.st, Pred('eq', lsub(self.m.prefix, psk)))
        j = self.i
        e = self.core()
        has = (e is not None and e[0] == 'key')
        # a mix_key that directly follows belongs to this token: DH tokens calculate first
        if has:
            if d is not True:
                return self.bad('%s is mixed into the chaining key although the handshake may not use a pre-shared key' % what, e)
            if not any(self.eq(e[2][1], p) for p in places) or not self.eq(e[2][2], n) or not self.eq(e[2][0], self.m.sym):
                return self.bad('the data mixed into the chaining key is not exactly %s' % what, e)
            self.i += 1
        elif d is not False:
            return self.bad('%s is not mixed into the chaining key of a pre-shared key handshake' % what)
        else:
            self.i = j
        return True

    def run(self):
        m, eng = self.m, self.eng
        base = m.mdata
        c = ZERO
        sizeleft = None
        for t in m.toks:
            lo = self.i
            m.ops += 1
            if t in noisespec.DH:
                ki, kr = noisespec.DH[t]
                mine, theirs = (ki, kr) if m.initiator else (kr, ki)
                e = self.core()
                if e is None or e[0] != 'dh':
                    return self.bad('token "%s": no key exchange is computed at its place' % t, e)
                priv, pub = e[2][0], e[2][1]
                if not self.eq(priv, m.keys[(mine, True)]) or not self.eq(pub, m.keys[(theirs, False)]):
                    return self.bad('token "%s": the key exchange does not use the local %s key and the remote %s key' % (t, mine, theirs), e)
                out = e[2][2]
                n = e[2][3] if len(e[2]) > 3 else ef(eng, priv, DHS, 'shared_key_len')
                if not self.eq(n, ef(eng, priv, DHS, 'shared_key_len')):
                    return self.bad('token "%s": not the whole shared secret is computed' % t, e)
                self.i += 1
                e = self.core()
                if e is None or e[0] != 'key' or not self.eq(e[2][1], out) or not self.eq(e[2][2], n) or not self.eq(e[2][0], m.sym):
                    return self.bad('token "%s": the shared secret is not mixed into the chaining key directly after the key exchange' % t, e)
                self.i += 1
                continue
            dh = m.keys[(t, m.write)]
            p, n = self.pk((t, m.write))
            at = ladd(base, c)
            e = self.core()
            j = self.i
            if t == 'e':
                if m.write:
                    g = self.generated(lo, j, t)
                    if g is None:
                        return self.bad('token "e": no fresh ephemeral key was generated before it was sent', e)
                    if not self.copied(g, len(self.ev), at, p, n):
                        return self.bad('token "e": the ephemeral public key is not placed at the next position of the message', e)
                else:
                    pass
                if not self.hash_of('the ephemeral public key', (at, p), n, e):
                    return False
                self.i += 1
                if not m.write:
                    nxt = self.i
                    k = self.find_op(lo, self.next_core(nxt), lambda e: e[1] == D_ + 'set_public_key' and self.eq(e[2][0], dh) and self.eq(e[2][1], at) and self.eq(e[2][2], n))
                    if k is None:
                        return self.bad('token "e": the received bytes do not become the remote ephemeral key', e)
                if not self.psk_mix('the ephemeral public key', (at, p), n):
                    return False
                c = ladd(c, n)
                continue
            # s and f
            if e is not None and e[0] in ('enc', 'dec'):
                n = dict(e[4][3])[(t, m.write)]
            if t == 'f' and not self.hybrid_role(lo, j, ('f', m.write), ('f', not m.write)):
                return False
            if m.write:
                if t == 'f':
                    g = self.generated(lo, j, t)
                    if g is None:
                        return self.bad('token "f": no fresh hybrid key was generated before it was sent', e)
                if e is None or e[0] != 'enc' or not self.eq(e[2][0], m.sym):
                    return self.bad('token "%s": the public key is not encrypted and hashed at its place' % t, e)
                if not self.eq(e[4][0], at) or not self.eq(e[4][1], n) or not self.copied(lo, j, at, p, n):
                    return self.bad('token "%s": what is encrypted is not exactly the public key at the next position of the message' % t, e)
                self.i += 1
                c = ladd(c, e[5])
            else:
                if e is None or e[0] != 'dec' or not self.eq(e[2][0], m.sym):
                    return self.bad('token "%s": the public key is not decrypted and hashed at its place' % t, e)
                ml = e[4][2]
                if not self.eq(e[4][0], at) or ml is None or not self.eq(e[4][1], ladd(n, ml)):
                    return self.bad('token "%s": what is decrypted is not exactly the encrypted public key at the next position of the message' % t, e)
                self.i += 1
                k = self.find_op(j, self.next_core(self.i), lambda x: x[1] == D_ + 'set_public_key' and self.eq(x[2][0], dh) and self.eq(x[2][1], at) and self.eq(x[2][2], e[5]))
                if k is None:
                    return self.bad('token "%s": the decrypted bytes do not become the remote key' % t, e)
                c = ladd(c, e[4][1])
        # payload
        e = self.core()
        lo = 0
        if e is None or e[0] != ('enc' if m.write else 'dec') or not self.eq(e[2][0], m.sym):
            return self.bad('the payload is not %s and hashed after the last token' % ('encrypted' if m.write else 'decrypted'), e)
        at = ladd(base, c)
        nopay = eng.decide(self.st, Pred('eq', m.pay)) is True
        if m.write:
            n = ZERO if nopay else m.psize
            if not self.eq(e[4][0], at) or not self.eq(e[4][1], n):
                return self.bad('what is encrypted as payload is not exactly the payload at the next position of the message', e)
            if not nopay and not self.copied(0, self.i, at, m.pdata, n):
                return self.bad('the payload is not copied to the message before it is encrypted', e)
            c = ladd(c, e[5])
            if not self.eq(gf(eng, self.st, m.msg, NB, 'size'), c):
                return self.bad('the reported message size is not the number of bytes produced')
        else:
            if not self.eq(e[4][0], at) or not self.eq(e[4][1], lsub(m.msize, c)):
                return self.bad('what is decrypted as payload is not exactly the rest of the message', e)
            if not nopay:
                if not self.copied(self.i, len(self.ev), m.pdata, at, e[5]) or not self.eq(gf(eng, self.st, m.pay, NB, 'size'), e[5]):
                    return self.bad('the caller does not get exactly the decrypted payload')
        self.i += 1
        e = self.core()
        if e is not None:
            return self.bad('an operation on the transcript follows the payload', e)
        for e in self.ev:
            if e[0] == 'op' and e[1].startswith(FORBIDDEN_PREFIX) and not any(x in e[1] for x in NEUTRAL):
                return self.bad('%s is applied although no token calls for it' % e[1], e)
            if e[0] == 'op' and e[1].startswith((D_, 'slot:' + DHS)) and not any(x in e[1] for x in NEUTRAL):
                if not self.allowed(e):
                    return self.bad('%s changes a key that no token of this message touches' % e[1], e)
        return True

    def hybrid_role(self, lo, hi, key, other):
        """the first hybrid key of the exchange is the initiator's, the second the responder's, whoever sends it"""
        j = None
        for i in range(lo, hi):
            e = self.ev[i]
            if e[0] == 'op' and e[1] == D_ + 'set_role' and self.eq(e[2][0], self.m.keys[key]):
                j = i
        if j is None:
            return self.bad('token "f": the hybrid key is not given its role before it is used')
        kt = ef(self.eng, self.m.keys[other], DHS, 'key_type')
        first = self.eng.decide(self.st, Pred('eq', lsub(kt, K(const('NOISE_KEY_TYPE_NO_KEY')))))
        want = None if first is None else const('NOISE_ROLE_INITIATOR' if first else 'NOISE_ROLE_RESPONDER')
        if want is None or not self.eq(self.ev[j][2][1], K(want)):
            return self.bad('token "f": the hybrid key does not get the role that goes with its place in the exchange', self.ev[j])
        return True

    def allowed(self, e):
        m = self.m
        for t in set(m.toks) & {'e', 's', 'f'}:
            if t == 's' and m.write:
                continue
            if self.eq(e[2][0], m.keys[(t, m.write)]):
                return True
        return False

    def next_core(self, i):
        while i < len(self.ev) and self.ev[i][0] in ('copy', 'op'):
            i += 1
        return i


def entry_fn(ctx, lib, write):
    return ctx.fn(lib, 'noise_handshakestate_write_message' if write else 'noise_handshakestate_read_message')
