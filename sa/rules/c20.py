"""C20: every backend object is coherent with its algorithm."""
from ..absint import *
from ..libmodels import gf, sf, ef, finfo
from .. import clients, errcodes, public, slots
from ..handshake import const
from ..run import Result, engine_result, V, Broken

RULES = [
    'description: for every algorithm identifier and build configuration, each object the creation functions return carries that identifier, the lengths the Noise specification gives the algorithm, and every operation',
    'known-ids: exactly the identifiers of the algorithms are accepted; any other one is answered with the unknown-identifier error, nothing is created and the result pointer is null',
    'names: creation by name looks the whole name up in the category of the object and creates by the identifier found, and refuses an unknown name',
    'right-algorithm: the operations installed for an algorithm run the primitives of that algorithm and of no other one of its kind',
    'key-storage: the key pointers of an object lead to separate storage inside the object that holds the lengths it reports, for every role',
    'getters: the length and identifier queries return the stored description, and the maximum queries a bound on all algorithms',
    'fixed: after creation no function changes the description of an object, except that the lengths of NewHope keys follow its role',
    'composition: symmetric and handshake objects create their parts from the identifiers of the protocol',
    'create: the copy a cipher object makes of itself is an object of the same algorithm',
]
EXPLANATION = 'every path of the creation functions with all backend constructors inlined, in the three build configurations, against a transcription of the algorithm parameters of the Noise specification; every function of the library for writes to a description'
MIN = {'algorithms': 20, 'objects': 20, 'obligations': 600, 'functions': 300, 'operations': 70}
ASSUMPTIONS = ['the primitives compute their published functions (C90)']

CS, DH, SG, HA, SY, HS = ('NoiseCipherState_s', 'NoiseDHState_s', 'NoiseSignState_s', 'NoiseHashState_s', 'NoiseSymmetricState_s', 'NoiseHandshakeState_s')

# the Noise specification, sections 12 and 15 of revision 32, RFC 8032, the NewHope and hybrid extensions
SPEC = {
    'cipher': (CS, 'cipher_id', 'NOISE_CIPHER_CATEGORY', {
        'NOISE_CIPHER_CHACHAPOLY': dict(key_len=32, mac_len=16, has_key=0, n=0),
        'NOISE_CIPHER_AESGCM': dict(key_len=32, mac_len=16, has_key=0, n=0)}),
    'hash': (HA, 'hash_id', 'NOISE_HASH_CATEGORY', {
        'NOISE_HASH_BLAKE2s': dict(hash_len=32, block_len=64),
        'NOISE_HASH_BLAKE2b': dict(hash_len=64, block_len=128),
        'NOISE_HASH_SHA256': dict(hash_len=32, block_len=64),
        'NOISE_HASH_SHA512': dict(hash_len=64, block_len=128)}),
    'dh': (DH, 'dh_id', 'NOISE_DH_CATEGORY', {
        'NOISE_DH_CURVE25519': dict(private_key_len=32, public_key_len=32, shared_key_len=32, nulls_allowed=1, ephemeral_only=0, key_type=0, role=0),
        'NOISE_DH_CURVE448': dict(private_key_len=56, public_key_len=56, shared_key_len=56, nulls_allowed=1, ephemeral_only=0, key_type=0, role=0),
        'NOISE_DH_NEWHOPE': dict(private_key_len=64, public_key_len=1824, shared_key_len=32, nulls_allowed=0, ephemeral_only=1, key_type=0, role=0)}),
    'sign': (SG, 'sign_id', 'NOISE_SIGN_CATEGORY', {
        'NOISE_SIGN_ED25519': dict(private_key_len=32, public_key_len=32, signature_len=64, key_type=0)}),
}
# lengths that follow the role (NewHope is asymmetric)
ROLE_LENGTHS = {('NOISE_DH_NEWHOPE', 'NOISE_ROLE_RESPONDER'): (32, 2048), ('NOISE_DH_NEWHOPE', 'NOISE_ROLE_INITIATOR'): (64, 1824), ('NOISE_DH_NEWHOPE', None): (64, 1824)}
OPTIONAL_SLOTS = {'destroy', 'change_role'}
NEEDED_SLOTS = {'NOISE_DH_NEWHOPE': {'change_role'}}
MUTABLE = {'has_key', 'n', 'key_type', 'role'}

# names of the primitives of each algorithm below the backends (any configuration)
FAMILY = {
    'NOISE_CIPHER_CHACHAPOLY': ('chacha', 'poly1305', 'crypto_stream_chacha20', 'crypto_onetimeauth_poly1305', 'crypto_aead_chacha20'),
    'NOISE_CIPHER_AESGCM': ('rijndael', 'ghash', 'crypto_aead_aes256gcm', 'EVP_'),
    'NOISE_HASH_BLAKE2s': ('BLAKE2s',),
    'NOISE_HASH_BLAKE2b': ('BLAKE2b', 'crypto_generichash_blake2b', 'crypto_generichash'),
    'NOISE_HASH_SHA256': ('sha256', 'crypto_hash_sha256'),
    'NOISE_HASH_SHA512': ('sha512', 'crypto_hash_sha512'),
    'NOISE_DH_CURVE25519': ('curved25519', 'curve25519', 'crypto_scalarmult'),
    'NOISE_DH_CURVE448': ('curve448',),
    'NOISE_DH_NEWHOPE': ('newhope',),
    'NOISE_SIGN_ED25519': ('ed25519', 'crypto_sign'),
}
# operations that need no primitive of their own
NO_PRIMITIVE = {'create', 'init_key', 'copy', 'destroy', 'validate_public_key', 'change_role', 'set_keypair'}

GETTERS = {
    'noise_cipherstate_get_cipher_id': (CS, 'cipher_id'), 'noise_cipherstate_get_key_length': (CS, 'key_len'), 'noise_cipherstate_get_mac_length': (CS, 'mac_len'),
    'noise_hashstate_get_hash_id': (HA, 'hash_id'), 'noise_hashstate_get_hash_length': (HA, 'hash_len'), 'noise_hashstate_get_block_length': (HA, 'block_len'),
    'noise_dhstate_get_dh_id': (DH, 'dh_id'), 'noise_dhstate_get_public_key_length': (DH, 'public_key_len'),
    'noise_dhstate_get_private_key_length': (DH, 'private_key_len'), 'noise_dhstate_get_shared_key_length': (DH, 'shared_key_len'),
    'noise_signstate_get_sign_id': (SG, 'sign_id'), 'noise_signstate_get_public_key_length': (SG, 'public_key_len'),
    'noise_signstate_get_private_key_length': (SG, 'private_key_len'), 'noise_signstate_get_signature_length': (SG, 'signature_len'),
}
MAXIMA = {'noise_cipherstate_get_max_key_length': ('cipher', 'key_len'), 'noise_cipherstate_get_max_mac_length': ('cipher', 'mac_len'),
          'noise_hashstate_get_max_hash_length': ('hash', 'hash_len'), 'noise_hashstate_get_max_block_length': ('hash', 'block_len'),
          'noise_signstate_get_max_key_length': ('sign', 'public_key_len'), 'noise_signstate_get_max_signature_length': ('sign', 'signature_len')}


def constructors(lib):
    """functions without arguments that return an object of a backend kind"""
    kinds = {s for s, _, _, _ in SPEC.values()}
    out = []
    for n, g in lib.prog.ext.items():
        t = g.module.param_types(g)[0][0] if not g.params and g.rettype[0] == 'ptr' else None
        if t in kinds or (t or '') + '_s' in kinds:
            out.append(n)
    return out


def slotnames(lib, struct):
    return [n for n, fi in lib.prog.fieldinfo[struct].items() if fi[2] and n not in ('private_key', 'public_key')]


def conc(eng, v):
    return v[0] if isinstance(v, tuple) and isconst(v) else None


class Create(clients.ErrFork):
    """one creation function with one identifier"""

    def __init__(self, lib, fn, kind, alg):
        super().__init__()
        self.lib, self.fn, self.kind, self.alg = lib, fn, kind, alg
        self.struct, self.idf, _, self.algs = SPEC[kind]
        self.ob = 0
        self.objects = []
        self.fns = {}

    def setup(self, eng, st, args):
        self.args = args
        eng.add_ne(st, args[0])
        if self.alg is not None:
            eng.add_eq(st, lsub(args[1], K(const(self.alg))))
        else:
            for a in self.algs:
                eng.add_ne(st, lsub(args[1], K(const(a))))
        return st

    def on_alloc(self, st, id, c):
        if self.alg is None:
            self.bad(st, 'known-ids', 'an object is created for an unknown identifier')

    def bad(self, st, rule, m):
        self.eng.report(st, rule, self.fn, None, '%s: %s' % (self.alg or 'unknown identifier', m))

    def on_return(self, st, v, fn):
        eng = self.eng
        b, off = eng.base(self.args[0])
        p = eng.norm(st, eng.load_cell(st, b, off, 8, True, 64, None))
        self.ob += 1
        null = eng.decide(st, Pred('eq', p))
        if isinstance(v, Pred) or v is None:
            self.bad(st, 'known-ids', 'the result is undetermined')
            return
        codes = errcodes.constants('NOISE_ERROR_')
        if self.alg is None:
            if not eng.prove_eq(st, v, K(codes['NOISE_ERROR_UNKNOWN_ID'])) or null is not True:
                self.bad(st, 'known-ids', 'an unknown identifier is not refused')
            return
        if not eng.prove_eq(st, v):
            if not eng.prove_eq(st, v, K(codes['NOISE_ERROR_NO_MEMORY'])) or null is not True:
                self.bad(st, 'known-ids', 'fails with something other than lack of memory, or leaves a result')
            return
        if null is not False:
            self.bad(st, 'known-ids', 'success without an object')
            return
        describe(self, st, p)

    def checkid(self, st, p):
        pass


def describe(self, st, p):
    """compare an object with the specification of self.alg"""
    eng, lib, struct = self.eng, self.lib, self.struct
    want = dict(self.algs[self.alg])
    want[self.idf] = const(self.alg)
    self.objects.append(self.alg)
    for n, x in sorted(want.items()):
        self.ob += 1
        got = conc(eng, gf(eng, st, p, struct, n))
        if got != x:
            self.bad(st, 'description', '%s is %s instead of %s' % (n, got, x))
    for n in slotnames(lib, struct):
        self.ob += 1
        v = gf(eng, st, p, struct, n)
        b, off = eng.base(v) if v is not None else (None, None)
        if b is not None and eng.syms[b].rkind == 'fn' and eng.prove_eq(st, off):
            self.fns.setdefault(n, set()).add(eng.syms[b].extra)
        elif n not in OPTIONAL_SLOTS - NEEDED_SLOTS.get(self.alg, set()):
            self.bad(st, 'description', 'operation %s is missing' % n)
        elif conc(eng, v) != 0:
            self.bad(st, 'description', 'operation %s is neither a function nor null' % n)
    if struct in (DH, SG):
        ob, ooff = eng.base(p)
        size = conc(eng, eng.norm(st, eng.syms[ob].size)) if eng.syms[ob].size is not None else None
        whole = max(fi[0] + fi[1] for fi in lib.prog.fieldinfo[struct].values())
        rng = []
        for n in ('private_key', 'public_key'):
            self.ob += 1
            v = gf(eng, st, p, struct, n)
            b, off = eng.base(v) if v is not None else (None, None)
            ln = max([want[n + '_len']] + [x[n == 'public_key'] for (a, _), x in ROLE_LENGTHS.items() if a == self.alg])
            if b != ob or not isconst(off) or size is None:
                self.bad(st, 'key-storage', '%s does not lead into the object' % n)
            elif off[0] < whole or off[0] + ln > size:
                self.bad(st, 'key-storage', '%s leads to less than the %d bytes it can hold' % (n, ln))
            else:
                rng.append((off[0], off[0] + ln))
        if len(rng) == 2 and rng[0][0] < rng[1][1] and rng[1][0] < rng[0][1]:
            self.bad(st, 'key-storage', 'the two keys overlap')


def family(lib, cfg, alg, slot, f, algs):
    """names of foreign primitives reached from an operation, and whether an own one is"""
    seen, work, own, foreign = set(), [f], False, []
    while work:
        g = work.pop()
        if g in seen:
            continue
        seen.add(g)
        for b in g.order:
            for i in b.insts:
                for n in slots._grefs(i.a):
                    t = lib.prog.resolve(g.module, n)
                    low = n.lower()
                    if any(low.startswith(x.lower()) for x in FAMILY[alg]):
                        own = True
                        continue
                    for a in algs:
                        if a != alg and any(low.startswith(x.lower()) for x in FAMILY[a]):
                            foreign.append((n, g, i))
                    if t is not None and hasattr(t, 'order') and '/backend/' in '/' + t.module.name:
                        work.append(t)
    return own, foreign


def create_job(item):
    lib, kind, alg = item
    n = 'noise_%sstate_new_by_id' % kind
    f = lib.prog.ext.get(n)
    if f is None:
        raise Broken('anchor vanished: %s' % n)
    c = Create(lib, f, kind, alg)
    inl = constructors(lib)
    e = lib.engine([c], inline=inl)
    for m in inl:
        e.models.pop(m, None)
    e.run(f, c.setup)
    r = engine_result(e, lambda rep: '%s %s %s' % (n, alg or 'unknown', rep.msg), lib.prog.config)
    if alg is not None:
        if not c.objects:
            raise Broken('%s(%s) never succeeds' % (n, alg))
        r.count('algorithms')
        r.count('objects', len(c.objects))
        for s, fs in sorted(c.fns.items()):
            for g in fs:
                r.count('operations')
                c.ob += 1
                own, foreign = family(lib, lib.prog.config, alg, s, g, c.algs)
                for nm, h, i in foreign:
                    r.viol.append(V('right-algorithm', e.where(h, i), '%s %s %s' % (h.name, alg, nm), 'operation %s of %s uses %s, which belongs to another algorithm' % (s, alg, nm), [], lib.prog.config))
                if s not in NO_PRIMITIVE and not own:
                    r.viol.append(V('right-algorithm', g.name, '%s %s' % (g.name, alg), 'operation %s of %s uses no primitive of the algorithm' % (s, alg), [], lib.prog.config))
                if s == 'create':
                    r.merge(copy_check(lib, kind, alg, g))
                if s == 'change_role':
                    r.merge(role_check(lib, alg, g))
    r.count('obligations', c.ob)
    return r


class Copy(Create):
    def setup(self, eng, st, args):
        return st

    def on_return(self, st, v, fn):
        self.ob += 1
        if self.eng.decide(st, Pred('eq', v)) is True:
            return
        describe(self, st, v)


def copy_check(lib, kind, alg, g):
    c = Copy(lib, g, kind, alg)
    inl = constructors(lib)
    e = lib.engine([c], inline=inl)
    for m in inl:
        e.models.pop(m, None)
    e.run(g)
    r = engine_result(e, lambda rep: '%s create %s' % (alg, rep.msg), lib.prog.config)
    for v in r.viol:
        v.rule = 'create'
    r.count('obligations', c.ob)
    return r


class Role:
    def __init__(self, fn, role, want):
        self.fn, self.role, self.want = fn, role, want
        self.ob = 0

    def setup(self, eng, st, args):
        self.p = args[0]
        eng.add_ne(st, args[0])
        sf(eng, st, args[0], DH, 'role', K(const(self.role) if self.role else 0))
        return st

    def on_return(self, st, v, fn):
        for k, n in enumerate(('private_key_len', 'public_key_len')):
            self.ob += 1
            got = conc(self.eng, gf(self.eng, st, self.p, DH, n))
            if got != self.want[k]:
                self.eng.report(st, 'description', fn, None, '%s becomes %s instead of %s for role %s' % (n, got, self.want[k], self.role or 'unspecified'))


def role_check(lib, alg, g):
    r = Result()
    for (a, role), want in ROLE_LENGTHS.items():
        if a == alg:
            c = Role(g, role, want)
            e = lib.engine([c])
            e.run(g, c.setup)
            r.merge(engine_result(e, lambda rep: '%s %s' % (alg, rep.msg), lib.prog.config))
            r.count('obligations', c.ob)
    return r


class ByName(clients.Trace):
    def __init__(self, fn, kind):
        super().__init__({'noise_name_to_id', 'noise_%sstate_new_by_id' % kind, 'strlen'}, fork=False)
        self.fn, self.kind = fn, kind
        self.ob = 0

    def setup(self, eng, st, args):
        self.args = args
        for a in args:
            eng.add_ne(st, a)
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        ev = st.g.get('ev', ())
        look = [x for x in ev if x[0] == 'noise_name_to_id']
        new = [x for x in ev if x[0].endswith('_new_by_id')]
        ln = [x for x in ev if x[0] == 'strlen']
        self.ob += 1
        codes = errcodes.constants('NOISE_ERROR_')

        def bad(m):
            eng.report(st, 'names', fn, None, m)
        if len(look) != 1 or len(ln) != 1:
            bad('the name is not looked up exactly once')
            return
        a = look[0][1]
        if not (eng.prove_eq(st, a[0], K(const(SPEC[self.kind][2]))) and eng.prove_eq(st, a[1], self.args[1]) and eng.prove_eq(st, a[2], ln[0][2]) and eng.prove_eq(st, ln[0][1][0], self.args[1])):
            bad('the lookup is not of the whole name in the category of the object')
        if not new:
            if not eng.prove_eq(st, v, K(codes['NOISE_ERROR_UNKNOWN_NAME'])) or not eng.prove_eq(st, look[0][2]):
                bad('a known name is refused or an unknown one not')
            b, off = eng.base(self.args[0])
            if not eng.prove_eq(st, eng.load_cell(st, b, off, 8, True, 64, None)):
                bad('an unknown name leaves a result')
        elif len(new) != 1 or not eng.prove_eq(st, new[0][1][0], self.args[0]) or not eng.prove_eq(st, new[0][1][1], look[0][2]) or not eng.prove_ne(st, look[0][2]) or not eng.prove_eq(st, v, new[0][2]):
            bad('the object created is not the one of the identifier found')


def byname_job(item):
    lib, kind = item
    n = 'noise_%sstate_new_by_name' % kind
    f = lib.prog.ext.get(n)
    if f is None:
        raise Broken('anchor vanished: %s' % n)
    c = ByName(f, kind)
    e = lib.engine([c])
    e.run(f, c.setup)
    r = engine_result(e, lambda rep: '%s %s' % (n, rep.msg), lib.prog.config)
    r.count('obligations', c.ob)
    if not c.ob:
        raise Broken('%s never returns' % n)
    return r


class Getter:
    def __init__(self, fn, struct, field):
        self.fn, self.struct, self.field = fn, struct, field
        self.ob = 0

    def setup(self, eng, st, args):
        self.args = args
        if args:
            eng.add_ne(st, args[0])
            if self.field == 'dh_id':
                eng.add_ge(st, lsub(K(0x7fff), ef(eng, args[0], self.struct, self.field)))
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        self.ob += 1
        if not self.args:
            m = max(d[self.field] for d in SPEC[self.struct][3].values())
            if v is None or not eng.prove_ge(st, lsub(v, K(m))):
                eng.report(st, 'getters', fn, None, 'the maximum is less than %d' % m)
        elif not isinstance(v, tuple) or not eng.prove_eq(st, v, ef(eng, self.args[0], self.struct, self.field)):
            eng.report(st, 'getters', fn, None, 'does not return the stored %s' % self.field)


def getter_job(item):
    lib, n, s, fld = item
    f = lib.prog.ext.get(n)
    if f is None:
        raise Broken('anchor vanished: %s' % n)
    c = Getter(f, s, fld)
    e = lib.engine([c])
    e.run(f, c.setup)
    r = engine_result(e, lambda rep: '%s %s' % (n, rep.msg), lib.prog.config)
    r.count('obligations', c.ob)
    return r


class Fixed:
    """no write to the description of an object that already exists"""

    def __init__(self, lib, fn, exempt):
        self.lib, self.fn, self.exempt = lib, fn, exempt
        self.ob = 0
        self.fields = {}
        for s, idf, _, algs in SPEC.values():
            fs = {idf} | set(slotnames(lib, s))
            for d in algs.values():
                fs |= set(d)
            if s in (DH, SG):
                fs |= {'private_key', 'public_key'}
            for n in fs - MUTABLE:
                self.fields[(s, n)] = 1
        # bit fields share a byte: a store that keeps the bits is a change of another one
        self.fields.pop((DH, 'nulls_allowed'), None)
        self.fields.pop((DH, 'ephemeral_only'), None)

    def on_store(self, st, b, off, size, val, inst, fn):
        if b is None or self.eng.syms[b].rkind in ('heap', 'alloca') or not isconst(off):
            return
        self.ob += 1
        f = self.eng.fieldof.get((b, off[0]))
        if f in self.fields and not (f[0] == DH and f[1] in ('private_key_len', 'public_key_len') and fn in self.exempt):
            if isinstance(val, tuple) and self.eng.prove_eq(st, val, (0, ((self.eng.newsym(('lazy', b, off[0], size, 'ptr' if self.lib.prog.fieldinfo[f[0]][f[1]][2] else 'int', ()), '', 'int', 8 * size).id, 1),))):
                return
            self.eng.report(st, 'fixed', fn, inst, 'changes %s of an existing object' % f[1])


def fixed_job(item):
    lib, f, exempt = item
    c = Fixed(lib, f, exempt)
    e = lib.engine([c])
    e.run(f)
    r = engine_result(e, lambda rep: '%s %s' % (f.name, rep.msg), lib.prog.config)
    r.count('obligations', c.ob)
    r.count('functions')
    return r


# the parts of composed objects: creating function -> {part creating function: allowed identifier fields of the protocol}
PARTS = {
    'noise_symmetricstate_new_by_id': (1, {'noise_cipherstate_new_by_id': {'cipher_id': 1}, 'noise_hashstate_new_by_id': {'hash_id': 1}}),
    'noise_handshakestate_new_by_id': (1, {'noise_dhstate_new_by_id': {'dh_id': False, 'hybrid_id': False}}),
}


def symmetric_model(lib):
    """creation of a symmetric object, which records the identifier it is given (checked for it separately)"""
    base = lib.base['noise_symmetricstate_new_by_id']

    def m(eng, st, c):
        res = base(eng, st, c)
        size = max(fi[0] + fi[1] for fi in lib.prog.fieldinfo['NoiseProtocolId'].values())
        for s, r in res:
            b, off = eng.base(eng.norm(s, c.args[0]))
            p = eng.norm(s, eng.load_cell(s, b, off, 8, True, 64, None))
            if eng.decide(s, Pred('eq', p)) is False:
                eng.memcopy(s, ladd(p, K(finfo(lib.prog, SY, 'id')[0])), c.args[1], K(size))
        return res
    return m


class Parts(clients.ErrFork):
    def __init__(self, fn, arg, parts):
        super().__init__()
        self.fn, self.arg, self.parts = fn, arg, parts
        self.ob = 0

    def setup(self, eng, st, args):
        self.args = args
        for a in args:
            if eng.syms[a[1][0][0]].kind == 'ptr':
                eng.add_ne(st, a)
        for n in eng.prog.fieldinfo['NoiseProtocolId']:
            if n != 'reserved':
                gf(eng, st, args[self.arg], 'NoiseProtocolId', n)        # give each field a value of its own
        return st

    def on_call(self, st, c):
        if c.name not in self.parts:
            return
        eng = self.eng
        self.ob += 1
        got = None
        b, off = eng.base(eng.norm(st, c.args[0]))
        dest = eng.fieldof.get((b, off[0])) if isconst(off) else None
        for n in self.parts[c.name]:
            if dest and dest[0] == HS and (n == 'hybrid_id') != dest[1].endswith('_hybrid'):
                continue
            if eng.prove_eq(st, c.args[1], ef(eng, self.args[self.arg], 'NoiseProtocolId', n)):
                got = n
        if got is None:
            eng.report(st, 'composition', c.fn, c.inst, '%s is not given the identifier of the protocol for %s' % (c.name, dest[1] if dest else 'its object'))
            return
        st.g['parts'] = st.g.get('parts', frozenset()) | {(c.name, got)}

    def on_return(self, st, v, fn):
        eng = self.eng
        if not isinstance(v, tuple) or eng.prove_ne(st, v):
            return
        self.ob += 1
        if self.fn.name == 'noise_symmetricstate_new_by_id':
            b, off = eng.base(self.args[0])
            p = eng.norm(st, eng.load_cell(st, b, off, 8, True, 64, None))
            o = finfo(eng.prog, SY, 'id')[0]
            for n in eng.prog.fieldinfo['NoiseProtocolId']:
                fo, size = finfo(eng.prog, 'NoiseProtocolId', n)[:2]
                if n == 'reserved':
                    continue
                pb, po = eng.base(p)
                if not eng.prove_eq(st, eng.load_cell(st, pb, ladd(po, K(o + fo)), size, False, 8 * size, None), ef(eng, self.args[1], 'NoiseProtocolId', n)):
                    eng.report(st, 'composition', fn, None, 'the object does not record %s of its protocol' % n)
        for c, ids in self.parts.items():
            for n, must in ids.items():
                if must and (c, n) not in st.g.get('parts', ()):
                    eng.report(st, 'composition', fn, None, 'success without creating the part for %s' % n)


def parts_job(item):
    lib, n = item
    f = lib.prog.ext.get(n)
    if f is None:
        raise Broken('anchor vanished: %s' % n)
    c = Parts(f, *PARTS[n])
    sym = 'noise_symmetricstate_new_by_id'
    e = lib.engine([c], override={sym: symmetric_model(lib)} if n != sym else None)
    e.run(f, c.setup)
    r = engine_result(e, lambda rep: '%s %s' % (n, rep.msg), lib.prog.config)
    r.count('obligations', c.ob)
    if not c.ob:
        raise Broken('%s creates nothing' % n)
    return r


def check(ctx):
    jobs = []
    for cfg in ('ref', 'sodium', 'openssl'):
        lib = ctx.lib(cfg)
        for kind, (s, idf, cat, algs) in SPEC.items():
            jobs += [(lib, kind, a) for a in algs] + [(lib, kind, None)]
    ctx.pmap(create_job, jobs)
    lib = ctx.lib('ref')
    ctx.pmap(byname_job, [(lib, k) for k in SPEC])
    ctx.pmap(getter_job, [(lib, n, s, f) for n, (s, f) in GETTERS.items()] + [(lib, n, s, f) for n, (s, f) in MAXIMA.items()])
    ctx.pmap(parts_job, [(lib, n) for n in PARTS])
    jobs = []
    for cfg in ('ref', 'sodium', 'openssl'):
        l = ctx.lib(cfg)
        sl = slots.slot_functions(l)
        exempt = {f for f, _ in sl.get(DH + '.change_role', [])}
        fs = [f for k, v in sl.items() for f, _ in v if cfg == 'ref' or 'backend/%s' % cfg in f.module.name]
        if cfg == 'ref':
            fs += [l.prog.ext[n] for n in public.functions() if n in l.prog.ext and l.prog.ext[n].params]
        for f in dict.fromkeys(fs):
            jobs.append((l, f, exempt))
    ctx.pmap(fixed_job, jobs)
