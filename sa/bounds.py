"""Extent checking: every access through a buffer pointer stays inside the buffer it was given."""
from .absint import *
from .libmodels import ef, gf, finfo
from .clients import show

# pointer field -> field holding the number of bytes behind it
PAIRS = {
    ('NoiseBuffer', 'data'): 'max_size',
    ('NoiseProtobuf', 'data'): 'size',
    ('NoiseDHState_s', 'private_key'): 'private_key_len',
    ('NoiseDHState_s', 'public_key'): 'public_key_len',
    ('NoiseSignState_s', 'private_key'): 'private_key_len',
    ('NoiseSignState_s', 'public_key'): 'public_key_len',
    ('NoiseHandshakeState_s', 'prologue'): 'prologue_len',
}

# entry -> {pointer parameter index: length parameter index or constant ('c', n)}
PARAMS = {}


def _p(names, m):
    for n in names.split():
        PARAMS[n] = m


_p('noise_cipherstate_init_key noise_dhstate_set_keypair_private noise_dhstate_set_public_key noise_dhstate_get_public_key '
   'noise_handshakestate_set_pre_shared_key noise_handshakestate_set_prologue noise_handshakestate_get_handshake_hash '
   'noise_hashstate_update noise_hashstate_finalize noise_randstate_generate noise_signstate_set_keypair_private '
   'noise_signstate_set_public_key noise_signstate_get_public_key noise_symmetricstate_mix_key noise_symmetricstate_mix_hash '
   'Noise_SubjectInfo_set_id Noise_SubjectInfo_set_name Noise_SubjectInfo_set_role Noise_PublicKeyInfo_set_algorithm '
   'Noise_PublicKeyInfo_set_key Noise_MetaInfo_set_name Noise_MetaInfo_set_value Noise_Signature_set_id Noise_Signature_set_name '
   'Noise_Signature_set_hash_algorithm Noise_Signature_set_signature Noise_ExtraSignedInfo_set_nonce '
   'Noise_ExtraSignedInfo_set_valid_from Noise_ExtraSignedInfo_set_valid_to Noise_EncryptedPrivateKey_set_algorithm '
   'Noise_EncryptedPrivateKey_set_salt Noise_EncryptedPrivateKey_set_encrypted_data Noise_PrivateKey_set_id '
   'Noise_PrivateKey_set_name Noise_PrivateKey_set_role Noise_PrivateKeyInfo_set_algorithm Noise_PrivateKeyInfo_set_key', {1: 2})
_p('noise_cipherstate_encrypt_with_ad noise_cipherstate_decrypt_with_ad', {1: 2})
_p('noise_dhstate_set_keypair noise_dhstate_get_keypair noise_signstate_set_keypair noise_signstate_get_keypair', {1: 2, 3: 4})
_p('noise_dhstate_calculate', {2: 3})
_p('noise_dhstate_format_fingerprint noise_signstate_format_fingerprint', {2: 3})
_p('noise_strerror', {1: 2})
_p('noise_hashstate_hash_one', {1: 2, 3: 4})
_p('noise_hashstate_hash_two', {1: 2, 3: 4, 5: 6})
_p('noise_hashstate_hkdf', {1: 2, 3: 4, 5: 6, 7: 8})
_p('noise_hashstate_pbkdf2', {1: 2, 3: 4, 6: 7})
_p('noise_name_to_id', {1: 2})
_p('noise_protocol_name_to_id', {1: 2})
_p('noise_protocol_id_to_name', {0: 1})
_p('noise_randstate_pad', {1: 3})
_p('noise_randstate_generate_simple noise_clean noise_rand_bytes noise_free', {0: 1})
_p('noise_is_zero', {0: 1})
_p('noise_is_equal', {0: 2, 1: 2})
_p('noise_signstate_sign noise_signstate_verify', {1: 2, 3: 4})
_p('noise_format_fingerprint', {1: 2, 3: 4})
_p('noise_load_private_key_from_file noise_load_private_key_from_buffer noise_save_private_key_to_file noise_save_private_key_to_buffer', {2: 3})
_p('noise_protobuf_prepare_input noise_protobuf_prepare_output', {1: 2})
_p('noise_protobuf_write_string noise_protobuf_write_bytes noise_protobuf_read_string noise_protobuf_read_bytes', {2: 3})

# facts about objects that the constructors establish and nothing changes (C20 checks both): (struct, field) -> (lo, hi)
INVARIANTS = {
    ('NoiseHashState_s', 'hash_len'): (32, 64),
    ('NoiseHashState_s', 'block_len'): (64, 128),
    ('NoiseCipherState_s', 'mac_len'): (16, 16),
    ('NoiseCipherState_s', 'key_len'): (32, 32),
    ('NoiseHandshakeState_s', 'pre_shared_key_len'): (0, 32),
    ('NoiseDHState_s', 'shared_key_len'): (32, 56),
    ('NoiseDHState_s', 'private_key_len'): (32, 2048),
    ('NoiseDHState_s', 'public_key_len'): (32, 2048),
    ('NoiseSignState_s', 'signature_len'): (64, 64),
    ('NoiseSignState_s', 'private_key_len'): (32, 32),
    ('NoiseSignState_s', 'public_key_len'): (32, 32),
}


class Invariants:
    """applies the object invariants when a field is first read"""

    def on_load(self, st, b, off, size, v, inst, fn):
        if b is None or not isconst(off) or not isinstance(v, tuple):
            return
        f = self.eng.fieldof.get((b, off[0]))
        iv = INVARIANTS.get(f)
        if iv is None or isconst(v) or len(v[1]) != 1 or v[0]:
            return
        og = self.eng.syms[v[1][0][0]].origin
        if not og or og[0] != 'lazy':
            return
        st._memo = {}
        self.eng.add_ge(st, ladd(v, K(-iv[0])))
        self.eng.add_ge(st, lsub(K(iv[1]), v))


# inputs read by events: name -> [(pointer argument, length)]
READS = {
    'slot:NoiseHashState_s.update': [(1, ('a', 2))],
    'slot:NoiseCipherState_s.encrypt': [(1, ('a', 2)), (3, ('a', 4))],
    'slot:NoiseCipherState_s.decrypt': [(1, ('a', 2)), (3, ('mac', 4))],
    'slot:NoiseCipherState_s.init_key': [(1, ('f', 0, 'NoiseCipherState_s', 'key_len'))],
    'slot:NoiseDHState_s.set_keypair': [(1, ('f', 0, 'NoiseDHState_s', 'private_key_len')), (2, ('f', 0, 'NoiseDHState_s', 'public_key_len'))],
    'slot:NoiseDHState_s.set_keypair_private': [(1, ('f', 0, 'NoiseDHState_s', 'private_key_len'))],
    'slot:NoiseDHState_s.validate_public_key': [(1, ('f', 0, 'NoiseDHState_s', 'public_key_len'))],
    'slot:NoiseSignState_s.sign': [(1, ('a', 2))],
    'slot:NoiseSignState_s.verify': [(1, ('a', 2)), (3, ('f', 0, 'NoiseSignState_s', 'signature_len'))],
    'noise_is_equal': [(0, ('a', 2)), (1, ('a', 2))],
    'noise_is_zero': [(0, ('a', 1))],
    'noise_symmetricstate_mix_hash': [(1, ('a', 2))],
    'noise_symmetricstate_mix_key': [(1, ('a', 2))],
    'noise_hashstate_update': [(1, ('a', 2))],
    'noise_hashstate_hash_one': [(1, ('a', 2))],
    'noise_hashstate_hash_two': [(1, ('a', 2)), (3, ('a', 4))],
    'noise_hashstate_hkdf': [(1, ('a', 2)), (3, ('a', 4))],
    'noise_dhstate_set_public_key': [(1, ('a', 2))],
    'noise_dhstate_set_keypair': [(1, ('a', 2)), (3, ('a', 4))],
    'noise_dhstate_set_keypair_private': [(1, ('a', 2))],
    'noise_format_fingerprint': [(3, ('a', 4))],
    'memcmp': [(0, ('a', 2)), (1, ('a', 2))],
    'chacha_encrypt_bytes': [(1, ('a', 3))],
    'poly1305_update': [(1, ('a', 2))], 'ghash_update': [(1, ('a', 2))],
    'sha256_update': [(1, ('a', 2))], 'sha512_update': [(1, ('a', 2))], 'BLAKE2s_update': [(1, ('a', 2))], 'BLAKE2b_update': [(1, ('a', 2))],
    'fwrite': [(0, ('a', 2))],
}


class Bounds:
    def __init__(self, rule='bounds', heap=True):
        self.rule = rule
        self.ob = 0
        self.kinds = {}
        self.unknown = 0
        self.ssz = {}

    def struct_size(self, s):
        r = self.ssz.get(s)
        if r is None:
            fi = self.eng.prog.fieldinfo.get(s, {})
            r = max([o + n for o, n, _, _, _, _ in fi.values()] or [0])
            r = self.ssz[s] = (r + 7) // 8 * 8
        return r

    def limit(self, st, b):
        """(number of bytes behind base b, description) or None"""
        eng = self.eng
        y = eng.syms[b]
        if y.rkind in ('fn', 'extern'):
            return None
        if y.size is not None:
            return y.size, 'object'
        og = y.origin
        if not og:
            return None
        if og[0] == 'lazy':
            f = eng.fieldof.get((og[1], og[2]))
            ln = PAIRS.get(f)
            if ln is not None:
                p = (og[2] - finfo(eng.prog, *f)[0], ((og[1], 1),))
                return ef(eng, p, f[0], ln), '%s.%s' % f
            return None
        if og[0] == 'param':
            i = PARAMS.get(og[1], {}).get(og[2])
            if i is None:
                return None
            t, n = eng.entry.params[i]
            s = eng.newsym(('param', og[1], i), n, 'int', 64)
            return (0, ((s.id, 1),)), 'parameter'
        return None

    def check(self, st, b, off, length, what, inst, fn, loc=None):
        eng = self.eng
        if b is None or length is None:
            return
        length = eng.norm(st, length)
        if isconst(length) and length[0] == 0:
            return
        off = eng.norm(st, off)
        lm = self.limit(st, b)
        where = (fn, inst)
        if lm is None:
            # a member of a structure whose layout is known
            if not isconst(off) or not isconst(length) or length[0] > 8:
                best = None
                for (b2, o2), (s, f) in eng.fieldof.items():
                    if b2 == b and isinstance(o2, int) and o2 <= off[0]:
                        n = eng.prog.fieldinfo.get(s, {}).get(f)
                        if n and n[1] and (best is None or o2 > best[0] or (o2 == best[0] and n[1] > best[1])):
                            best = (o2, n[1], s, f)
                if best is None:
                    self.unknown += 1
                    return
                o2, n, s, f = best
                whole = self.struct_size(s) - (finfo(eng.prog, s, f)[0])
                self.ob += 1
                self.kinds['member'] = self.kinds.get('member', 0) + 1
                end = lsub(K(o2 + n), ladd(off, length))
                if eng.prove_ge(st, end) and eng.prove_ge(st, lsub(off, K(o2))):
                    return
                if isconst(length) and isconst(off):
                    # assignment or erasure of the whole structure, or of the rest of it
                    if off[0] + length[0] <= o2 + whole or finfo(eng.prog, s, f)[0] == 0:
                        return
                eng.report(st, self.rule, fn, inst, '%s of %s bytes at offset %s of %s.%s may leave the %d-byte member' % (what, show(eng, length), show(eng, lsub(off, K(o2))), s, f, n))
            return
        size, kind = lm
        self.ob += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if not eng.prove_ge(st, off):
            eng.report(st, self.rule, fn, inst, '%s may start before %s (offset %s)' % (what, self.nm(b), show(eng, off)))
        elif not eng.prove_ge(st, lsub(size, ladd(off, length))):
            if not eng.prove_ge(st, lneg(length)):
                eng.report(st, self.rule, fn, inst, '%s of %s bytes at offset %s may leave the %s bytes of %s' % (what, show(eng, length), show(eng, off), show(eng, size), self.nm(b)))

    def nm(self, b):
        return self.eng.syms[b].name

    def on_store(self, st, b, off, size, val, inst, fn):
        self.check(st, b, off, K(size), 'write', inst, fn)

    def on_load(self, st, b, off, size, v, inst, fn):
        self.check(st, b, off, K(size), 'read', inst, fn)

    def cur(self, st):
        c = getattr(self, '_call', None)
        return (c.inst, c.fn) if c is not None else (None, st.stack[-1].fn if st.stack else None)

    def on_copy(self, st, db, doff, sb, soff, length):
        i, f = self.cur(st)
        self.check(st, db, doff, length, 'copy', i, f)
        self.check(st, sb, soff, length, 'copy', i, f)

    def on_fill(self, st, b, off, val, length):
        i, f = self.cur(st)
        self.check(st, b, off, length, 'fill', i, f)

    def on_clobber(self, st, b, off, length, why):
        if why is None or not hasattr(why, 'inst'):
            return
        if length is None or self.eng.prove_eq(st, length):
            return
        self.check(st, b, off, length, 'write by %s' % why.name, why.inst, why.fn)

    def on_call(self, st, c):
        self._call = c
        eng = self.eng
        for a, n in READS.get(c.name, ()):
            if c.callee is not None and c.name not in eng.contract:
                break
            p = c.args[a]
            if n[0] == 'a':
                ln = c.args[n[1]]
            elif n[0] == 'mac':
                ln = ladd(c.args[n[1]], gf(eng, st, c.args[0], 'NoiseCipherState_s', 'mac_len'))
            else:
                ln = gf(eng, st, c.args[n[1]], n[2], n[3])
            if ln is None:
                continue
            b, off = eng.base(eng.norm(st, p))
            self.check(st, b, off, ln, 'read by %s' % c.name, c.inst, c.fn)
