"""Models of the cryptographic primitives below the backends, as far as the library's own sources are concerned:
which argument bytes each one writes.  Numeric behaviour is out of scope."""
from .absint import *
from . import models as M

# length of a written range: int, ('a', i) value of argument i, 'ctx' the object pointed to, ('a+', i, k)
W = {
    'chacha_keysetup': [(0, 'ctx')], 'chacha_ivsetup': [(0, 'ctx')],
    'chacha_encrypt_bytes': [(0, 'ctx'), (2, ('a', 3))],
    'poly1305_init': [(0, 'ctx')], 'poly1305_update': [(0, 'ctx')], 'poly1305_finish': [(0, 'ctx'), (1, 16)],
    'poly1305_auth': [(0, 16)],
    'ghash_reset': [(0, 'ctx')], 'ghash_update': [(0, 'ctx')], 'ghash_pad': [(0, 'ctx')],
    'rijndaelKeySetupEnc': [(0, 240)], 'rijndaelKeySetupDec': [(0, 240)], 'rijndaelEncrypt': [(3, 16)], 'rijndaelDecrypt': [(3, 16)],
    'sha256_reset': [(0, 'ctx')], 'sha256_update': [(0, 'ctx')], 'sha256_finish': [(0, 'ctx'), (1, 32)],
    'sha512_reset': [(0, 'ctx')], 'sha512_update': [(0, 'ctx')], 'sha512_finish': [(0, 'ctx'), (1, 64)],
    'BLAKE2s_reset': [(0, 'ctx')], 'BLAKE2s_update': [(0, 'ctx')], 'BLAKE2s_finish': [(0, 'ctx'), (1, 32)],
    'BLAKE2b_reset': [(0, 'ctx')], 'BLAKE2b_update': [(0, 'ctx')], 'BLAKE2b_finish': [(0, 'ctx'), (1, 64)],
    'newhope_keygen': [(0, 1824), (1, 'ctx')], 'newhope_sharedb': [(0, 32), (1, 2048)], 'newhope_shareda': [(0, 32)],
    'curve448_eval': [(0, 56)],
    'curved25519_scalarmult_basepoint': [(0, 32)], 'curved25519_scalarmult': [(0, 32)], 'curve25519_donna': [(0, 32)],
    'ed25519_publickey': [(1, 32)], 'ed25519_sign': [(4, 64)], 'ed25519_sign_open': [],
    'crypto_onetimeauth_poly1305_init': [(0, 'ctx')], 'crypto_onetimeauth_poly1305_update': [(0, 'ctx')],
    'crypto_onetimeauth_poly1305_final': [(0, 'ctx'), (1, 16)],
    'crypto_stream_chacha20_ietf_xor': [(0, ('a', 2))], 'crypto_stream_chacha20_ietf_xor_ic': [(0, ('a', 2))],
    'crypto_stream_chacha20_ietf': [(0, ('a', 1))],
    'crypto_aead_aes256gcm_beforenm': [(0, 'ctx')],
    'crypto_aead_aes256gcm_encrypt_afternm': [(0, ('a+', 3, 16)), (1, 8)],
    'crypto_aead_aes256gcm_decrypt_afternm': [(0, ('a-', 3, 16)), (1, 8)],
    'crypto_aead_aes256gcm_is_available': [],
    'crypto_hash_sha256_init': [(0, 'ctx')], 'crypto_hash_sha256_update': [(0, 'ctx')], 'crypto_hash_sha256_final': [(0, 'ctx'), (1, 32)],
    'crypto_hash_sha512_init': [(0, 'ctx')], 'crypto_hash_sha512_update': [(0, 'ctx')], 'crypto_hash_sha512_final': [(0, 'ctx'), (1, 64)],
    'crypto_generichash_blake2b_init': [(0, 'ctx')], 'crypto_generichash_blake2b_update': [(0, 'ctx')],
    'crypto_generichash_blake2b_final': [(0, 'ctx'), (1, ('a', 2))],
    'crypto_scalarmult_curve25519_base': [(0, 32)], 'crypto_scalarmult_curve25519': [(0, 32)],
    'crypto_sign_ed25519_keypair': [(0, 32), (1, 64)], 'crypto_sign_ed25519_seed_keypair': [(0, 32), (1, 64)],
    'crypto_sign_ed25519_detached': [(0, 64), (1, 8)], 'crypto_sign_ed25519_verify_detached': [],
    'randombytes_buf': [(0, ('a', 1))], 'sodium_init': [],
    'EVP_CIPHER_CTX_reset': [], 'EVP_CIPHER_CTX_free': [], 'EVP_EncryptInit_ex': [], 'EVP_DecryptInit_ex': [],
    'EVP_EncryptUpdate': [(1, ('a', 4)), (2, 4)], 'EVP_DecryptUpdate': [(1, ('a', 4)), (2, 4)],
    'EVP_EncryptFinal_ex': [(1, 16), (2, 4)], 'EVP_DecryptFinal_ex': [(1, 16), (2, 4)],
    'OPENSSL_init_crypto': [], 'ERR_clear_error': [], 'EVP_aes_256_gcm': [],
    'strncpy': [(0, ('a', 2))], 'snprintf': [(0, ('a', 1))], 'strchr': [], 'fseek': [], 'ftell': [],
}


def extent(eng, st, ptr):
    """size of the object or struct member ptr points at the start of, or None"""
    b, off = eng.base(eng.norm(st, ptr))
    if b is None:
        return None
    f = eng.fieldof.get((b, off[0] if isconst(off) else off))
    if f:
        i = eng.prog.fieldinfo.get(f[0], {}).get(f[1])
        if i and i[1]:
            return K(i[1])
    y = eng.syms[b]
    if y.size is not None:
        return lsub(y.size, off)
    return None


def prim(name, outs):
    def f(eng, st, c):
        for a, n in outs:
            p = c.args[a]
            if eng.decide(st, Pred('eq', p)) is True:
                continue
            if n == 'ctx':
                ln = extent(eng, st, p)
            elif isinstance(n, int):
                ln = K(n)
            elif n[0] == 'a':
                ln = c.args[n[1]]
            elif n[0] == 'a+':
                ln = ladd(c.args[n[1]], K(n[2]))
            else:
                ln = ladd(c.args[n[1]], K(-n[2]))
            eng.clobber(st, p, ln, c)
        rv = eng.retval(c)
        return [(st, rv)]
    return f


def evp_ctrl(eng, st, c):
    if eng.prove_eq(st, c.args[1], K(0x10)):      # EVP_CTRL_AEAD_GET_TAG
        eng.clobber(st, c.args[3], c.args[2], c)
    return [(st, eng.retval(c))]


def evp_update(eng, st, c):
    """GCM is a stream mode: on success exactly the input length is produced (also for additional data)"""
    s2 = st.fork()
    if eng.decide(st, Pred('eq', c.args[1])) is not True:
        eng.clobber(st, c.args[1], c.args[4], c)
        eng.clobber(s2, c.args[1], c.args[4], c)
    eng.store(st, c.args[2], c.args[4], 4, c.inst, c.fn)
    eng.clobber(s2, c.args[2], K(4), c)
    return [(st, ONE), (s2, ZERO)]


def evp_final(eng, st, c):
    s2 = st.fork()
    n = eng.fresh('outl', 'int', 32, 0, 0)
    eng.store(st, c.args[2], ZERO, 4, c.inst, c.fn)
    eng.clobber(s2, c.args[2], K(4), c)
    r = eng.fresh('ret:' + c.name, 'int', 32, -(1 << 31), 0, origin=('ret', c.name))
    p = eng.fresh('ret:' + c.name, 'int', 32, 1, (1 << 31) - 1, origin=('ret', c.name))
    return [(st, p), (s2, r)]


def evp_new(eng, st, c):
    s2 = st.fork()
    eng.fresh_ctr += 1
    y = eng.newsym(None, 'evpctx@%s#%d' % (eng.where(c.fn, c.inst), eng.fresh_ctr), 'ptr', 64, 1, U64, origin=('heap', c.name))
    y.rkind = 'heap'
    y.nonnull = True
    y.extra = ('object', c.name)
    s2.trail = (s2.trail, '%s: %s succeeds' % (eng.where(c.fn, c.inst), c.name))
    st.trail = (st.trail, '%s: %s returns NULL' % (eng.where(c.fn, c.inst), c.name))
    for hk in eng.h_alloc:
        hk(s2, y.id, c)
    return [(s2, (0, ((y.id, 1),))), (st, ZERO)]


def evp_free(eng, st, c):
    for hk in eng.h_free:
        hk(st, c.args[0], c)
    return [(st, None)]


def prim_models():
    m = {n: prim(n, o) for n, o in W.items()}
    m['EVP_CIPHER_CTX_ctrl'] = evp_ctrl
    m['EVP_EncryptUpdate'] = m['EVP_DecryptUpdate'] = evp_update
    m['EVP_EncryptFinal_ex'] = m['EVP_DecryptFinal_ex'] = evp_final
    m['EVP_CIPHER_CTX_new'] = evp_new
    m['EVP_CIPHER_CTX_free'] = evp_free
    return m
