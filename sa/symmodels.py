"""Exact transfer functions of the four SymmetricState transcript operations, used when the rules about handshake messages
treat them as events.  Rules C10 and C02 establish from their bodies what is assumed of them here."""
from .absint import *
from .libmodels import gf, sf, finfo

SS, CS, NB = 'NoiseSymmetricState_s', 'NoiseCipherState_s', 'NoiseBuffer'


def err(eng, s, c, why):
    r = eng.fresh('err:' + c.name, 'int', 32, 1, (1 << 31) - 1, origin=('ret', c.name))
    s.trail = (s.trail, '%s: %s fails' % (eng.where(c.fn, c.inst), c.name))
    return (s, r)


def params(eng, st, c, n):
    """(states with valid parameters and not yet split, states that fail)"""
    good, bad = [st], []
    for i in range(n):
        nx = []
        for s in good:
            for s2, tv in eng.split(s, Pred('eq', c.args[i])):
                (bad if tv else nx).append(s2)
        good = nx
    nx = []
    for s in good:
        for s2, tv in eng.split(s, Pred('eq', gf(eng, s, c.args[0], SS, 'cipher'))):
            (bad if tv else nx).append(s2)
    return nx, bad


def touch(eng, s, c, name):
    off, size = finfo(eng.prog, SS, name)[:2]
    eng.clobber(s, ladd(c.args[0], K(off)), K(64), c)


def mix_hash(eng, st, c):
    good, bad = params(eng, st, c, 2)
    out = [err(eng, s, c, '') for s in bad]
    for s in good:
        touch(eng, s, c, 'h')
        out.append((s, ZERO))
    return out


def mix_key(eng, st, c):
    good, bad = params(eng, st, c, 2)
    out = [err(eng, s, c, '') for s in bad]
    for s in good:
        touch(eng, s, c, 'ck')
        ci = gf(eng, s, c.args[0], SS, 'cipher')
        sf(eng, s, ci, CS, 'has_key', ONE)
        sf(eng, s, ci, CS, 'n', ZERO)
        out.append((s, ZERO))
    return out


def crypt(sign):
    def f(eng, st, c):
        good, bad = params(eng, st, c, 2)
        out = [err(eng, s, c, '') for s in bad]
        for s in good:
            ci = gf(eng, s, c.args[0], SS, 'cipher')
            for s2, nokey in eng.split(s, Pred('eq', gf(eng, s, ci, CS, 'has_key'))):
                if not nokey:
                    out.append(err(eng, s2.fork(), c, ''))
                d = gf(eng, s2, c.args[1], NB, 'data')
                n = gf(eng, s2, c.args[1], NB, 'size')
                touch(eng, s2, c, 'h')
                if not nokey:
                    ml = gf(eng, s2, ci, CS, 'mac_len')
                    m = ladd(n, ml) if sign > 0 else lsub(n, ml)
                    if sign < 0:
                        eng.add_ge(s2, m)
                    eng.clobber(s2, d, n if sign < 0 else m, c)
                    sf(eng, s2, c.args[1], NB, 'size', m)
                    sf(eng, s2, ci, CS, 'n', eng.fresh('n', 'int', 64))
                out.append((s2, ZERO))
        return out
    return f


def models():
    p = 'noise_symmetricstate_'
    return {p + 'mix_hash': mix_hash, p + 'mix_key': mix_key, p + 'encrypt_and_hash': crypt(1), p + 'decrypt_and_hash': crypt(-1)}


def guarded(eng, st, c, nonnull, conds):
    """(states in which every precondition holds, states in which one fails)"""
    good, bad = [st], []
    for i in nonnull:
        nx = []
        for s in good:
            for s2, tv in eng.split(s, Pred('eq', c.args[i])):
                (bad if tv else nx).append(s2)
        good = nx
    for f in conds:
        nx = []
        for s in good:
            for s2, tv in eng.split(s, f(s)):
                (nx if tv else bad).append(s2)
        good = nx
    return good, bad


def hkdf(eng, st, c):
    """noise_hashstate_hkdf fails for invalid parameters only (rule C26 checks its body)"""
    hl = lambda s: gf(eng, s, c.args[0], 'NoiseHashState_s', 'hash_len')
    good, bad = guarded(eng, st, c, (0, 1, 3, 5, 7), [lambda s: Pred('ge', lsub(hl(s), c.args[6])), lambda s: Pred('ge', lsub(hl(s), c.args[8]))])
    out = [err(eng, s, c, '') for s in bad]
    for s in good:
        eng.clobber(s, c.args[5], c.args[6], c)
        eng.clobber(s, c.args[7], c.args[8], c)
        out.append((s, ZERO))
    return out


def init_key(eng, st, c):
    """noise_cipherstate_init_key fails for invalid parameters only (rule C01 checks its body)"""
    good, bad = guarded(eng, st, c, (0, 1), [lambda s: Pred('eq', lsub(c.args[2], gf(eng, s, c.args[0], CS, 'key_len')))])
    out = [err(eng, s, c, '') for s in bad]
    for s in good:
        sf(eng, s, c.args[0], CS, 'has_key', ONE)
        sf(eng, s, c.args[0], CS, 'n', ZERO)
        out.append((s, ZERO))
    return out


def kdf_models():
    return {'noise_hashstate_hkdf': hkdf, 'noise_cipherstate_init_key': init_key}
