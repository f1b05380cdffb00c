"""C10: the transcript hash commits to exactly the messages, and only after success."""
from ..absint import *
from .. import clients, symbody, symmodels, prov
from ..symbody import SS, P, Body, param
from ..prov import Prov, showterm, HASH
from ..libmodels import gf, ef, finfo
from ..run import Result, engine_result, V, Broken
from ..handshake import const, TokenSpec, entry_fn
from . import c06

HS = 'NoiseHandshakeState_s'
RULES = [
    'transcript: encrypt_and_hash and decrypt_and_hash authenticate exactly the buffer with exactly the transcript hash as associated data, and on success the transcript hash becomes the hash of itself and exactly the ciphertext that was produced or received; the chaining key is untouched; on any error hash and chaining key are unchanged',
    'message: on every path of write_message and read_message that succeeds, for messages with plain, encrypted and hybrid keys and with or without payload, every ephemeral key is hashed, every static or hybrid key and then the payload (even if it is empty) goes through encrypt_and_hash or decrypt_and_hash exactly once, at its place in the message, and the reported message is exactly what was produced',
    'mix-hash, mix-key: MixHash and MixKey change transcript hash and chaining key exactly as the specification defines',
    'transcript-init: a new SymmetricState, and a handshake that falls back, start with the zero-padded protocol name or its hash when it is longer than the hash, and the chaining key equals it',
    'transcript-writers: no other public function changes the transcript hash or the chaining key',
]
EXPLANATION = ('content provenance over the paths of every function that receives a symmetric or handshake state: which term each byte range holds '
               'at return, compared with the specification')
MIN = {'bodies': 4, 'initialisers': 3, 'other_functions': 20, 'obligations': 60, 'message_paths': 60}
ASSUMPTIONS = ['the hash length is between 1 and 64 and not smaller than the cipher key length (enforced by noise_symmetricstate_new; see transcript-init and C20)']

WRITERS = {P + 'mix_hash', P + 'mix_key', P + 'encrypt_and_hash', P + 'decrypt_and_hash', 'noise_handshakestate_start',
           'noise_handshakestate_write_message', 'noise_handshakestate_read_message', 'noise_handshakestate_fallback',
           'noise_handshakestate_fallback_to', P + 'free', 'noise_handshakestate_free'}
NAMES = {'noise_protocol_id_to_name'}


def body_job(item):
    lib, f, cl = item
    e = symbody.run_body(lib, f, cl)
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    if not cl.good:
        raise Broken('%s never succeeds' % f.name)
    r.count('bodies')
    r.count('obligations', cl.ob)
    return r


class Init(Prov):
    def __init__(self, fn, fallback):
        super().__init__()
        self.fn, self.fallback = fn, fallback
        self.good = self.ob = 0

    def setup(self, eng, st, args):
        self.args = args
        for a in args[:1]:
            eng.add_ne(st, a)
        if self.fallback:
            o = ef(eng, args[0], HS, 'symmetric')
            h = ef(eng, o, SS, 'hash')
            hl = ef(eng, h, HASH, 'hash_len')
            for x in (o, h, ef(eng, o, SS, 'cipher')):
                eng.add_ne(st, x)
            eng.add_ge(st, lsub(K(64), hl))
            eng.add_ge(st, lsub(hl, ONE))
        return st

    def obj(self, st):
        eng = self.eng
        if self.fallback:
            return gf(eng, st, self.args[0], HS, 'symmetric')
        b, off = eng.base(eng.norm(st, self.args[0]))
        return eng.norm(st, eng.load_cell(st, b, off, 8, True, 64, None))

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            if not ok:
                continue
            self.good += 1
            self.ob += 1
            o = self.obj(s)
            hl = gf(eng, s, gf(eng, s, o, SS, 'hash'), HASH, 'hash_len')
            H, C = [ladd(o, K(finfo(eng.prog, SS, x)[0])) for x in ('h', 'ck')]
            if not self.fallback and not eng.prove_ge(s, lsub(K(64), hl)):
                eng.report(s, 'transcript-init', fn, None, 'a symmetric state may be created whose hash is longer than 64 bytes')
            th, tc = self.content(s, H, hl), self.content(s, C, hl)
            if not self.same(s, th, tc):
                eng.report(s, 'transcript-init', fn, None, 'the initial chaining key (%s) is not the initial transcript hash (%s)' % (showterm(eng, tc), showterm(eng, th)))
            if not self.name_or_hash(s, th, hl):
                eng.report(s, 'transcript-init', fn, None, 'the initial transcript hash is %s, not the zero-padded protocol name or its hash' % showterm(eng, th))

    def isname(self, t):
        if t[0] == 'part' and self.eng.prove_eq(self.st, t[1]):
            t = t[3]
        if t[0] == 'by' and t[1] in NAMES:
            return True
        if t[0] == 'in':
            b = self.eng.base(t[1])
            if b[0] is not None and self.eng.prove_eq(self.st, t[1], self.args[-1]) and self.eng.syms[b[0]].rkind != 'heap':
                return True         # new_by_name: the caller's name
        return False

    def name_or_hash(self, st, t, hl):
        self.st = st
        if t[0] == 'hash':
            return len(t[1]) == 1 and self.isname(t[1][0])
        if t[0] == 'cat':
            return len(t[1]) == 2 and self.isname(t[1][0]) and t[1][1] == ('zero',)
        return self.isname(t)


def init_job(item):
    lib, f, fb = item
    cl = Init(f, fb)
    e = lib.engine([cl], override=symmodels.kdf_models(), inline=[n for n in symbody.INLINE + ['noise_handshakestate_fallback_to'] if n != f.name])
    e.run(f, cl.setup)
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    if not cl.good:
        raise Broken('%s never succeeds' % f.name)
    r.count('initialisers')
    r.count('obligations', cl.ob)
    return r


MESSAGES = [(['e'], True), (['e', 'ee', 's', 'es'], True), (['s', 'se'], False), (['e', 'f', 'ee', 'ff'], False), (['e', 's'], True)]
ABOUT = ('transcript', 'hashed', 'encrypted', 'decrypted', 'payload', 'message size', 'no token calls for it')


class Msg(c06.M):
    def on_outcome(self, st, ok, action, fn):
        if not ok:
            return
        self.ok += 1
        t = TokenSpec(self, st, fn)
        if not t.run() and any(x in t.fail for x in ABOUT):
            self.eng.report(st, 'message', fn, None, '%s [%s]%s: %s' % ('writing' if self.write else 'reading', ' '.join(self.toks), ', psk' if self.psk else '', t.fail))


def msg_job(item):
    lib, fn, write, toks, flip, psk = item
    r = Result()
    for initiator in (True, False):
        for hk in (True, False):
            m, e = c06.run_message(lib, fn, Msg, write, toks, flip, initiator, psk, False, hk)
            x = engine_result(e, lambda rep: '%s [%s]' % (fn.name, ' '.join(toks)), lib.prog.config)
            r.viol += x.viol[:2]
            r.count('obligations', m.ok)
            r.count('message_paths', m.ok)
    return r


class Same(Prov):
    """hash and chaining key of every symmetric state reachable from a parameter are unchanged at return"""

    def __init__(self, fn, idx):
        super().__init__()
        self.fn, self.idx = fn, idx
        self.ob = 0

    def on_return(self, st, v, fn):
        eng = self.eng
        for i, hs in self.idx:
            p = param(eng, fn, i)
            if eng.decide(st, Pred('eq', p)) is True:
                continue
            o = ef(eng, p, HS, 'symmetric') if hs else p
            for nm, text in (('h', 'transcript hash'), ('ck', 'chaining key')):
                q = ladd(o, K(finfo(eng.prog, SS, nm)[0]))
                self.ob += 1
                if not self.same(st, self.content(st, q, K(64)), ('in', q, K(64))):
                    eng.report(st, 'transcript-writers', fn, None, '%s changes the %s' % (fn.name, text))


def same_job(item):
    lib, f, idx = item
    cl = Same(f, idx)
    e = lib.engine([cl])
    e.run(f)
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    r.viol = r.viol[:2]
    r.count('other_functions')
    r.count('obligations', cl.ob)
    return r


def others(lib):
    out = []
    for f in lib.prog.functions():
        if f.internal or f.name in WRITERS or not f.name.startswith('noise_'):
            continue
        idx = []
        for i, (s, depth, _) in enumerate(f.module.param_types(f)[1:]):
            if s in (SS, HS) and depth == 1:
                idx.append((i, s == HS))
        if idx:
            out.append((lib, f, idx))
    return out


def check(ctx):
    lib = ctx.lib('ref')
    C = symbody
    items = []
    for n, k in (('mix_hash', C.MixHash), ('mix_key', C.MixKey), ('encrypt_and_hash', lambda f: C.Crypt(f, True)), ('decrypt_and_hash', lambda f: C.Crypt(f, False))):
        f = ctx.fn(lib, P + n)
        items.append((lib, f, k(f)))
    ctx.pmap(body_job, items)
    ctx.pmap(init_job, [(lib, ctx.fn(lib, P + 'new_by_id'), False), (lib, ctx.fn(lib, P + 'new_by_name'), False), (lib, ctx.fn(lib, 'noise_handshakestate_fallback_to'), True)])
    ctx.pmap(msg_job, [(lib, entry_fn(ctx, lib, w), w, t, fl, p) for t, fl in MESSAGES for w in (True, False) for p in (True, False)])
    ctx.pmap(same_job, others(lib))
