"""C06: for every message of every pattern, what writing and reading it does to keys and transcript is what its tokens mean."""
from ..absint import *
from .. import handshake, noisespec, symmodels, symbody, prov
from ..handshake import Message, TokenSpec, const, entry_fn
from ..run import Result, engine_result, V, Broken

RULES = [
    'token-sequence: for every message of every pattern of the specification (and its noidh and hfs variants), written and read, as initiator and as responder, with and without a pre-shared key, with and without a cipher key, every path of write_message/read_message that returns success performs on the transcript, in order, exactly the operations of its tokens: fresh key generated/hashed for "e", key encrypted-and-hashed for "s" and "f", one key exchange with the local and remote key the token and the role select followed by mixing the whole shared secret for "ee" "es" "se" "ss" "ff", the hybrid key of an "f" given the role that its place in the exchange selects, the ephemeral mixed into the chaining key iff a pre-shared key is used, then the payload; at the message positions the sizes dictate; no other operation touches the transcript and no other key changes',
    'mix-hash: MixHash sets the transcript hash to the hash of itself and exactly the input and changes nothing else',
    'mix-key: MixKey replaces the chaining key by the first and initialises the cipher with the second HKDF output of chaining key and exactly the input',
]
EXPLANATION = ('abstract interpretation of noise_handshakestate_write_message/read_message on each token string of an independent transcription of '
               'the specification; the events of each successful path are matched against the meaning of the tokens; no path is executed')
MIN = {'messages': 60, 'successful_paths': 600, 'tokens_matched': 1500, 'bodies': 2}
ASSUMPTIONS = ['noise_dhstate_* calls made by the token interpreter do what C17 and C20 check; HKDF is what C26 checks']


class M(Message):
    def on_outcome(self, st, ok, action, fn):
        if not ok:
            return
        self.ok += 1
        t = TokenSpec(self, st, fn)
        if not t.run():
            self.eng.report(st, 'token-sequence', fn, None, '%s [%s] as %s%s: %s' % (
                'writing' if self.write else 'reading', ' '.join(self.toks), 'initiator' if self.initiator else 'responder',
                ', psk' if self.psk else '', t.fail))


def run_message(lib, fn, cls, write, toks, flip, initiator, psk, fixed, hk):
    m = cls(fn, write, toks, flip, const('NOISE_ROLE_INITIATOR' if initiator else 'NOISE_ROLE_RESPONDER'), initiator, psk, fixed, hk)
    e = lib.engine([m], override=symmodels.models(), inline=['noise_symmetricstate_get_mac_length', 'noise_cipherstate_get_mac_length'])
    e.run(fn, m.setup)
    return m, e


def job(item):
    lib, write, toks, flip = item
    fn = lib.prog.ext['noise_handshakestate_write_message' if write else 'noise_handshakestate_read_message']
    out = Result()
    n = 0
    for initiator in (True, False):
        for psk in (True, False):
            for fixed in ((True, False) if write and ('e' in toks or 'f' in toks) else (False,)):
                for hk in (True, False):
                    m, e = run_message(lib, fn, M, write, toks, flip, initiator, psk, fixed, hk)
                    r = engine_result(e, lambda rep: '%s [%s] %s' % ('write' if write else 'read', ' '.join(toks), 'initiator' if initiator else 'responder'), lib.prog.config)
                    out.viol += r.viol[:3]
                    if not m.ok and not r.viol:
                        out.viol.append(V('token-sequence', '%s:%s' % (fn.module.name, fn.name), '%s [%s] no success' % ('write' if write else 'read', ' '.join(toks)),
                                          'no path of %s succeeds on the message [%s]' % (fn.name, ' '.join(toks)), [], lib.prog.config))
                    out.count('obligations', m.ok)
                    out.count('successful_paths', m.ok)
                    out.count('tokens_matched', m.ops)
                    out.count('interpretations')
    out.count('messages')
    return out


def body_job(item):
    lib, f, cl = item
    e = symbody.run_body(lib, f, cl)
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    if not cl.good:
        raise Broken('%s never succeeds' % f.name)
    r.count('bodies')
    r.count('obligations', cl.ob)
    return r


def check(ctx):
    lib = ctx.lib('ref')
    for w in (True, False):
        entry_fn(ctx, lib, w)
    ms = noisespec.messages()
    ctx.pmap(job, [(lib, w, toks, flip) for toks, flip in sorted(ms, key=lambda x: -len(x[0])) for w in (True, False)])
    P = symbody.P
    ctx.pmap(body_job, [(lib, ctx.fn(lib, P + 'mix_hash'), symbody.MixHash(ctx.fn(lib, P + 'mix_hash'))),
                        (lib, ctx.fn(lib, P + 'mix_key'), symbody.MixKey(ctx.fn(lib, P + 'mix_key')))])
