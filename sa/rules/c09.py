"""C09: split gives each direction its own fresh key, once."""
from ..absint import *
from .. import clients, symbody, symmodels, prov
from ..symbody import SS, P, param
from ..prov import Prov, showterm, HASH, CS
from ..libmodels import gf, ef, finfo, new_object
from ..handshake import HS, const
from ..clients import show
from ..run import Result, engine_result, V, Broken

RULES = [
    'split-keys: on every path of noise_symmetricstate_split that returns success, the first cipher was initialised last with the first and the second cipher with the second HKDF output of exactly the chaining key and empty input, over the full key length, and its nonce is zero; each requested output is a distinct non-null cipher, and one is the cipher of the symmetric state or created by it',
    'split-once: after success the symmetric state has no cipher; every path with no cipher fails; a failing split hands out nothing and leaves the symmetric state usable for another attempt',
    'split-roles: noise_handshakestate_split succeeds only in the split phase and then gives the initiator the first cipher for sending and the second for receiving and the responder the reverse, and ends in the complete phase; on error nothing is handed out and the phase is kept',
    'split-unusable: no operation on a symmetric state without cipher succeeds in mixing, encrypting or decrypting',
]
EXPLANATION = 'content provenance of the keys and outcome of every path of the two split functions, for all combinations of requested outputs and both roles'
MIN = {'split_paths': 3, 'role_paths': 4, 'guarded_functions': 4, 'obligations': 20}
ASSUMPTIONS = ['HKDF outputs of different index differ (cryptographic)']


def word(eng, st, p):
    b, off = eng.base(eng.norm(st, p))
    return eng.norm(st, eng.load_cell(st, b, off, 8, True, 64, None))


class Split(Prov):
    def __init__(self, fn, want):
        super().__init__()
        self.fn, self.want = fn, want
        self.ob = self.good = 0

    def setup(self, eng, st, args):
        self.args = args
        eng.add_ne(st, args[0])
        for a, w in zip(args[1:], self.want):
            (eng.add_ne if w else eng.add_eq)(st, a)
        self.hash, self.cipher = ef(eng, args[0], SS, 'hash'), ef(eng, args[0], SS, 'cipher')
        eng.add_ne(st, self.hash)
        self.hlen, self.klen = ef(eng, self.hash, HASH, 'hash_len'), ef(eng, self.cipher, CS, 'key_len')
        eng.add_ge(st, lsub(K(64), self.hlen))
        eng.add_ge(st, lsub(self.hlen, self.klen))
        eng.add_ge(st, lsub(self.klen, ONE))
        self.ck = ladd(args[0], K(finfo(eng.prog, SS, 'ck')[0]))
        # what the cipher creates has the same algorithm (rule C20)
        return st

    def on_call_done(self, st, c, ret):
        res = super().on_call_done(st, c, ret)
        if c.name == 'slot:NoiseCipherState_s.create':
            out = []
            for s, r in (res if res is not None else [(st, ret)]):
                if self.eng.decide(s, Pred('eq', r)) is False:
                    b, off = self.eng.base(r)
                    o, size = finfo(self.eng.prog, CS, 'key_len')[:2]
                    self.eng.store_cell(s, b, K(o), size, self.klen)
                    s.g['created'] = s.g.get('created', ()) + (r,)
                out.append((s, r))
            return out
        return res

    def fail(self, st, rule, msg):
        self.eng.report(st, rule, self.fn, None, msg)

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            outs = [word(eng, s, a) if w else None for a, w in zip(self.args[1:], self.want)]
            after = gf(eng, s, self.args[0], SS, 'cipher')
            if not ok:
                for o in outs:
                    if o is not None and not eng.prove_eq(s, o):
                        # a created but unused cipher must not be handed out
                        self.fail(s, 'split-once', 'a failing split leaves a cipher in an output')
                if not eng.prove_eq(s, after, self.cipher):
                    self.fail(s, 'split-once', 'a failing split takes the cipher of the symmetric state away')
                continue
            self.good += 1
            if eng.decide(s, Pred('eq', self.cipher)) is not False:
                self.fail(s, 'split-once', 'a symmetric state that was already split can be split again')
            if not eng.prove_eq(s, after):
                self.fail(s, 'split-once', 'the symmetric state keeps its cipher after the split')
            ck = ('in', self.ck, self.hlen)
            keys = {}
            for e in s.g.get('pev', ()):
                if e[0] == 'init':
                    keys[eng.norm(s, e[1])] = (e[2], e[3])
            for i, o in enumerate(outs):
                if o is None:
                    continue
                if eng.decide(s, Pred('eq', o)) is not False:
                    self.fail(s, 'split-keys', 'a successful split may leave output %d null' % (i + 1))
                    continue
                if not (eng.prove_eq(s, o, self.cipher) or any(eng.prove_eq(s, o, x) for x in s.g.get('created', ()))):
                    self.fail(s, 'split-keys', 'output %d is neither the cipher of the symmetric state nor a new one of its kind' % (i + 1))
                k = [x for q, x in keys.items() if eng.prove_eq(s, q, o)]
                if not k:
                    self.fail(s, 'split-keys', 'cipher %d of the split gets no key of its own' % (i + 1))
                    continue
                t, n = k[-1]
                want = ('hkdf', i + 1, ck, ('empty',))
                if not self.same(s, t, want):
                    self.fail(s, 'split-keys', 'the key of cipher %d of the split is %s, not %s' % (i + 1, showterm(eng, t), showterm(eng, want)))
                if not eng.prove_eq(s, gf(eng, s, o, CS, 'n')):
                    self.fail(s, 'split-keys', 'cipher %d of the split may not start with nonce zero' % (i + 1))
                if not eng.prove_eq(s, n, self.klen):
                    self.fail(s, 'split-keys', 'cipher %d of the split does not get a key of full length' % (i + 1))
            if outs[0] is not None and outs[1] is not None and not eng.prove_ne(s, lsub(outs[0], outs[1])) and not self.differ(s, outs):
                self.fail(s, 'split-keys', 'both directions may get the same cipher object')

    def differ(self, s, outs):
        a, b = [self.eng.base(x)[0] for x in outs]
        return a is not None and a != b


def split_model(eng, st, c):
    """success: two distinct ciphers where requested; failure: nulls"""
    good, bad = symmodels.guarded(eng, st, c, (0,), [])
    out = []
    for s in good:
        t = s.fork()
        for i in (1, 2):
            if eng.decide(s, Pred('eq', c.args[i])) is True:
                continue
            y = new_object(eng, s, c)
            s.g['obj%d' % i] = (0, ((y.id, 1),))
            eng.store(s, c.args[i], (0, ((y.id, 1),)), 8, c.inst, c.fn)
            eng.store(t, c.args[i], ZERO, 8, c.inst, c.fn)
        s.g['splits'] = s.g.get('splits', 0) + 1
        out.append((s, ZERO))
        bad.append(t)
    for s in bad:
        r = eng.fresh('err:' + c.name, 'int', 32, 1, (1 << 31) - 1, origin=('ret', c.name))
        s.trail = (s.trail, '%s: %s fails' % (eng.where(c.fn, c.inst), c.name))
        out.append((s, r))
    return out


class Roles:
    def __init__(self, fn, initiator, want):
        self.fn, self.initiator, self.want = fn, initiator, want
        self.ob = self.good = 0

    def setup(self, eng, st, args):
        self.args = args
        eng.add_ne(st, args[0])
        for a, w in zip(args[1:], self.want):
            (eng.add_ne if w else eng.add_eq)(st, a)
        from ..libmodels import sf
        sf(eng, st, args[0], HS, 'role', K(const('NOISE_ROLE_INITIATOR' if self.initiator else 'NOISE_ROLE_RESPONDER')))
        self.action = ef(eng, args[0], HS, 'action')
        self.sym = ef(eng, args[0], HS, 'symmetric')
        eng.add_ne(st, self.sym)
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            act = gf(eng, s, self.args[0], HS, 'action')
            bad = lambda m: eng.report(s, 'split-roles', fn, None, m)
            if not ok:
                if not eng.prove_eq(s, act, self.action):
                    bad('a failing split changes the phase of the handshake')
                continue
            self.good += 1
            if not eng.prove_eq(s, self.action, K(const('NOISE_ACTION_SPLIT'))):
                bad('the handshake can be split outside the split phase')
            if not eng.prove_eq(s, act, K(const('NOISE_ACTION_COMPLETE'))):
                bad('a successful split does not end in the complete phase')
            if s.g.get('splits') != 1:
                bad('a successful split does not split the symmetric state exactly once')
            order = (1, 2) if self.initiator else (2, 1)
            for i, (a, w) in enumerate(zip(self.args[1:], self.want)):
                if not w:
                    continue
                got = word(eng, s, a)
                want = s.g.get('obj%d' % order[i])
                if want is None or not eng.prove_eq(s, got, want):
                    bad('the %s does not %s with the %s cipher of the split' % ('initiator' if self.initiator else 'responder',
                                                                              'receive' if i else 'send', 'first' if order[i] == 1 else 'second'))


class Guard:
    """a symmetric state without a cipher refuses the operation"""

    def __init__(self, fn):
        self.fn = fn
        self.ob = 0

    def setup(self, eng, st, args):
        eng.add_ne(st, args[0])
        eng.add_eq(st, ef(eng, args[0], SS, 'cipher'))
        return st

    def on_return(self, st, v, fn):
        self.ob += 1
        if self.eng.decide(st, Pred('eq', v)) is not False:
            self.eng.report(st, 'split-unusable', fn, None, '%s may succeed on a symmetric state that has been split' % fn.name)


COMBOS = [(True, True), (True, False), (False, True), (False, False)]


def job(item):
    lib, kind, f, a = item
    if kind == 'split':
        cl = Split(f, a)
        e = lib.engine([cl], override=symmodels.kdf_models(), inline=symbody.INLINE)
    elif kind == 'roles':
        cl = Roles(f, *a)
        e = lib.engine([cl], override={'noise_symmetricstate_split': split_model})
    else:
        cl = Guard(f)
        e = lib.engine([cl], override=symmodels.kdf_models(), inline=[n for n in symbody.INLINE if n != f.name])
    e.run(f, cl.setup)
    r = engine_result(e, lambda rep: '%s %s' % (f.name, a), lib.prog.config)
    r.count('obligations', cl.ob)
    if kind == 'guard':
        r.count('guarded_functions')
    else:
        some = a if kind == 'split' else a[1]
        if some != (False, False) and not cl.good and not r.viol:
            raise Broken('%s never succeeds' % f.name)
        r.count('split_paths' if kind == 'split' else 'role_paths', cl.good)
    return r


def check(ctx):
    lib = ctx.lib('ref')
    f, g = ctx.fn(lib, P + 'split'), ctx.fn(lib, 'noise_handshakestate_split')
    items = [(lib, 'split', f, w) for w in COMBOS]
    items += [(lib, 'roles', g, (i, w)) for i in (True, False) for w in COMBOS]
    items += [(lib, 'guard', ctx.fn(lib, P + n), None) for n in ('mix_hash', 'mix_key', 'encrypt_and_hash', 'decrypt_and_hash', 'split')]
    ctx.pmap(job, items)
