"""C04: the phases of a handshake object: who may do what when, failure is terminal, one split."""
from ..absint import *
from .. import handshake, symmodels, clients
from ..handshake import Message, HS, SS, DHS, const, entry_fn
from ..libmodels import gf, sf, ef, finfo
from ..run import Result, engine_result, V, Broken
from .c09 import split_model

RULES = [
    'message-turn: write_message (read_message) returns success only if the phase was write (read); it then leaves the phase of the other direction when the token string turns around and the split phase when it ends, and the token cursor on the first token of the next message',
    'message-failure: when write_message/read_message returns an error, the phase is failed, or it is what it was and no token had been looked at, no key or transcript operation had been done and the token cursor had not moved; out of turn the phase never changes; an unknown token is an error',
    'start-phase: noise_handshakestate_start succeeds only in the initial phase and then the initiator is to write and the responder to read; on error the phase is kept',
    'split-phase: noise_handshakestate_split succeeds only in the split phase and ends in the complete phase; on error the phase is kept',
    'fallback-phase: noise_handshakestate_fallback and fallback_to succeed only for a pattern that allows falling back, as initiator waiting for the reply or failed, as responder about to reply or failed, with the ephemeral public keys (and hybrid ones if used) of the first message present; they then return to the initial phase with roles exchanged; on error phase, role and token cursor are kept',
    'phase-owners: no other public function that takes a handshake object changes its phase or its token cursor; get_action reports the phase',
]
EXPLANATION = 'typestate of NoiseHandshakeState.action over every path of every public function that takes a handshake object, for each phase, role and relevant token string'
MIN = {'message_runs': 16, 'phase_runs': 60, 'frame_functions': 12, 'obligations': 250}
ASSUMPTIONS = []
A = ['NONE', 'WRITE_MESSAGE', 'READ_MESSAGE', 'FAILED', 'SPLIT', 'COMPLETE']
INITIAL = ((), ('e',), ('e', 'ee'), ('e', 's', 'ss'), ('e', 'f', 'ee', 'ff'))


def action(n):
    return K(const('NOISE_ACTION_' + n))


class M(Message):
    unknown = False

    def setup(self, eng, st, args):
        st = super().setup(eng, st, args)
        self.act0 = ef(eng, args[0], HS, 'action')
        self.tokbase = eng.base(self.tok)[0]
        if self.unknown:
            st.mem[self.tokbase].cells[(0, 1)] = K(0x63)
        return st

    def on_load(self, st, b, off, size, v, inst, fn):
        if b == self.tokbase and 'ev' in st.g:
            st.g['tok'] = True

    def on_outcome(self, st, ok, action1, fn):
        eng = self.eng
        me, other = ('WRITE_MESSAGE', 'READ_MESSAGE') if self.write else ('READ_MESSAGE', 'WRITE_MESSAGE')
        what = '%s [%s] as %s: ' % ('writing' if self.write else 'reading', ' '.join(self.toks), 'initiator' if self.initiator else 'responder')
        def bad(rule, m):
            eng.report(st, rule, fn, None, what + m)
        if action1 is None:
            return
        toks = gf(eng, st, self.state, HS, 'tokens')
        if ok:
            self.ok += 1
            if self.unknown:
                bad('message-failure', 'success although the token is unknown')
            if not eng.prove_eq(st, self.act0, action(me)):
                bad('message-turn', 'success although it may not be this side\'s turn')
            if not eng.prove_eq(st, action1, action(other if self.flip else 'SPLIT')):
                bad('message-turn', 'the phase afterwards is not %s' % (other if self.flip else 'SPLIT'))
            n = len(self.toks) + (1 if self.flip else 0)
            if self.flip and not eng.prove_eq(st, toks, ladd(self.tok, K(n))):
                bad('message-turn', 'the token cursor is not on the next message')
            return
        if eng.prove_eq(st, action1, action('FAILED')) and (st.g.get('tok') or eng.prove_eq(st, self.act0, action(me))):
            if eng.decide(st, Pred('eq', lsub(self.act0, action(me)))) is not True:
                bad('message-failure', 'the handshake fails although it is not this side\'s turn')
            return
        if not eng.prove_eq(st, action1, self.act0):
            bad('message-failure', 'after an error the phase is neither failed nor what it was')
        elif st.g.get('tok') or any(e[0] != 'copy' for e in st.g['ev']):
            bad('message-failure', 'processing the message started and failed but the handshake did not move to the failed phase')
        elif not eng.prove_eq(st, toks, self.tok):
            bad('message-failure', 'the token cursor moved but the handshake did not move to the failed phase')


class MU(M):
    unknown = True


def message_job(item):
    lib, write, toks, flip, initiator, unknown = item
    fn = lib.prog.ext['noise_handshakestate_write_message' if write else 'noise_handshakestate_read_message']
    m = (MU if unknown else M)(fn, write, toks, flip, const('NOISE_ROLE_INITIATOR' if initiator else 'NOISE_ROLE_RESPONDER'), initiator, psk='s' in toks, fixed=False if 'f' in toks else None)
    e = lib.engine([m], override=symmodels.models(), inline=['noise_symmetricstate_get_mac_length', 'noise_cipherstate_get_mac_length'])
    e.run(fn, m.setup)
    r = engine_result(e, lambda rep: '%s [%s]' % (fn.name, ' '.join(toks)), lib.prog.config)
    if not m.ok and not r.viol and not unknown:
        r.viol.append(V('message-turn', '%s:%s' % (fn.module.name, fn.name), '%s [%s]' % (fn.name, ' '.join(toks)), 'no path of %s succeeds' % fn.name, [], lib.prog.config))
    r.count('obligations', m.ob)
    r.count('message_runs')
    return r


class Phase(clients.ErrFork):
    """one function in one concrete configuration; expect(ok)"""

    def __init__(self, fn, rule, act, initiator, fields=(), keys=(), may=True, after=None, hybrid=None):
        super().__init__()
        self.fn, self.rule, self.act, self.initiator, self.fields, self.keys = fn, rule, act, initiator, fields, keys
        self.may, self.after, self.hybrid = may, after, hybrid
        self.ob = self.good = 0

    def setup(self, eng, st, args):
        s = args[0]
        self.state = s
        eng.add_ne(st, s)
        sf(eng, st, s, HS, 'action', K(0x4177) if self.act is None else action(self.act))
        self.role0 = K(const('NOISE_ROLE_INITIATOR' if self.initiator else 'NOISE_ROLE_RESPONDER'))
        sf(eng, st, s, HS, 'role', self.role0)
        for n, v in self.fields:
            sf(eng, st, s, HS, n, K(v))
        for n, v in self.keys:
            k = ef(eng, s, HS, n)
            if v is None:
                eng.add_eq(st, k)
            else:
                eng.add_ne(st, k)
                sf(eng, st, k, DHS, 'key_type', K(v))
        self.act0 = gf(eng, st, s, HS, 'action')
        self.tok0 = ef(eng, s, HS, 'tokens')
        return st

    def bad(self, st, m):
        self.eng.report(st, self.rule, self.fn, None, '%s as %s in phase %s%s: %s' % (
            self.fn.name, 'initiator' if self.initiator else 'responder', self.act or 'unknown',
            ''.join(', %s=%s' % x for x in tuple(self.fields) + tuple(self.keys)), m))

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            act = gf(eng, s, self.state, HS, 'action')
            role = gf(eng, s, self.state, HS, 'role')
            if not ok:
                if not eng.prove_eq(s, act, self.act0):
                    self.bad(s, 'the phase changes although an error is returned')
                if not eng.prove_eq(s, role, self.role0):
                    self.bad(s, 'the role changes although an error is returned')
                if not eng.prove_eq(s, gf(eng, s, self.state, HS, 'tokens'), self.tok0):
                    self.bad(s, 'the token cursor moves although an error is returned')
                continue
            self.good += 1
            if not self.may:
                self.bad(s, 'it must be refused but can succeed')
                continue
            if not eng.prove_eq(s, act, action(self.after)):
                self.bad(s, 'the phase afterwards is not %s' % self.after)
            if self.rule == 'fallback-phase':
                if not eng.prove_eq(s, role, K(const('NOISE_ROLE_RESPONDER' if self.initiator else 'NOISE_ROLE_INITIATOR'))):
                    self.bad(s, 'the roles are not exchanged')


def phase_job(item):
    lib, fn, kw = item
    p = Phase(fn, **kw)
    ov = symmodels.models()
    if fn.name == 'noise_handshakestate_split':
        ov['noise_symmetricstate_split'] = split_model
    e = lib.engine([p], override=ov, inline=['noise_handshakestate_fallback_to'])
    e.run(fn, p.setup)
    r = engine_result(e, lambda rep: fn.name, lib.prog.config)
    if kw['may'] and not p.good and not r.viol:
        r.viol.append(V(p.rule, '%s:%s' % (fn.module.name, fn.name), fn.name, '%s never succeeds in phase %s as %s' % (
            fn.name, p.act, 'initiator' if p.initiator else 'responder'), [], lib.prog.config))
    r.count('obligations', p.ob)
    r.count('phase_runs')
    return r


class Frame:
    def __init__(self, fn, idx):
        self.fn, self.idx = fn, idx
        self.ob = 0

    def setup(self, eng, st, args):
        self.state = args[self.idx]
        self.f0 = {n: ef(eng, self.state, HS, n) for n in ('action', 'tokens')}
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        self.ob += 1
        if eng.decide(st, Pred('eq', self.state)) is True:
            return
        for n, x in self.f0.items():
            if not eng.prove_eq(st, gf(eng, st, self.state, HS, n), x):
                eng.report(st, 'phase-owners', fn, None, '%s changes the %s of the handshake' % (fn.name, 'phase' if n == 'action' else 'token cursor'))
        if fn.name == 'noise_handshakestate_get_action' and eng.decide(st, Pred('eq', self.state)) is False:
            if not eng.prove_eq(st, v, self.f0['action']):
                eng.report(st, 'phase-owners', fn, None, 'get_action does not report the phase')


def frame_job(item):
    lib, fn, idx = item
    p = Frame(fn, idx)
    e = lib.engine([p], override=symmodels.models())
    e.run(fn, p.setup)
    r = engine_result(e, lambda rep: fn.name, lib.prog.config)
    r.count('obligations', p.ob)
    r.count('frame_functions')
    return r


def check(ctx):
    lib = ctx.lib('ref')
    P = 'noise_handshakestate_'
    for w in (True, False):
        entry_fn(ctx, lib, w)
    items = []
    for w in (True, False):
        for t in INITIAL:
            for flip in (True, False):
                for i in (True, False):
                    items.append((lib, w, t, flip, i, False))
        items.append((lib, w, ('e',), False, True, True))
    ctx.pmap(message_job, items)
    items = []
    start, split = ctx.fn(lib, P + 'start'), ctx.fn(lib, P + 'split')
    fb, fbt = ctx.fn(lib, P + 'fallback'), ctx.fn(lib, P + 'fallback_to')
    for i in (True, False):
        for a in A + [None]:
            items.append((lib, start, dict(rule='start-phase', act=a, initiator=i, may=a == 'NONE', after='WRITE_MESSAGE' if i else 'READ_MESSAGE')))
            items.append((lib, split, dict(rule='split-phase', act=a, initiator=i, may=a == 'SPLIT', after='COMPLETE')))
            mine = 'local' if i else 'remote'
            for f in (fb, fbt):
                okp = a in (('FAILED', 'READ_MESSAGE') if i else ('FAILED', 'WRITE_MESSAGE'))
                for req in (64, 0x3f):
                    for e in (0, 1, 2):
                        for h in (None, 0, 1):
                            if (req != 64 or e == 0) and h != 1:
                                continue
                            items.append((lib, f, dict(rule='fallback-phase', act=a, initiator=i, after='NONE', fields=(('requirements', req),),
                                                       keys=(('dh_%s_ephemeral' % mine, e), ('dh_%s_hybrid' % mine, h)),
                                                       may=okp and req == 64 and e != 0 and h != 0)))
    ctx.pmap(phase_job, items)
    own = {P + n for n in ('start', 'split', 'fallback', 'fallback_to', 'write_message', 'read_message', 'free')}
    items = []
    for n, f in sorted(lib.prog.ext.items()):
        if n in own:
            continue
        pt = f.module.param_types(f)[1:]
        for k, x in enumerate(pt):
            if x and x[0] == HS and x[1] == 1:
                items.append((lib, f, k))
    ctx.pmap(frame_job, items)
