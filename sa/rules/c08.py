"""C08: what must be there before a handshake starts, and what the transcript is when it has."""
from ..absint import *
from .. import symmodels, clients
from ..prov import Prov, showterm, HASH, INLINE
from ..handshake import HS, SS, DHS, const
from ..libmodels import gf, sf, ef, finfo
from ..run import Result, engine_result, V, Broken
from . import c07
from .c07 import table, uses, requirements, PID

RULES = [
    'start-keys: for every pattern, role, prefix and (for fallback patterns) with and without a preceding fallback, each successful path of noise_handshakestate_start has established that every required local static key pair, remote static public key and pre-shared key is present, and fallback patterns start only after a fallback; a failing path has changed neither hash nor chaining key',
    'start-prelude: on success the transcript hash and the chaining key are exactly the fold of prologue (possibly empty), pre-shared key and pre-message public keys in the order of the specification: initiator\'s before responder\'s, static or ephemeral (then hybrid, then with a pre-shared key the ephemeral into the chaining key)',
    'psk-set: noise_handshakestate_set_pre_shared_key succeeds only for 32 bytes, before the start, in a pre-shared key protocol, and then has stored exactly those bytes and that length; prologue-set: set_prologue succeeds only before the start and then has stored exactly the given bytes and length',
    'key-report: needs_* and has_* report exactly the requirement flags and the presence of the keys that start tests',
]
EXPLANATION = 'content provenance of hash and chaining key over every path of noise_handshakestate_start for each concrete requirement word a pattern can have'
MIN = {'starts': 200, 'successful_paths': 200, 'setters': 3, 'reporters': 6, 'obligations': 1500}
ASSUMPTIONS = ['after a fallback the ephemeral (and hybrid) public key of the first message is present (C07 fallback-pattern, C04 fallback-phase)',
               'MixHash and MixKey do what C06 and C10 check']


class StartProv(Prov):
    """mix_hash and mix_key write their specified result"""

    def on_call(self, st, c):
        super().on_call(st, c)
        n = c.name
        if n in ('noise_symmetricstate_mix_hash', 'noise_symmetricstate_mix_key'):
            eng = self.eng
            ha = gf(eng, st, c.args[0], SS, 'hash')
            hl = gf(eng, st, ha, HASH, 'hash_len')
            t = self.content(st, c.args[1], c.args[2])
            h = ladd(c.args[0], K(finfo(eng.prog, SS, 'h')[0]))
            ck = ladd(c.args[0], K(finfo(eng.prog, SS, 'ck')[0]))
            if n.endswith('hash'):
                c.prov = [(h, hl, mixhash(self.content(st, h, hl), t))]
            else:
                c.prov = [(ck, hl, ('hkdf', 1, self.content(st, ck, hl), t))]


def mixhash(h, t):
    return ('hash', (h,) + (() if t == ('empty',) else (t,)))


class Start(StartProv):
    def __init__(self, fn, entry, initiator, psk, after_fallback, prologue, hybrid):
        super().__init__()
        self.fn, self.entry, self.initiator, self.psk, self.fb, self.prologue, self.hybrid = fn, entry, initiator, psk, after_fallback, prologue, hybrid
        self.ob = self.good = 0

    def what(self):
        return '%s as %s%s%s%s' % (self.entry[0][14:], 'initiator' if self.initiator else 'responder', ' psk' if self.psk else '',
                                   ' after a fallback' if self.fb else '', ' with prologue' if self.prologue else '')

    def setup(self, eng, st, args):
        s = self.state = args[0]
        eng.add_ne(st, s)
        sym = self.sym = ef(eng, s, HS, 'symmetric')
        eng.add_ne(st, sym)
        self.hash = ef(eng, sym, SS, 'hash')
        eng.add_ne(st, self.hash)
        eng.add_ne(st, ef(eng, sym, SS, 'cipher'))
        self.hl = ef(eng, self.hash, HASH, 'hash_len')
        eng.add_ge(st, lsub(K(64), self.hl))
        eng.add_ge(st, lsub(self.hl, ONE))
        idoff = finfo(eng.prog, SS, 'id')[0]
        for k, x in (('pattern_id', self.entry[1]), ('prefix_id', const('NOISE_PREFIX_PSK') if self.psk else const('NOISE_PREFIX_STANDARD'))):
            off, size = finfo(eng.prog, PID, k)[:2]
            eng.store_cell(st, eng.base(sym)[0], K(idoff + off), size, K(x))
        sf(eng, st, s, HS, 'action', K(const('NOISE_ACTION_NONE')))
        sf(eng, st, s, HS, 'role', K(const('NOISE_ROLE_INITIATOR' if self.initiator else 'NOISE_ROLE_RESPONDER')))
        w = requirements(self.entry[2], self.initiator, self.psk, self.fb)
        if not self.fb and 's' in self.entry[2][1][1]:
            w |= const('NOISE_REQ_FALLBACK_POSSIBLE')
        sf(eng, st, s, HS, 'requirements', K(w))
        self.pskp = ladd(s, K(finfo(eng.prog, HS, 'pre_shared_key')[0]))
        self.psklen = ef(eng, s, HS, 'pre_shared_key_len')
        if not self.psk:
            eng.add_eq(st, self.psklen)
        self.prolen = ef(eng, s, HS, 'prologue_len')
        (eng.add_ne if self.prologue else eng.add_eq)(st, self.prolen)
        self.prop = ef(eng, s, HS, 'prologue')
        (eng.add_ne if self.prologue else eng.add_eq)(st, self.prop)
        u = uses(self.entry[2])
        self.key = {}
        for kn in c07.KEYS:
            side, kind = kn.split('_')[1:]
            party = 0 if (side == 'local') == self.initiator else 1
            p = ef(eng, s, HS, kn)
            k = c07.KIND[kind]
            used = (party, k) in u or (k == 'f' and self.hybrid)
            (eng.add_ne if used else eng.add_eq)(st, p)
            self.key[(party, k)] = p
            if used:
                eng.add_ne(st, ef(eng, p, DHS, 'public_key'))
            if used and self.fb and k in 'ef' and self.premsg(party, k):
                eng.add_ne(st, ef(eng, p, DHS, 'key_type'))
        self.h = ladd(sym, K(finfo(eng.prog, SS, 'h')[0]))
        self.ck = ladd(sym, K(finfo(eng.prog, SS, 'ck')[0]))
        return st

    def premsg(self, party, k):
        pre = self.entry[2][1][party]
        return k in pre or (k == 'f' and 'e' in pre and self.hybrid)

    def bad(self, st, rule, m):
        self.eng.report(st, rule, self.fn, None, '%s: %s' % (self.what(), m))

    def on_return(self, st, v, fn):
        eng = self.eng
        h0, ck0 = ('in', self.h, self.hl), ('in', self.ck, self.hl)
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            h, ck = self.content(s, self.h, self.hl), self.content(s, self.ck, self.hl)
            if not ok:
                if not self.same(s, h, h0) or not self.same(s, ck, ck0):
                    self.bad(s, 'start-keys', 'an error is returned although the transcript has changed')
                continue
            self.good += 1
            self.ob += 5
            spec = self.entry[2]
            me = 0 if self.initiator else 1
            if 'fallback' in spec[0][0] and not self.fb:
                self.bad(s, 'start-keys', 'a fallback pattern starts without a fallback')
                continue
            u = uses(spec)
            if (me, 's') in u and not eng.prove_eq(s, ef(eng, self.key[(me, 's')], DHS, 'key_type'), K(const('NOISE_KEY_TYPE_KEYPAIR'))):
                self.bad(s, 'start-keys', 'it starts without the local static key pair')
            if 's' in spec[1][1 - me] and not eng.prove_ne(s, ef(eng, self.key[(1 - me, 's')], DHS, 'key_type')):
                self.bad(s, 'start-keys', 'it starts without the remote static public key')
            if self.psk and not eng.prove_ne(s, self.psklen):
                self.bad(s, 'start-keys', 'it starts without the pre-shared key')
            eh, ec = mixhash(h0, ('in', self.prop, self.prolen) if self.prologue else ('empty',)), ck0
            if self.psk:
                p = ('in', self.pskp, self.psklen)
                eh = mixhash(eh, ('hkdf', 2, ec, p))
                ec = ('hkdf', 1, ec, p)
            for party in (0, 1):
                for k in 'efs':
                    if not self.premsg(party, k):
                        continue
                    d = self.key[(party, k)]
                    t = ('in', ef(eng, d, DHS, 'public_key'), ef(eng, d, DHS, 'public_key_len'))
                    if eng.prove_eq(s, t[2]):
                        t = ('empty',)
                    eh = mixhash(eh, t)
                    if k == 'e' and self.psk:
                        ec = ('hkdf', 1, ec, t)
            if not self.same(s, h, eh):
                self.bad(s, 'start-prelude', 'the transcript hash is %s, not %s' % (showterm(eng, h), showterm(eng, eh)))
            if not self.same(s, ck, ec):
                self.bad(s, 'start-prelude', 'the chaining key is %s, not %s' % (showterm(eng, ck), showterm(eng, ec)))


KEYM = ['noise_dhstate_has_public_key', 'noise_dhstate_has_keypair']


def start_job(item):
    lib, entry = item
    fn = lib.prog.ext['noise_handshakestate_start']
    out = Result()
    fbp = 'fallback' in entry[2][0][0]
    for initiator in (True, False):
        for psk in (True, False):
            for fb in ((True, False) if fbp else (False,)):
                for pro in (True, False):
                    for hy in ((entry[2][0][2],) if not fb or entry[2][0][2] else (True, False)):
                        m = Start(fn, entry, initiator, psk, fb, pro, hy)
                        e = lib.engine([m], override=dict(symmodels.models(), **symmodels.kdf_models()), inline=INLINE + KEYM + ['noise_hashstate_get_hash_length'])
                        e.run(fn, m.setup)
                        out.merge(engine_result(e, lambda rep: m.what(), lib.prog.config))
                        may = not fbp or fb
                        if may and not m.good:
                            out.viol.append(V('start-keys', '%s:%s' % (fn.module.name, fn.name), m.what(), '%s never starts' % m.what(), [], lib.prog.config))
                        out.count('starts')
                        out.count('successful_paths', m.good)
                        out.count('obligations', m.ob)
    return out


class SetPsk(Prov):
    rule = 'psk-set'
    FIELD = ('pre_shared_key', 'pre_shared_key_len')

    def __init__(self, fn):
        super().__init__()
        self.fn = fn
        self.ob = self.good = 0

    def setup(self, eng, st, args):
        self.args = args
        eng.add_ne(st, args[0])
        s = args[0]
        sym = ef(eng, s, HS, 'symmetric')
        eng.add_ne(st, sym)
        o = finfo(eng.prog, SS, 'id')[0] + finfo(eng.prog, PID, 'prefix_id')[0]
        y = eng.newsym(('lazy', eng.base(sym)[0], o, 4, 'int', ()), 'symmetric->id.prefix_id', 'int', 32)
        self.prefix = (0, ((y.id, 1),))
        return st

    def bad(self, st, m):
        self.eng.report(st, self.rule, self.fn, None, '%s: %s' % (self.fn.name, m))

    def ptr(self, s):
        return ladd(self.args[0], K(finfo(self.eng.prog, HS, 'pre_shared_key')[0]))

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            n1 = gf(eng, s, self.args[0], HS, self.FIELD[1])
            if not ok:
                self.failing(s, n1)
                continue
            self.good += 1
            if not eng.prove_eq(s, ef(eng, self.args[0], HS, 'action'), K(const('NOISE_ACTION_NONE'))):
                self.bad(s, 'accepted although the handshake has started')
            if not eng.prove_eq(s, n1, self.args[2]):
                self.bad(s, 'the stored length is not the given length')
            self.more(s)
            if not eng.prove_eq(s, self.args[2]):
                t = self.content(s, self.ptr(s), self.args[2])
                if not self.same(s, t, ('in', self.args[1], self.args[2])):
                    self.bad(s, 'what is stored is %s, not exactly the given bytes' % showterm(eng, t))

    def failing(self, s, n1):
        if not self.eng.prove_eq(s, n1, ef(self.eng, self.args[0], HS, self.FIELD[1])):
            self.bad(s, 'the stored length changes although an error is returned')
        p = self.ptr(s)
        if not self.same(s, self.content(s, p, K(32)), ('in', p, K(32))):
            self.bad(s, 'the stored key changes although an error is returned')

    def more(self, s):
        eng = self.eng
        if not eng.prove_eq(s, self.args[2], K(32)):
            self.bad(s, 'accepted although the length is not 32')
        if not eng.prove_eq(s, self.prefix, K(const('NOISE_PREFIX_PSK'))):
            self.bad(s, 'accepted although the protocol uses no pre-shared key')


class SetPrologue(SetPsk):
    rule = 'prologue-set'
    FIELD = ('prologue', 'prologue_len')

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        # object invariant, kept by this function: no buffer iff no bytes
        p, n = ef(eng, args[0], HS, 'prologue'), ef(eng, args[0], HS, 'prologue_len')
        for x in (p, n):
            (eng.add_ne if self.before else eng.add_eq)(st, x)
        return st

    def ptr(self, s):
        return gf(self.eng, s, self.args[0], HS, 'prologue')

    def failing(self, s, n1):
        eng = self.eng
        p1 = self.ptr(s)
        if not eng.prove_eq(s, n1, ef(eng, self.args[0], HS, 'prologue_len')) and not (eng.prove_eq(s, n1) and eng.prove_eq(s, p1)):
            self.bad(s, 'after an error the length and the buffer do not belong together')

    def more(self, s):
        eng = self.eng
        n = eng.decide(s, Pred('eq', self.args[2]))
        p = eng.decide(s, Pred('eq', self.ptr(s)))
        if n is None or n != p:
            self.bad(s, 'a buffer is stored for an empty prologue or none for a non-empty one')


def set_job(item):
    lib, fn, cls, before = item
    m = cls(fn)
    m.before = before
    e = lib.engine([m])
    e.run(fn, m.setup)
    r = engine_result(e, lambda rep: fn.name, lib.prog.config)
    if not m.good:
        raise Broken('%s never succeeds' % fn.name)
    r.count('setters')
    r.count('obligations', m.ob)
    return r


class Report:
    """needs_/has_: decided for each concrete combination"""

    def __init__(self, fn, kind, what, flag, have):
        self.fn, self.kind, self.what, self.flag, self.have = fn, kind, what, flag, have
        self.ob = 0

    def setup(self, eng, st, args):
        s = args[0]
        eng.add_ne(st, s)
        req = {'local': 'NOISE_REQ_LOCAL_REQUIRED', 'remote': 'NOISE_REQ_REMOTE_REQUIRED', 'psk': 'NOISE_REQ_PSK'}[self.what]
        m = const(req)
        sf(eng, st, s, HS, 'requirements', K(m if self.flag else 0x7f & ~m))
        if self.what == 'psk':
            (eng.add_ne if self.have else eng.add_eq)(st, ef(eng, s, HS, 'pre_shared_key_len'))
            sym = ef(eng, s, HS, 'symmetric')
            eng.add_ne(st, sym)
            o = finfo(eng.prog, SS, 'id')[0] + finfo(eng.prog, PID, 'prefix_id')[0]
            eng.store_cell(st, eng.base(sym)[0], K(o), 4, K(const('NOISE_PREFIX_PSK' if self.flag else 'NOISE_PREFIX_STANDARD')))
        else:
            p = ef(eng, s, HS, 'dh_%s_static' % self.what)
            eng.add_ne(st, p)
            sf(eng, st, p, DHS, 'key_type', K((1 if self.what == 'local' else 2) if self.have else 0))
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        self.ob += 1
        want = self.have if self.kind == 'has' else self.flag and not self.have
        for s, tv in eng.split(st, v if isinstance(v, Pred) else Pred('eq', v)):
            zero = tv != isinstance(v, Pred)
            if zero == want:
                eng.report(s, 'key-report', fn, None, '%s reports %s when the key is %srequired and %s' % (
                    fn.name, 'no' if zero else 'yes', '' if self.flag else 'not ', 'present' if self.have else 'absent'))


REPORTS = {'needs_local_keypair': ('needs', 'local'), 'has_local_keypair': ('has', 'local'), 'needs_remote_public_key': ('needs', 'remote'),
           'has_remote_public_key': ('has', 'remote'), 'needs_pre_shared_key': ('needs', 'psk'), 'has_pre_shared_key': ('has', 'psk')}


def report_job(item):
    lib, fn, kind, what = item
    out = Result()
    for flag in (True, False):
        for have in (True, False):
            if what == 'psk' and have and not flag:
                continue
            m = Report(fn, kind, what, flag, have)
            e = lib.engine([m], inline=KEYM)
            e.run(fn, m.setup)
            out.merge(engine_result(e, lambda rep: fn.name, lib.prog.config))
            out.count('obligations', m.ob)
    out.count('reporters')
    return out


def check(ctx):
    lib = ctx.lib('ref')
    P = 'noise_handshakestate_'
    ctx.fn(lib, P + 'start')
    ctx.pmap(start_job, [(lib, e) for e in table()])
    ctx.pmap(set_job, [(lib, ctx.fn(lib, P + 'set_pre_shared_key'), SetPsk, False)] +
             [(lib, ctx.fn(lib, P + 'set_prologue'), SetPrologue, b) for b in (True, False)])
    ctx.pmap(report_job, [(lib, ctx.fn(lib, P + n), k, w) for n, (k, w) in REPORTS.items()])
