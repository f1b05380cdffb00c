"""C07: the message patterns, pre-messages and key requirements of every pattern the library accepts."""
from ..absint import *
from .. import noisespec, clients, symmodels
from ..handshake import HS, SS, DHS, const
from ..noisespec import DH, patterns
from ..libmodels import gf, sf, ef, finfo, new_object
from ..run import Result, engine_result, V, Broken
from .. import handshake

RULES = [
    'pattern-tokens: for every pattern identifier, both roles, both prefixes, both constructors, every path on which a handshake object is created leaves its token cursor on constant data that spells exactly the messages of the specification, message by message, ended once; identifiers that are no pattern are refused',
    'pattern-valid: every table decoded from the source is valid in itself: one key of a kind per party, no static or hybrid key before it is available, every key exchange uses keys both parties have, each exchange once, every hybrid key is used',
    'pattern-requirements: the requirement word of a new object demands a local static key iff that party sends or pre-shares one, a remote static key iff the other party pre-shares one, the pre-messages of the specification, a pre-shared key iff the prefix says so, and never the fallback pre-message',
    'pattern-objects: a new object has key objects of the right algorithm for exactly the keys its pattern uses on either side; a hybrid algorithm is accepted iff the pattern is a hybrid one; an ephemeral-only algorithm is accepted only where no static key occurs and both parties send ephemerals; outside fallback patterns the key objects carry the role of their party',
    'fallback-pattern: falling back is accepted only from interactive patterns whose responder key is pre-shared and only to fallback patterns; it installs the tokens, requirements (with the fallback pre-message) and pattern identifier of the new pattern for the exchanged role, keeps the ephemeral (and hybrid) key of the failed message, the local static key, prologue and pre-shared key, and clears the keys the new handshake will produce',
]
EXPLANATION = ('constant tables and the code that derives state from them are evaluated on every path for every pattern identifier and compared with an independent '
               'transcription of the specification; nothing is executed')
MIN = {'patterns': 35, 'constructions': 300, 'fallbacks': 60, 'obligations': 2000}
ASSUMPTIONS = ['noise_symmetricstate_new_by_id/_by_name fill in the identifier they were given (C10, C19, C20)']
PID = 'NoiseProtocolId'
KEYS = ['dh_%s_%s' % (a, b) for a in ('local', 'remote') for b in ('static', 'ephemeral', 'hybrid')]
KIND = {'static': 's', 'ephemeral': 'e', 'hybrid': 'f'}
NEWDH = 4321


def cname(k):
    n, v, h = k
    return 'NOISE_PATTERN_' + n.replace('fallback', '_FALLBACK') + ('_NOIDH' if v else '') + ('_HFS' if h else '')


def table():
    """[(constant name, value, spec)] for every pattern constant of the public header"""
    const('NOISE_PATTERN_NN')
    spec = {cname(k): (k, v) for k, v in patterns().items()}
    out = []
    for n, v in sorted(((n, v) for n, v in handshake._c.items() if n.startswith('NOISE_PATTERN_')), key=lambda x: x[1]):
        if n.startswith('NOISE_PATTERN_') and n not in ('NOISE_PATTERN_NONE', 'NOISE_PATTERN_CATEGORY'):
            if n not in spec:
                raise Broken('the pattern %s is not in the transcription of the specification' % n)
            out.append((n, v, spec[n]))
    return out


def uses(spec):
    """{(party, key kind)} used by the pattern; party 0 is the initiator"""
    (n, v, h), (pi, pr, ms) = spec
    u = set()
    for c in pi:
        u.add((0, c))
    for c in pr:
        u.add((1, c))
    for i, m in enumerate(ms):
        for t in m:
            if t in 'sef':
                u.add((i % 2, t))
    return u


def requirements(spec, initiator, psk, fallback):
    (n, v, h), (pi, pr, ms) = spec
    me, pre = (0, (pi, pr)) if initiator else (1, (pr, pi))
    w = 0
    if (me, 's') in uses(spec):
        w |= const('NOISE_REQ_LOCAL_REQUIRED')
    if 's' in pre[0]:
        w |= const('NOISE_REQ_LOCAL_PREMSG')
    if 's' in pre[1]:
        w |= const('NOISE_REQ_REMOTE_REQUIRED') | const('NOISE_REQ_REMOTE_PREMSG')
    if psk:
        w |= const('NOISE_REQ_PSK')
    if fallback:
        w |= const('NOISE_REQ_FALLBACK_PREMSG')
    return w


def tokens(spec):
    out = []
    for i, m in enumerate(spec[1][2]):
        if i:
            out.append('FLIP_DIR')
        out += [t.upper() for t in m]
    return out + ['END']


NAMES = {}


def decode(eng, st, p):
    """token names the cursor points at"""
    if not NAMES:
        const('NOISE_TOKEN_END')
        NAMES.update({v: k[len('NOISE_TOKEN_'):] for k, v in handshake._c.items() if k.startswith('NOISE_TOKEN_')})
    out = []
    b, off = eng.base(eng.norm(st, p))
    if b is None:
        return None
    y = eng.syms[b]
    if y.rkind != 'global' or not getattr(y.extra, 'const', False):
        return None
    for i in range(64):
        v = eng.norm(st, eng.load_cell(st, b, ladd(off, K(i)), 1, False, 8, None))
        if not isconst(v):
            return None
        out.append(NAMES.get(v[0] & 255, '?%d' % (v[0] & 255)))
        if out[-1] == 'END':
            return out
    return None


def valid(pre, toks):
    """generic validity rules of the specification on a decoded table; '' or what is wrong"""
    ms, cur = [], []
    for t in toks:
        if t in ('FLIP_DIR', 'END'):
            ms.append(cur)
            cur = []
        else:
            cur.append(t.lower())
    has = [set(pre[0]), set(pre[1])]
    done = set()
    for i, m in enumerate(ms):
        if not m:
            return 'an empty message'
        for t in m:
            if t in ('e', 's', 'f'):
                if t in has[i % 2]:
                    return 'key "%s" is sent twice' % t
                has[i % 2].add(t)
            elif t in DH:
                if t in done:
                    return 'exchange "%s" is done twice' % t
                done.add(t)
                for p in (0, 1):
                    if DH[t][p] not in has[p]:
                        return 'exchange "%s" before both keys are known' % t
            else:
                return 'unknown token %s' % t
    for p in (0, 1):
        if 'f' in has[p] and 'ff' not in done:
            return 'a hybrid key is never used'
        if 's' in has[p] and not any(DH[d][p] == 's' for d in done):
            return 'a static key is never used'
    return ''


class New(clients.ErrFork):
    def __init__(self, fn, entry, initiator, psk, hybrid, eo):
        super().__init__()
        self.fn, self.entry, self.initiator, self.psk, self.hybrid, self.eo = fn, entry, initiator, psk, hybrid, eo
        self.ob = self.good = 0

    def sym_model(self, eng, st, c):
        out = c.args[0]
        bad = st.fork()
        y = new_object(eng, st, c)
        o = (0, ((y.id, 1),))
        idoff = finfo(eng.prog, SS, 'id')[0]
        pid = self.entry[1] if self.entry else self.pid
        for n, v in (('pattern_id', pid), ('prefix_id', const('NOISE_PREFIX_PSK') if self.psk else const('NOISE_PREFIX_STANDARD')),
                     ('dh_id', NEWDH), ('hybrid_id', 99 if self.hybrid else 0)):
            off, size = finfo(eng.prog, PID, n)[:2]
            eng.store_cell(st, y.id, K(idoff + off), size, v if isinstance(v, tuple) else K(v))
        eng.store(st, out, o, 8, c.inst, c.fn)
        eng.store(bad, out, ZERO, 8, c.inst, c.fn)
        r = eng.fresh('err:' + c.name, 'int', 32, 1, (1 << 31) - 1, origin=('ret', c.name))
        bad.g['failed'] = True
        bad.trail = (bad.trail, '%s: %s fails' % (eng.where(c.fn, c.inst), c.name))
        return [(st, ZERO), (bad, r)]

    def dh_model(self, eng, st, c):
        out = c.args[0]
        bad = st.fork()
        y = new_object(eng, st, c)
        o = (0, ((y.id, 1),))
        sf(eng, st, o, DHS, 'dh_id', c.args[1])
        off, size, isptr, bit, bo, bits = finfo(eng.prog, DHS, 'ephemeral_only')
        v = (1 << (bo % 8)) if self.eo else 0
        eng.store_cell(st, y.id, K(bo // 8), 1, K(v))
        sf(eng, st, o, DHS, 'role', ZERO)
        sf(eng, st, o, DHS, 'key_type', ZERO)
        eng.store(st, out, o, 8, c.inst, c.fn)
        eng.store(bad, out, ZERO, 8, c.inst, c.fn)
        r = eng.fresh('err:' + c.name, 'int', 32, 1, (1 << 31) - 1, origin=('ret', c.name))
        bad.g['failed'] = True
        bad.trail = (bad.trail, '%s: %s fails' % (eng.where(c.fn, c.inst), c.name))
        return [(st, ZERO), (bad, r)]

    def setup(self, eng, st, args):
        self.args = args
        if self.entry is None:
            self.pid = eng.fresh('other pattern', 'int', 32, 0, (1 << 31) - 1)
            for n, v, s in table():
                eng.add_ne(st, lsub(self.pid, K(v)))
        eng.add_ne(st, args[0])
        eng.add_ne(st, args[1])
        eng.add_eq(st, lsub(args[2], K(const('NOISE_ROLE_INITIATOR' if self.initiator else 'NOISE_ROLE_RESPONDER'))))
        return st

    def what(self):
        return '%s as %s%s%s%s' % (self.entry[0][len('NOISE_PATTERN_'):] if self.entry else 'an unknown pattern', 'initiator' if self.initiator else 'responder',
                                   ' psk' if self.psk else '', ' hybrid algorithm' if self.hybrid else '', ' ephemeral-only algorithm' if self.eo else '')

    def bad(self, st, rule, m):
        self.eng.report(st, rule, self.fn, None, '%s: %s' % (self.what(), m))

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            if not ok:
                continue
            self.good += 1
            if self.entry is None:
                self.bad(s, 'pattern-tokens', 'a handshake object is created')
                continue
            spec = self.entry[2]
            (n, nv, h), (pi, pr, ms) = spec
            fallback = 'fallback' in n
            b, off = eng.base(eng.norm(s, self.args[0]))
            o = eng.norm(s, eng.load_cell(s, b, off, 8, True, 64, None))
            if eng.decide(s, Pred('eq', o)) is not False:
                self.bad(s, 'pattern-objects', 'success without an object')
                continue
            got = decode(eng, s, gf(eng, s, o, HS, 'tokens'))
            want = tokens(spec)
            if got is None:
                self.bad(s, 'pattern-tokens', 'the token cursor is not on a constant token string')
            else:
                if got != want:
                    self.bad(s, 'pattern-tokens', 'the pattern is [%s], not [%s]' % (' '.join(got), ' '.join(want)))
                w = valid((pi, pr), got)
                if w:
                    self.bad(s, 'pattern-valid', w)
            self.ob += 8
            w = requirements(spec, self.initiator, self.psk, False)
            if pr == 's' or 's' in pr:
                w |= const('NOISE_REQ_FALLBACK_POSSIBLE')
            r = gf(eng, s, o, HS, 'requirements')
            if not eng.prove_eq(s, r, K(w)):
                self.bad(s, 'pattern-requirements', 'the requirement word is %s, not %#x' % (hex(r[0]) if r is not None and isconst(r) else 'not constant', w))
            if h != self.hybrid:
                self.bad(s, 'pattern-objects', 'a hybrid algorithm is %s' % ('missing but accepted' if h else 'accepted although the pattern has no hybrid keys'))
            u = uses(spec)
            if self.eo and ({(0, 's'), (1, 's')} & u or not {(0, 'e'), (1, 'e')} <= u):
                self.bad(s, 'pattern-objects', 'an ephemeral-only algorithm is accepted')
            rl = const('NOISE_ROLE_INITIATOR' if self.initiator else 'NOISE_ROLE_RESPONDER')
            ro = const('NOISE_ROLE_RESPONDER' if self.initiator else 'NOISE_ROLE_INITIATOR')
            if not eng.prove_eq(s, gf(eng, s, o, HS, 'role'), K(rl)):
                self.bad(s, 'pattern-objects', 'the role of the object is not the requested one')
            for kn in KEYS:
                side, kind = kn.split('_')[1:]
                party = 0 if (side == 'local') == self.initiator else 1
                p = gf(eng, s, o, HS, kn)
                d = eng.decide(s, Pred('eq', p))
                if ((party, KIND[kind]) in u) != (d is False) or d is None:
                    self.bad(s, 'pattern-objects', '%s is %s' % (kn, 'missing' if (party, KIND[kind]) in u else 'present although the pattern does not use it'))
                    continue
                if d is False:
                    if not eng.prove_eq(s, gf(eng, s, p, DHS, 'dh_id'), K(99 if kind == 'hybrid' else NEWDH)):
                        self.bad(s, 'pattern-objects', '%s is not of the algorithm the protocol names' % kn)
                    if kind != 'hybrid' and not fallback and not eng.prove_eq(s, gf(eng, s, p, DHS, 'role'), K(rl if side == 'local' else ro)):
                        self.bad(s, 'pattern-objects', '%s does not carry the role of its party' % kn)
            if self.eo is False:
                self.bits(s, o)

    def bits(self, s, o):
        for kn in ('dh_fixed_ephemeral', 'dh_fixed_hybrid'):
            if not self.eng.prove_eq(s, gf(self.eng, s, o, HS, kn)):
                self.bad(s, 'pattern-objects', 'a new object has a fixed ephemeral key')
        for kn in ('pre_shared_key_len', 'prologue_len'):
            if not self.eng.prove_eq(s, gf(self.eng, s, o, HS, kn)):
                self.bad(s, 'pattern-objects', 'a new object has a pre-shared key or prologue')


def accepts(entry, hybrid, eo):
    if entry is None:
        return False
    (n, v, h), x = entry[2]
    u = uses(entry[2])
    return h == hybrid and not (eo and ({(0, 's'), (1, 's')} & u or not {(0, 'e'), (1, 'e')} <= u))


def job(item):
    lib, fname, entry = item
    fn = lib.prog.ext[fname]
    out = Result()
    for initiator in (True, False):
        for psk in (True, False):
            for hybrid in (True, False):
                for eo in (False, True):
                    if eo and (psk or fname.endswith('name')):
                        continue
                    m = New(fn, entry, initiator, psk, hybrid, eo)
                    e = lib.engine([m], override={'noise_symmetricstate_new_by_id': m.sym_model, 'noise_symmetricstate_new_by_name': m.sym_model,
                                                  'noise_dhstate_new_by_id': m.dh_model}, inline=['noise_dhstate_set_role', 'noise_pattern_lookup', 'noise_pattern_reverse_flags'])
                    e.run(fn, m.setup)
                    r = engine_result(e, lambda rep: m.what(), lib.prog.config)
                    out.merge(r)
                    if accepts(entry, hybrid, eo) and not m.good:
                        out.viol.append(V('pattern-tokens', '%s:%s' % (fn.module.name, fn.name), m.what(), '%s can never create %s' % (fn.name, m.what()), [], lib.prog.config))
                    out.count('constructions')
                    out.count('obligations', m.ob)
    if fname.endswith('by_id') and entry:
        out.count('patterns')
    out.samples.append('%s: %s' % (entry[0], ' '.join(tokens(entry[2]))) if entry else 'unknown identifiers refused')
    return out


class Fallback(clients.ErrFork):
    def __init__(self, fn, entry, to, initiator, psk):
        super().__init__()
        self.fn, self.entry, self.to, self.initiator, self.psk = fn, entry, to, initiator, psk
        self.ob = self.good = 0
        (n, v, h), (pi, pr, ms) = entry[2]
        self.may = len(n) > 1 and 's' in pr and 'fallback' in to[2][0][0]

    def setup(self, eng, st, args):
        s = self.state = args[0]
        eng.add_ne(st, s)
        sym = self.sym = ef(eng, s, HS, 'symmetric')
        eng.add_ne(st, sym)
        idoff = finfo(eng.prog, SS, 'id')[0]
        (n, v, h), (pi, pr, ms) = self.entry[2]
        for k, x in (('pattern_id', self.entry[1]), ('prefix_id', const('NOISE_PREFIX_PSK') if self.psk else const('NOISE_PREFIX_STANDARD'))):
            off, size = finfo(eng.prog, PID, k)[:2]
            eng.store_cell(st, eng.base(sym)[0], K(idoff + off), size, K(x))
        sf(eng, st, s, HS, 'action', K(const('NOISE_ACTION_FAILED')))
        sf(eng, st, s, HS, 'role', K(const('NOISE_ROLE_INITIATOR' if self.initiator else 'NOISE_ROLE_RESPONDER')))
        w = requirements(self.entry[2], self.initiator, self.psk, False)
        if 's' in pr:
            w |= const('NOISE_REQ_FALLBACK_POSSIBLE')
        sf(eng, st, s, HS, 'requirements', K(w))
        u = uses(self.entry[2])
        self.keys = {}
        for kn in KEYS:
            side, kind = kn.split('_')[1:]
            party = 0 if (side == 'local') == self.initiator else 1
            p = ef(eng, s, HS, kn)
            if (party, KIND[kind]) in u:
                eng.add_ne(st, p)
                sf(eng, st, p, DHS, 'key_type', K(const('NOISE_KEY_TYPE_KEYPAIR') if side == 'local' else const('NOISE_KEY_TYPE_PUBLIC')))
                self.keys[kn] = p
            else:
                eng.add_eq(st, p)
        eng.add_ne(st, ef(eng, sym, SS, 'hash'))
        eng.add_ne(st, ef(eng, sym, SS, 'cipher'))
        if len(args) > 1:
            eng.add_eq(st, lsub(args[1], K(self.to[1])))
        return st

    def what(self):
        return 'from %s to %s, %s%s' % (self.entry[0][14:], self.to[0][14:], 'initiator' if self.initiator else 'responder', ' psk' if self.psk else '')

    def bad(self, st, m):
        self.eng.report(st, 'fallback-pattern', self.fn, None, '%s: %s' % (self.what(), m))

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            if not ok:
                continue
            self.good += 1
            if not self.may:
                self.bad(s, 'the fallback is accepted')
                continue
            self.ob += 8
            spec = self.to[2]
            now = not self.initiator        # new role: initiator?
            (n, nv, h), (pi, pr, ms) = spec
            got = decode(eng, s, gf(eng, s, self.state, HS, 'tokens'))
            if got != tokens(spec):
                self.bad(s, 'the pattern afterwards is [%s]' % ' '.join(got or ['not constant']))
            w = requirements(spec, now, self.psk, True)
            r = gf(eng, s, self.state, HS, 'requirements')
            if not isconst(r) or r[0] != w:
                self.bad(s, 'the requirement word afterwards is %s, not %#x' % (hex(r[0]) if isconst(r) else 'not constant', w))
            off, size = finfo(eng.prog, PID, 'pattern_id')[:2]
            pid = eng.norm(s, eng.load_cell(s, eng.base(self.sym)[0], K(finfo(eng.prog, SS, 'id')[0] + off), size, False, 32, None))
            if not eng.prove_eq(s, pid, K(self.to[1])):
                self.bad(s, 'the protocol identifier afterwards does not name the new pattern')
            if not eng.prove_eq(s, gf(eng, s, self.state, HS, 'role'), K(const('NOISE_ROLE_INITIATOR' if now else 'NOISE_ROLE_RESPONDER'))):
                self.bad(s, 'the roles are not exchanged')
            mine = 'remote' if now else 'local'        # whose ephemeral is the pre-message
            keep = {'dh_%s_ephemeral' % mine, 'dh_%s_hybrid' % mine, 'dh_local_static'}
            for kn, p in self.keys.items():
                kt = gf(eng, s, p, DHS, 'key_type')
                if kn in keep:
                    if not eng.prove_eq(s, kt, K(const('NOISE_KEY_TYPE_KEYPAIR') if 'local' in kn else const('NOISE_KEY_TYPE_PUBLIC'))):
                        self.bad(s, '%s is lost' % kn)
                elif not eng.prove_eq(s, kt, K(const('NOISE_KEY_TYPE_NO_KEY'))):
                    self.bad(s, '%s of the failed handshake stays in place' % kn)
            for k in ('prologue', 'prologue_len', 'pre_shared_key_len'):
                if not eng.prove_eq(s, gf(eng, s, self.state, HS, k), ef(eng, self.state, HS, k)):
                    self.bad(s, 'the %s is lost' % k)
            ci = gf(eng, s, self.sym, SS, 'cipher')
            for k in ('has_key', 'n'):
                if not eng.prove_eq(s, gf(eng, s, ci, 'NoiseCipherState_s', k)):
                    self.bad(s, 'the cipher keeps its %s' % k)


def fb_job(item):
    lib, fname, entry, tos = item
    fn = lib.prog.ext[fname]
    out = Result()
    for to in tos:
        for initiator in (True, False):
            for psk in (True, False):
                m = Fallback(fn, entry, to, initiator, psk)
                e = lib.engine([m], inline=['noise_dhstate_clear_key', 'noise_pattern_lookup', 'noise_pattern_reverse_flags', 'noise_handshakestate_fallback_to',
                                            'noise_dhstate_has_public_key'])
                e.run(fn, m.setup)
                r = engine_result(e, lambda rep: m.what(), lib.prog.config)
                out.merge(r)
                if m.may and not m.good:
                    out.viol.append(V('fallback-pattern', '%s:%s' % (fn.module.name, fn.name), m.what(), 'falling back %s never succeeds' % m.what(), [], lib.prog.config))
                out.count('fallbacks')
                out.count('obligations', m.ob)
    return out


def check(ctx):
    lib = ctx.lib('ref')
    t = table()
    P = 'noise_handshakestate_'
    for n in ('new_by_id', 'new_by_name', 'fallback', 'fallback_to'):
        ctx.fn(lib, P + n)
    ctx.pmap(job, [(lib, P + n, e) for e in t + [None] for n in ('new_by_id', 'new_by_name')])
    fb = [e for e in t if 'FALLBACK' in e[0]]
    xx = [e for e in t if e[0] == 'NOISE_PATTERN_XX_FALLBACK']
    ctx.require(len(xx) == 1, 'XXfallback')
    items = [(lib, P + 'fallback_to', e, fb) for e in t] + [(lib, P + 'fallback', e, xx) for e in t]
    ik = [e for e in t if e[0] in ('NOISE_PATTERN_IK', 'NOISE_PATTERN_IK_HFS')]
    items += [(lib, P + 'fallback_to', e, [x for x in t if x not in fb]) for e in ik]
    ctx.pmap(fb_job, items)
