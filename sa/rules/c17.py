"""C17: null and invalid public keys."""
from ..absint import *
from .. import clients, symmodels, prims
from ..libmodels import gf, sf, ef, finfo
from ..handshake import Message, DHS, const, entry_fn
from ..run import Result, engine_result, V, Broken

RULES = [
    'null-calculate: for every DH algorithm the library constructs, noise_dhstate_calculate runs the backend once with exactly its own arguments; for an algorithm with a null key and an all-zero public key it then returns success with every byte of the shared key zero whatever the backend did, for a public key with any non-zero byte (each position in turn, all others arbitrary) it returns the backend\'s verdict and leaves the backend\'s output; success requires a complete key pair, equal algorithms and the exact shared key length',
    'null-set: noise_dhstate_set_public_key accepts exactly the keys the backend validates plus, where the algorithm allows it, the all-zero key; on success the object holds exactly the input, a zero private key and is a public-only key, on error nothing changed; noise_dhstate_set_null_public_key succeeds only where null keys are allowed',
    'null-test: noise_dhstate_is_null_public_key is true iff a key is present, the algorithm has a null key and every byte is zero',
    'null-handshake: every path of noise_handshakestate_read_message that returns success after a received ephemeral or hybrid key was set has found that key not null',
    'null-algorithms: the constructors of Curve25519 and Curve448 declare the null key in every configuration',
    'invalid-peer: where the primitive below a backend reports an invalid public key, the backend reports an error',
]
EXPLANATION = 'abstract interpretation of the DH object operations with the descriptions the constructors really set, of the backends over primitive outcomes, and of message reading'
MIN = {'algorithms': 4, 'obligations': 600, 'handshake_messages': 8, 'backends': 4}
ASSUMPTIONS = ['the scalar multiplication primitives compute their published functions (C90)']
CURVES = {'NOISE_DH_CURVE25519', 'NOISE_DH_CURVE448'}


class Ctor(clients.ErrFork):
    """the description a constructor gives its object"""

    def __init__(self):
        super().__init__()
        self.desc = []

    def on_return(self, st, v, fn):
        eng = self.eng
        if eng.decide(st, Pred('eq', v)) is not False:
            return
        d = {}
        for n in ('dh_id', 'nulls_allowed', 'private_key_len', 'public_key_len', 'shared_key_len'):
            x = gf(eng, st, v, DHS, n)
            if x is None or not isconst(x):
                raise Broken('%s does not give %s a definite value' % (fn.name, n))
            d[n] = x[0]
        self.desc.append(d)


def algorithms(lib):
    """{constructor name: description}"""
    out = {}
    f = lib.prog.ext.get('noise_dhstate_new_by_id')
    if f is None:
        raise Broken('anchor vanished: noise_dhstate_new_by_id')
    for n, g in sorted(lib.prog.ext.items()):
        if g.params or g.rettype[0] != 'ptr' or g.module.param_types(g)[0][0] != DHS:
            continue
        c = Ctor()
        e = lib.engine([c])
        e.run(g)
        if not c.desc:
            raise Broken('%s never succeeds' % n)
        if any(d != c.desc[0] for d in c.desc):
            raise Broken('%s describes its objects differently on different paths' % n)
        out[n] = c.desc[0]
    return out


def setbit(eng, st, p, name, val):
    off, size, isptr, bit, bo, bits = finfo(eng.prog, DHS, name)
    b, o = eng.base(eng.norm(st, p))
    if not bit:
        sf(eng, st, p, DHS, name, K(val))
        return
    byte = o[0] + bo // 8
    cur = eng.norm(st, eng.load_cell(st, b, K(byte), 1, False, 8, None))
    c = cur[0] if isconst(cur) else 0
    c = c & ~(((1 << bits) - 1) << (bo % 8)) | (val << (bo % 8))
    eng.store_cell(st, b, K(byte), 1, K(c))


def describe(eng, st, p, d, lens=True):
    sf(eng, st, p, DHS, 'dh_id', K(d['dh_id']))
    setbit(eng, st, p, 'nulls_allowed', d['nulls_allowed'])
    if lens:
        for n in ('private_key_len', 'public_key_len', 'shared_key_len'):
            sf(eng, st, p, DHS, n, K(d[n]))


def bytes_of(eng, st, p, n):
    b, off = eng.base(eng.norm(st, p))
    return [eng.norm(st, eng.load_cell(st, b, ladd(off, K(i)), 1, False, 8, None)) for i in range(n)]


def setkey(eng, st, p, n, j):
    """key bytes at p: all zero (j None) or byte j non-zero and the rest arbitrary"""
    b, off = eng.base(eng.norm(st, p))
    for i in range(n):
        if j is None:
            eng.store_cell(st, b, ladd(off, K(i)), 1, ZERO)
        elif i == j:
            eng.store_cell(st, b, ladd(off, K(i)), 1, eng.fresh('nonzero', 'int', 8, 1, 255))
        else:
            eng.store_cell(st, b, ladd(off, K(i)), 1, eng.fresh('any', 'int', 8))


class Base(clients.ErrFork):
    def __init__(self, fn, d, j, what):
        super().__init__()
        self.fn, self.d, self.j, self.what = fn, d, j, what
        self.null = j is None and d['nulls_allowed']
        self.ob = self.good = 0

    def bad(self, st, rule, m):
        self.eng.report(st, rule, self.fn, None, '%s, %s public key: %s' % (self.what, 'all-zero' if self.j is None else 'non-zero', m))


class Calculate(Base):
    def setup(self, eng, st, args):
        eng.unroll_width = 4000
        self.args = args
        for a in args[:3]:
            eng.add_ne(st, a)
        describe(eng, st, args[0], self.d)
        describe(eng, st, args[1], self.d)
        sf(eng, st, args[1], DHS, 'dh_id', eng.fresh('dh_id', 'int', 16, 0, 32767))
        self.pid = gf(eng, st, args[1], DHS, 'dh_id')
        self.pk = ef(eng, args[1], DHS, 'public_key')
        eng.add_ne(st, self.pk)
        setkey(eng, st, self.pk, self.d['public_key_len'], self.j)
        self.n = self.d['shared_key_len']
        self.before = None
        return st

    def backend(self, eng, st, c):
        b, off = eng.base(eng.norm(st, c.args[2]))
        out = []
        for i in range(self.n):
            x = eng.fresh('backend%d' % i, 'int', 8)
            out.append(x)
            eng.store_cell(st, b, ladd(off, K(i)), 1, x)
        r = eng.retval(c)
        same = all(eng.prove_eq(st, x, y) for x, y in zip(c.args, self.args))
        st.g['calls'] = st.g.get('calls', ()) + ((same, tuple(out), r),)
        return [(st, r)]

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            calls = s.g.get('calls', ())
            if len(calls) > 1 or any(not x[0] for x in calls):
                self.bad(s, 'null-calculate', 'the backend is not called once with the caller\'s own arguments')
                continue
            if not calls:
                if ok:
                    self.bad(s, 'null-calculate', 'success without any calculation')
                continue
            _, out, r = calls[0]
            if self.null:
                if not ok:
                    self.bad(s, 'null-calculate', 'a null key may make the calculation fail')
                    continue
                self.good += 1
                for i, x in enumerate(bytes_of(eng, s, self.args[2], self.n)):
                    if x is None or not eng.prove_eq(s, x):
                        self.bad(s, 'null-calculate', 'byte %d of the shared key may be other than zero' % i)
                        break
            else:
                if ok != eng.decide(s, Pred('eq', r)):
                    self.bad(s, 'null-calculate', '%s although the backend %s' % ('success' if ok else 'failure', 'failed' if ok else 'succeeded'))
                    continue
                if ok:
                    self.good += 1
                    for i, x in enumerate(bytes_of(eng, s, self.args[2], self.n)):
                        if not eng.prove_eq(s, x, out[i]):
                            self.bad(s, 'null-calculate', 'byte %d of the shared key may differ from the backend\'s result' % i)
                            break
            if ok:
                a0 = self.args[0]
                if not eng.prove_eq(s, gf(eng, s, a0, DHS, 'key_type'), K(const('NOISE_KEY_TYPE_KEYPAIR'))):
                    self.bad(s, 'null-calculate', 'success although the private side may have no key pair')
                if not eng.prove_eq(s, self.pid, K(self.d['dh_id'])):
                    self.bad(s, 'null-calculate', 'success although the algorithms may differ')
                if not eng.prove_eq(s, self.args[3], K(self.n)):
                    self.bad(s, 'null-calculate', 'success although the shared key length may be wrong')


class SetPublic(Base):
    def setup(self, eng, st, args):
        eng.unroll_width = 4000
        self.args = args
        for a in args[:2]:
            eng.add_ne(st, a)
        describe(eng, st, args[0], self.d)
        self.n, self.m = self.d['public_key_len'], self.d['private_key_len']
        self.pub, self.priv = ef(eng, args[0], DHS, 'public_key'), ef(eng, args[0], DHS, 'private_key')
        self.kt = ef(eng, args[0], DHS, 'key_type')
        for p, n in ((self.pub, self.n), (self.priv, self.m)):
            eng.add_ne(st, p)
            setkey(eng, st, p, n, 0)
        self.old = bytes_of(eng, st, self.pub, self.n), bytes_of(eng, st, self.priv, self.m)
        if len(args) > 1:
            setkey(eng, st, args[1], self.n, self.j)
            self.key = bytes_of(eng, st, args[1], self.n)
        return st

    def validate(self, eng, st, c):
        r = eng.retval(c)
        same = eng.prove_eq(st, c.args[0], self.args[0]) and (
            all(eng.prove_eq(st, x, y) for x, y in zip(bytes_of(eng, st, c.args[1], self.n), self.key)))
        st.g['val'] = st.g.get('val', ()) + ((same, r),)
        return [(st, r)]

    def on_return(self, st, v, fn):
        eng = self.eng
        R = 'null-set'
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            vals = s.g.get('val', ())
            right = eng.prove_eq(s, self.args[2], K(self.n))
            good = any(x[0] and eng.decide(s, Pred('eq', x[1])) is True for x in vals)
            failed = any(eng.decide(s, Pred('eq', x[1])) is not True for x in vals)
            pub, priv = bytes_of(eng, s, self.pub, self.n), bytes_of(eng, s, self.priv, self.m)
            kt = gf(eng, s, self.args[0], DHS, 'key_type')
            if ok:
                self.good += 1
                if not self.null and (not good or failed):
                    self.bad(s, R, 'accepted although the backend may not have validated the key')
                if not right:
                    self.bad(s, R, 'accepted although the length may be wrong')
                if any(not eng.prove_eq(s, x, y) for x, y in zip(pub, self.key)):
                    self.bad(s, R, 'the key set is not exactly the input')
                if any(not eng.prove_eq(s, x) for x in priv):
                    self.bad(s, R, 'the private key is not cleared')
                if not eng.prove_eq(s, kt, K(const('NOISE_KEY_TYPE_PUBLIC'))):
                    self.bad(s, R, 'the object is not a public-only key')
            else:
                if vals and (self.null or not failed):
                    self.bad(s, R, 'refused although %s' % ('null keys are allowed' if self.null else 'the backend validated the key'))
                if any(not eng.prove_eq(s, x, y) for x, y in zip(pub + priv, self.old[0] + self.old[1])) or not eng.prove_eq(s, kt, self.kt):
                    self.bad(s, R, 'refused but the key in the object changed')


class SetNull(SetPublic):

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            pub, priv = bytes_of(eng, s, self.pub, self.n), bytes_of(eng, s, self.priv, self.m)
            kt = gf(eng, s, self.args[0], DHS, 'key_type')
            if ok:
                self.good += 1
                if not self.d['nulls_allowed']:
                    self.bad(s, 'null-set', 'a null key is set in an algorithm that has none')
                elif any(not eng.prove_eq(s, x) for x in pub + priv) or not eng.prove_eq(s, kt, K(const('NOISE_KEY_TYPE_PUBLIC'))):
                    self.bad(s, 'null-set', 'setting the null key leaves something other than a public-only all-zero key')
            else:
                if self.d['nulls_allowed']:
                    self.bad(s, 'null-set', 'the null key cannot be set although the algorithm has one')
                if any(not eng.prove_eq(s, x, y) for x, y in zip(pub + priv, self.old[0] + self.old[1])) or not eng.prove_eq(s, kt, self.kt):
                    self.bad(s, 'null-set', 'refused but the key in the object changed')


class IsNull(Base):
    def setup(self, eng, st, args):
        eng.unroll_width = 4000
        self.args = args
        eng.add_ne(st, args[0])
        describe(eng, st, args[0], self.d)
        p = ef(eng, args[0], DHS, 'public_key')
        eng.add_ne(st, p)
        setkey(eng, st, p, self.d['public_key_len'], self.j)
        self.kt = ef(eng, args[0], DHS, 'key_type')
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, no in eng.split(st, Pred('eq', v)):
            for s2, absent in eng.split(s, Pred('eq', self.kt)):
                self.ob += 1
                self.good += 1
                want = bool(self.null) and not absent
                if want == no:
                    self.bad(s2, 'null-test', 'reported %s with %s key present' % ('not null' if no else 'null', 'no' if absent else 'a'))


CASES = {'noise_dhstate_calculate': Calculate, 'noise_dhstate_set_public_key': SetPublic, 'noise_dhstate_set_null_public_key': SetNull,
         'noise_dhstate_is_null_public_key': IsNull}


def run_case(lib, name, what, d, j):
    f = lib.prog.ext[name]
    c = CASES[name](f, d, j, what)
    ov = {}
    if isinstance(c, Calculate):
        ov['slot:%s.calculate' % DHS] = c.backend
    if isinstance(c, SetPublic):
        ov['slot:%s.validate_public_key' % DHS] = c.validate
    e = lib.engine([c], inline=['noise_is_zero', 'noise_is_equal', 'noise_dhstate_clear_key', 'noise_clean', name], override=ov)
    for n in ('noise_is_zero', 'noise_is_equal', 'noise_clean', 'noise_dhstate_clear_key'):
        e.models.pop(n, None)
    e.run(f, c.setup)
    r = engine_result(e, lambda rep: '%s %s' % (name, what), lib.prog.config)
    if not c.good and not r.viol and not (name == 'noise_dhstate_set_null_public_key' and not d['nulls_allowed']):
        r.viol.append(V('null-calculate' if 'calc' in name else 'null-set', '%s:%s' % (f.module.name, name), '%s %s' % (name, what), '%s never succeeds for %s' % (name, what), [], lib.prog.config))
    r.count('obligations', c.ob)
    return r


def case_job(item):
    lib, name, what, d, js = item
    out = Result()
    for j in js:
        out.merge(run_case(lib, name, what, d, j))
    return out


class Read(Message):
    """which received keys were found not null"""

    def setup(self, eng, st, args):
        st = super().setup(eng, st, args)
        for k in (('e', False), ('f', False)):
            if k[0] in self.toks:
                setbit(eng, st, self.keys[k], 'nulls_allowed', 1)
        return st

    def on_call(self, st, c):
        super().on_call(st, c)
        eng = self.eng
        if c.name == 'noise_is_zero':
            c.pre = ('z', c.args[0], c.args[1])

    def on_call_done(self, st, c, ret):
        eng = self.eng
        res = super().on_call_done(st, c, ret)
        if c.name == 'noise_dhstate_set_public_key':
            for s, r in (res if res is not None else [(st, ret)]):
                if eng.decide(s, Pred('eq', r)) is not False:
                    s.g['set'] = s.g.get('set', ()) + ((c.args[0], c.args[1], c.args[2]),)
                    sf(eng, s, c.args[0], DHS, 'key_type', K(const('NOISE_KEY_TYPE_PUBLIC')))     # rule null-set
        if c.name == 'noise_is_zero':
            out = []
            for s0, r in (res if res is not None else [(st, ret)]):
                for s, no in eng.split(s0, Pred('eq', r)):
                    if no:
                        s.g['nz'] = s.g.get('nz', ()) + ((c.args[0], c.args[1]),)
                    out.append((s, r))
            return out
        return res

    def on_outcome(self, st, ok, action, fn):
        if not ok:
            return
        eng = self.eng
        self.ok += 1
        for t in self.toks:
            if t not in ('e', 'f'):
                continue
            key = self.keys[(t, False)]
            pk, n = ef(eng, key, DHS, 'public_key'), ef(eng, key, DHS, 'public_key_len')
            sets = [x for x in st.g.get('set', ()) if eng.prove_eq(st, x[0], key)]
            if not sets:
                continue        # rule C06
            _, p, m = sets[-1]
            self.ops += 1
            if not any((eng.prove_eq(st, q, pk) and eng.prove_eq(st, z, gf(eng, st, key, DHS, 'public_key_len'))) or
                       (eng.prove_eq(st, q, p) and eng.prove_eq(st, z, m)) for q, z in st.g.get('nz', ())):
                eng.report(st, 'null-handshake', fn, None, 'reading [%s] succeeds although the received %s key may be null' % (
                    ' '.join(self.toks), 'ephemeral' if t == 'e' else 'hybrid'))


def read_job(item):
    lib, toks, flip, initiator = item
    fn = lib.prog.ext['noise_handshakestate_read_message']
    m = Read(fn, False, toks, flip, const('NOISE_ROLE_INITIATOR' if initiator else 'NOISE_ROLE_RESPONDER'), initiator)
    e = lib.engine([m], override=symmodels.models(), inline=['noise_symmetricstate_get_mac_length', 'noise_cipherstate_get_mac_length', 'noise_dhstate_is_null_public_key'])
    e.models.pop('noise_dhstate_is_null_public_key', None)
    e.run(fn, m.setup)
    r = engine_result(e, lambda rep: 'read [%s]' % ' '.join(toks), lib.prog.config)
    if not m.ok and not r.viol:
        raise Broken('reading [%s] never succeeds' % ' '.join(toks))
    r.count('obligations', m.ops)
    r.count('handshake_messages')
    return r


# primitives that report an invalid public key: value that means the key was accepted
PRIM_OK = {'curve448_eval': 1, 'crypto_scalarmult_curve25519': 0, 'crypto_scalarmult': 0}


class Back(clients.ErrFork):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn
        self.ob = self.seen = 0

    def setup(self, eng, st, args):
        eng.unroll_width = 300
        for a in args:
            eng.add_ne(st, a)
        self.args = args
        st.g['prim'] = ()
        return st

    def prim(self, name, okv, outlen):
        def f(eng, st, c):
            self.seen += 1
            s2 = st.fork()
            for s in (st, s2):
                eng.clobber(s, c.args[0], K(outlen), c)
            st.g['prim'] = st.g['prim'] + ((name, True),)
            s2.g['prim'] = s2.g['prim'] + ((name, False),)
            return [(st, K(okv)), (s2, K(0 if okv else -1))]
        return f

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            bad = [n for n, good in s.g['prim'] if not good]
            if ok and bad:
                eng.report(s, 'invalid-peer', fn, None, '%s returns success although %s reported an invalid key' % (fn.name, bad[0]))
            if not ok and s.g['prim'] and not bad:
                eng.report(s, 'invalid-peer', fn, None, '%s returns an error although the primitive succeeded' % fn.name)


def back_job(item):
    lib, f = item
    c = Back(f)
    ov = prims.prim_models()
    for n, v in PRIM_OK.items():
        ov[n] = c.prim(n, v, 56 if '448' in n else 32)
    e = lib.engine([c], override=ov)
    e.run(f, c.setup)
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    r.count('obligations', c.ob)
    r.count('backends')
    if c.seen:
        r.count('primitive_verdicts')
    return r


def job(item):
    return item[0](item[1])


def check(ctx):
    lib = ctx.lib('ref')
    for n in CASES:
        ctx.fn(lib, n)
    entry_fn(ctx, lib, False)
    algs = algorithms(lib)
    by = {d['dh_id']: n for n, d in algs.items()}
    for c in sorted(CURVES):
        if const(c) not in by:
            raise Broken('anchor vanished: no constructor makes %s' % c)
    jobs = []
    from .. import slots
    for cfg in ('ref', 'sodium', 'openssl'):
        l2 = lib if cfg == 'ref' else ctx.lib(cfg)
        al = algs if cfg == 'ref' else algorithms(l2)
        for n, d in al.items():
            ctx.count('algorithms')
            if d['dh_id'] in [const(c) for c in CURVES] and not d['nulls_allowed']:
                ctx.violation('null-algorithms', n, n, '%s does not declare the null key of its algorithm' % n, [], cfg)
        for f, _ in slots.slot_functions(l2).get(DHS + '.calculate', []):
            jobs.append((back_job, (l2, f)))
    seen = set()
    for n, d in algs.items():
        big = d['public_key_len'] > 200
        js = [None] + ([0, d['public_key_len'] - 1] if big else list(range(d['public_key_len'])))
        for name in CASES:
            todo = [None] if name == 'noise_dhstate_set_null_public_key' else js
            step = 1 if big else 8
            for i in range(0, len(todo), step):
                jobs.append((case_job, (lib, name, n, d, todo[i:i + step])))
    from .. import noisespec
    for toks, flip in sorted(noisespec.messages(), key=lambda x: -len(x[0])):
        if 'e' in toks or 'f' in toks:
            for initiator in (True, False):
                jobs.append((read_job, (lib, toks, flip, initiator)))
    ctx.pmap(job, jobs)
