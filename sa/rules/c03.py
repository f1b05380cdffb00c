"""C03: accesses stay inside the buffers and objects their arguments describe."""
import re
from ..absint import *
from .. import bounds, clients, public, slots
from ..bounds import PARAMS, INVARIANTS
from ..clients import show
from ..libmodels import ef, gf, finfo
from ..run import Result, engine_result, V, Broken

RULES = [
    'bounds: every read, write, copy, fill and slot call of a public function stays inside the object, structure member or buffer it goes to; a buffer is as long as the length argument, field or capacity that describes it, and a buffer given on to another public function is at least as long as the length given with it',
    'message-limit: a cipher is never given a payload that is longer than 65535 bytes together with its MAC, and an encryption or decryption that succeeds leaves at most 65535 bytes',
    'relations: a NoiseBuffer keeps its size within its capacity and a NoiseProtobuf its position within its size, reading never moves the position backwards and writing never forwards, and no size getter returns more than the largest size',
]
EXPLANATION = ('every path of every public function of the library, its static helpers included and other public functions replaced by their contracts; offsets and lengths '
               'are linear expressions over arguments, fields and lengths, and each access is an obligation that they prove; loops are generalised')
MIN = {'obligations': 20000, 'functions': 380, 'kind_limit': 4, 'kind_parameter': 400, 'kind_relation': 500, 'kind_given': 500, 'kind_NoiseBuffer.data': 100, 'kind_NoiseProtobuf.data': 500}
ASSUMPTIONS = [
    'lengths are below 2^62, and the caller describes its buffers truthfully; NoiseBuffer and NoiseProtobuf arguments come in with size <= max_size and posn <= size (the cipher functions are also decided without that)',
    'the sizes stored in hash, cipher, DH and signature objects are within the ranges the constructors establish (C20 decides that)',
    'the functions that prepare a protobuf are not given null pointers inside the library',
    'different pointer arguments point to different objects',
    'growth of the protobuf arrays is left to C21; the bodies of primitives and backends are not looked at here; accesses through pointers of unknown extent (counted as unknown) are not decided',
]
BIG = 1 << 62
# largest value of the getters of a size (checked on the getters themselves)
GETTERS = {'noise_symmetricstate_get_mac_length': 16, 'noise_cipherstate_get_mac_length': 16, 'noise_hashstate_get_hash_length': 64}
# array growth: sizes are products of two variables; C21 decides that the storage holds the elements
ARRAYS = {'noise_protobuf_add_to_array', 'noise_protobuf_insert_into_array', 'noise_protobuf_add_to_string_array', 'noise_protobuf_add_to_bytes_array'}
# functions that must leave a message of at most 65535 bytes
LIMITED = {'noise_cipherstate_encrypt_with_ad', 'noise_cipherstate_decrypt_with_ad'}
# functions that give a protobuf its buffer, so nothing holds before them
PREPARE = ('noise_protobuf_prepare_input', 'noise_protobuf_prepare_output', 'noise_protobuf_prepare_measure')


def writer(name):
    """index of the protobuf argument of a function that writes to a protobuf, or None"""
    if name.startswith('noise_protobuf_write_') or (name.startswith('Noise_') and name.endswith('_write')):
        return 0
    return None


def reader(name):
    if name.startswith('noise_protobuf_read_') or (name.startswith('Noise_') and name.endswith('_read')):
        return 0
    return None


class Fork(clients.ErrFork):
    """as ErrFork, but an error code that nobody looks at does not split the path"""

    def __init__(self):
        super().__init__()
        self.used = {}

    def isev(self, c):
        if not super().isev(c):
            return False
        k = c.fn.name
        if k not in self.used:
            self.used[k] = set(re.findall(r"\('l', '([^']*)'\)", ' '.join(repr(i.a) for b in c.fn.order for i in b.insts)))
        return c.inst.res in self.used[k]


class Check(bounds.Bounds):
    def __init__(self):
        super().__init__()
        self.before = {}
        self.objs = []
        self.buf = self.prep = None

    def limit(self, st, b):
        y = self.eng.syms[b]
        if y.rkind == 'global' and y.extra.const:
            return None
        r = super().limit(st, b)
        if r is not None:
            og = y.origin
            if og and og[0] == 'lazy':
                f = self.eng.fieldof.get((og[1], og[2]))
                iv = INVARIANTS.get((f[0], bounds.PAIRS[f])) if f in bounds.PAIRS else None
                if iv:
                    self.eng.add_ge(st, lsub(r[0], K(iv[0])))
                    self.eng.add_ge(st, lsub(K(iv[1]), r[0]))
                if not isconst(r[0]):
                    self.eng.add_ge(st, r[0])
                    self.eng.add_ge(st, lsub(K(BIG), r[0]))
        return r

    def check(self, st, b, off, length, what, inst, fn, loc=None):
        if b is not None:
            y = self.eng.syms[b]
            if y.rkind == 'global' and y.extra.const:
                return
        super().check(st, b, off, length, what, inst, fn, loc)

    def on_clobber(self, st, b, off, length, why):
        if why is not None and getattr(why, 'name', None) in self.eng.contract:
            return
        super().on_clobber(st, b, off, length, why)

    def on_call(self, st, c):
        eng = self.eng
        self._call = c
        if c.name in eng.contract and (writer(c.name) is not None or reader(c.name) is not None):
            self.before[id(c)] = (c, gf(eng, st, c.args[0], 'NoiseProtobuf', 'posn'))
        if c.name == 'slot:NoiseCipherState_s.encrypt' or c.name == 'slot:NoiseCipherState_s.decrypt':
            self.ob += 1
            self.kinds['limit'] = self.kinds.get('limit', 0) + 1
            n = ladd(c.args[4], gf(eng, st, c.args[0], 'NoiseCipherState_s', 'mac_len'))
            if not eng.prove_ge(st, lsub(K(65535), n)):
                eng.report(st, 'message-limit', c.fn, c.inst, 'the cipher is given %s bytes, and with the MAC the message may be longer than 65535 bytes' % show(eng, c.args[4]))
        if c.name in eng.contract and c.name not in PREPARE:
            self.given(st, c)
        if c.name in eng.contract and c.name in PARAMS and c.name != 'noise_free':
            for i, n in PARAMS[c.name].items():
                p = eng.norm(st, c.args[i]) if isinstance(c.args[i], tuple) else None
                if p is None or eng.decide(st, Pred('eq', p)) is True:
                    continue
                b, off = eng.base(p)
                self.check(st, b, off, c.args[n], 'buffer given to %s' % c.name, c.inst, c.fn)
            return
        super().on_call(st, c)

    def on_call_done(self, st, c, ret):
        if c.name in GETTERS and c.name in self.eng.contract and isinstance(ret, tuple):
            self.eng.add_ge(st, ret)
            self.eng.add_ge(st, lsub(K(GETTERS[c.name]), ret))
        if c.name in PREPARE and c.name in self.eng.contract:
            n, size = (gf(self.eng, st, c.args[0], 'NoiseProtobuf', x) for x in ('posn', 'size'))
            if n is not None and size is not None:
                self.eng.add_ge(st, n)
                self.eng.add_ge(st, lsub(size, n))
        pre = self.before.get(id(c))
        if pre is not None and pre[0] is c:
            eng = self.eng
            now = gf(eng, st, c.args[0], 'NoiseProtobuf', 'posn')
            eng.add_ge(st, now)
            if writer(c.name) is not None:
                eng.add_ge(st, lsub(pre[1], now))
                size = gf(eng, st, c.args[0], 'NoiseProtobuf', 'size')
                if eng.prove_ge(st, lsub(size, pre[1])):
                    eng.add_ge(st, lsub(size, now))
                for p, t in self.objs:
                    if t == 'NoiseProtobuf':
                        first = ef(eng, p, t, 'posn')
                        if eng.prove_ge(st, lsub(first, pre[1])):
                            eng.add_ge(st, lsub(first, now))
            else:
                eng.add_ge(st, lsub(now, pre[1]))
                for p, t in self.objs:
                    if t == 'NoiseProtobuf':
                        first = ef(eng, p, t, 'posn')
                        if eng.prove_ge(st, lsub(pre[1], first)):
                            eng.add_ge(st, lsub(now, first))
                eng.add_ge(st, lsub(gf(eng, st, c.args[0], 'NoiseProtobuf', 'size'), now))
        return None

    def given(self, st, c):
        """what the called function assumes of its NoiseBuffer and NoiseProtobuf arguments"""
        eng = self.eng
        f = eng.prog.ext.get(c.name)
        if f is None:
            return
        for a, t in zip(c.args, f.module.param_types(f)[1:]):
            for s, low, top in (('NoiseBuffer', 'size', 'max_size'), ('NoiseProtobuf', 'posn', 'size')):
                if not t or s not in str(t) or not isinstance(a, tuple) or (s == 'NoiseBuffer' and c.name in LIMITED):
                    continue
                if eng.decide(st, Pred('eq', a)) is True:
                    continue
                l, h = gf(eng, st, a, s, low), gf(eng, st, a, s, top)
                if l is None or h is None:
                    continue
                self.ob += 1
                self.kinds['given'] = self.kinds.get('given', 0) + 1
                if not eng.prove_ge(st, lsub(h, l)):
                    eng.report(st, 'relations', c.fn, c.inst, '%s is given a %s whose %s %s may exceed its %s %s' % (c.name, s, low, show(eng, l), top, show(eng, h)))

    def relations(self, st):
        """(value that must not be negative, text) for what every function relies on and leaves true"""
        eng = self.eng
        for p, t in self.objs:
            if eng.decide(st, Pred('eq', p)) is True:
                for i in range(3):
                    yield ZERO, ''
            elif t == 'NoiseBuffer':
                yield ZERO, ''
                yield ZERO, ''
                yield lsub(gf(eng, st, p, t, 'max_size'), gf(eng, st, p, t, 'size')), 'size of a buffer exceeds its capacity'
            else:
                n = gf(eng, st, p, t, 'posn')
                yield n, 'protobuf position is negative'
                yield lsub(gf(eng, st, p, t, 'size'), n), 'protobuf position is past the end'
                if reader(eng.entry.name) is None and writer(eng.entry.name) is None:
                    yield ZERO, ''
                if writer(eng.entry.name) is not None:
                    yield lsub(ef(eng, p, t, 'posn'), n), 'writer moves the protobuf position forwards'
                if reader(eng.entry.name) is not None:
                    yield lsub(n, ef(eng, p, t, 'posn')), 'reader moves the protobuf position backwards'

    def locals(self, st):
        """views: local NoiseBuffers that point into something of known extent stay inside it"""
        eng = self.eng
        fo = finfo(eng.prog, 'NoiseBuffer', 'data')[0]
        for (b, o), f in list(eng.fieldof.items()):
            if f == ('NoiseBuffer', 'data') and o == fo and eng.syms[b].rkind == 'alloca' and st.mem.get(b) is not None:
                yield (0, ((b, 1),))

    def view(self, st, p):
        eng = self.eng
        d = gf(eng, st, p, 'NoiseBuffer', 'data')
        b, off = eng.base(eng.norm(st, d))
        lm = self.limit(st, b) if b is not None else None
        if lm is None:
            return None
        n = gf(eng, st, p, 'NoiseBuffer', 'size')
        return [off, n, lsub(lm[0], ladd(off, n)), lsub(gf(eng, st, p, 'NoiseBuffer', 'max_size'), n)]

    def loop_invariants(self, st, fn, H):
        eng = self.eng
        out = []
        for i in range(len(list(self.relations(st)))):
            out.append((lambda s, i=i: eng.add_ge(s, list(self.relations(s))[i][0]), lambda s, i=i: eng.prove_ge(s, list(self.relations(s))[i][0])))
        for p in self.locals(st):
            out.append((lambda s, p=p: all([eng.add_ge(s, v) for v in self.view(s, p) or ()]),
                        lambda s, p=p: self.view(s, p) is not None and all(eng.prove_ge(s, v) for v in self.view(s, p))))
        return out

    def on_return(self, st, v, fn):
        eng = self.eng
        if fn.name in LIMITED and self.buf is not None and isinstance(v, tuple):
            for s, ok in eng.split(st.fork(), Pred('eq', v)):
                if ok:
                    self.ob += 1
                    self.kinds['limit'] = self.kinds.get('limit', 0) + 1
                    if not eng.prove_ge(s, lsub(K(65535), gf(eng, s, self.buf, 'NoiseBuffer', 'size'))):
                        eng.report(s, 'message-limit', fn, None, '%s may leave a message of more than 65535 bytes' % fn.name)
        if fn.name in PREPARE and self.prep is not None and isinstance(v, tuple):
            for s, ok in eng.split(st.fork(), Pred('eq', v)):
                if ok:
                    self.ob += 1
                    if not eng.prove_ge(s, lsub(gf(eng, s, self.prep, 'NoiseProtobuf', 'size'), gf(eng, s, self.prep, 'NoiseProtobuf', 'posn'))):
                        eng.report(s, 'relations', fn, None, '%s may leave the position past the end' % fn.name)
        if fn.name in GETTERS:
            self.ob += 1
            if not (self.eng.prove_ge(st, v) and self.eng.prove_ge(st, lsub(K(GETTERS[fn.name]), v))):
                self.eng.report(st, 'relations', fn, None, '%s may return %s, more than %d' % (fn.name, show(self.eng, v), GETTERS[fn.name]))
        for x, text in self.relations(st):
            if x == ZERO:
                continue
            self.ob += 1
            self.kinds['relation'] = self.kinds.get('relation', 0) + 1
            if not self.eng.prove_ge(st, x):
                self.eng.report(st, 'relations', fn, None, text + ' when %s returns' % fn.name)


def setup(fn, types, cl, checked):
    def f(eng, st, args):
        for i, (a, t) in enumerate(zip(args, types)):
            if fn.params[i][0] == ('int', 64):
                eng.add_ge(st, a)
                eng.add_ge(st, lsub(K(BIG), a))
            for s, top in (('NoiseBuffer', 'max_size'), ('NoiseProtobuf', 'size')):
                if t and s == 'NoiseBuffer' and s in str(t):
                    cl.buf = a
                    if checked:
                        continue
                if t and s == 'NoiseProtobuf' and s in str(t) and fn.name in PREPARE:
                    cl.prep = a
                if t and s in str(t) and fn.name not in PREPARE:
                    cl.objs.append((a, s))
                    for fld in ('data', top, 'size' if s == 'NoiseBuffer' else 'posn', 'error'):
                        if fld != 'error' or s == 'NoiseProtobuf':
                            gf(eng, st, a, s, fld)
                    low = ef(eng, a, s, 'size' if s == 'NoiseBuffer' else 'posn')
                    eng.add_ge(st, lsub(ef(eng, a, s, top), low))
                    eng.add_ge(st, low)
                    eng.add_ge(st, lsub(K(BIG), ef(eng, a, s, top)))
        return st
    return f


def job(item):
    lib, f, checked = item
    cl = Check()
    e = lib.engine([Fork(), bounds.Invariants(), cl], inline=[f.name])
    e.join_facts = 2 if 'fallback' in f.name else 1
    e.run(f, setup(f, f.module.param_types(f)[1:], cl, checked))
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    r.count('obligations', cl.ob)
    r.count('unknown', cl.unknown)
    for k, n in cl.kinds.items():
        r.count('kind_' + k, n)
    return r


def check(ctx):
    lib = ctx.lib('ref')
    jobs = []
    for n in public.functions():
        f = lib.prog.ext.get(n)
        if f is not None and n not in ARRAYS:
            jobs.append((lib, f, False))
            if n in LIMITED:
                jobs.append((lib, f, True))
            ctx.count('functions')
    ctx.pmap(job, jobs)
