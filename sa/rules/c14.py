"""C14: null arguments are rejected, never dereferenced."""
from ..absint import *
from ..libmodels import fieldoff
from .. import clients, errcodes, public, slots
from ..run import Result, engine_result, V, Broken

RULES = [
    'dereference: with a null argument nothing is read or written through it, no byte operation of non-zero length and no backend operation receives it',
    'rejected: a required null argument makes a function with error codes return the invalid-parameter error, any other function zero or nothing',
    'no-effect: nothing the caller can see has been changed when a null argument is rejected, except results set to zero and the sticky error of a protobuf buffer',
    'no-data: a buffer object without a data pointer is rejected in the same way',
]
EXPLANATION = 'every path of every public function with one pointer argument fixed to null at a time, all other arguments and all object states arbitrary; nested public calls with a null argument are replaced by the rejection this check establishes for them'
MIN = {'functions': 380, 'pairs': 600, 'obligations': 20000, 'backend_functions': 15}
ASSUMPTIONS = ['pointers other than the null one and those stored in objects are valid']

# raw memory helpers and helpers of generated code, which document no check of their pointers
RAW = {'noise_clean', 'noise_is_equal', 'noise_is_zero', 'noise_protobuf_add_to_array', 'noise_protobuf_insert_into_array',
       'noise_protobuf_add_to_string_array', 'noise_protobuf_add_to_bytes_array'}
# arguments documented as optional
OPTIONAL = {
    'noise_perror': {0}, 'noise_free': {0}, 'noise_protobuf_free_memory': {0},
    'noise_dhstate_generate_dependent_keypair': {1}, 'noise_symmetricstate_split': {1, 2}, 'noise_handshakestate_split': {1, 2},
    'noise_handshakestate_write_message': {2}, 'noise_handshakestate_read_message': {2},
    'noise_protobuf_read_string': {4}, 'noise_protobuf_read_alloc_string': {4},
}
# optional exactly when the length given in another argument is zero
BY_LENGTH = {
    'noise_cipherstate_encrypt_with_ad': {1: 2}, 'noise_cipherstate_decrypt_with_ad': {1: 2},
    'noise_protobuf_write_string': {2: 3}, 'noise_protobuf_write_bytes': {2: 3},
}
# the error reported may be that of another argument that is also wrong
OTHER_FIRST = {
    'noise_format_fingerprint': {3}, 'noise_dhstate_format_fingerprint': {0}, 'noise_signstate_format_fingerprint': {0},    # empty output
    'noise_load_private_key_from_file': {2},                                                                              # unreadable file
}
# functions without error codes that report a null argument by another value
VALUE = {'noise_strerror': -1, 'noise_protobuf_read_at_end_element': 1}


# arguments the front end passes to backend operations as null (a length of zero goes with the last two)
SLOT_NULL = {'NoiseDHState_s.generate_keypair': (1, None), 'NoiseDHState_s.copy': (2, None),
             'NoiseCipherState_s.encrypt': (1, 2), 'NoiseCipherState_s.decrypt': (1, 2)}


class NullArg:
    def __init__(self, fn, i, mode, lib, names):
        self.fn, self.i, self.mode, self.lib, self.names = fn, i, mode, lib, names
        self.ob = 0
        self.rets = {}
        self.pts = fn.module.param_types(fn)[1:]
        self.codes = errcodes.constants('NOISE_ERROR_')

    def bad(self, st, rule, m, inst=None, fn=None):
        self.eng.report(st, rule, fn or self.fn, inst, m)

    def setup(self, eng, st, args):
        self.args = args
        if self.mode == 'data':
            b, off = eng.base(args[self.i])
            eng.add_ne(st, args[self.i])
            o = fieldoff(self.lib.prog, 'NoiseBuffer', 'data')
            eng.store_cell(st, b, K(o), 8, ZERO)
            return st
        eng.add_eq(st, args[self.i])
        if self.mode[0] == 'len':
            (eng.add_ne if self.mode[2] else eng.add_eq)(st, args[self.mode[1]])
        return st

    def required(self):
        return self.mode == 'req' or self.mode == 'data' or self.mode[0] == 'len' and self.mode[2]

    # ---- dereferences
    def on_load(self, st, b, off, size, v, inst, fn):
        self.ob += 1
        if b is None:
            self.bad(st, 'dereference', 'null is read through', inst, fn)

    def zero(self, st, n):
        return isinstance(n, tuple) and self.eng.decide(st, Pred('eq', n)) is True

    def on_call(self, st, c):
        if not c.slot:
            return
        self.ob += 1
        self.eff(st, None, c.inst, c.fn, 'calls %s' % c.name)
        for k, a in enumerate(c.args):
            if isinstance(a, tuple) and c.types[k][0] == 'ptr' and self.eng.decide(st, Pred('eq', a)) is True:
                if SLOT_NULL.get(c.name[5:], (None, 0)) == (k, None):
                    continue
                n = c.args[k + 1] if k + 1 < len(c.args) and c.types[k + 1][0] == 'int' else None
                if n is None or not self.zero(st, n):
                    self.bad(st, 'dereference', 'null is passed to %s' % c.name, c.inst, c.fn)

    # ---- effects
    def eff(self, st, b, inst, fn, what):
        if b is not None and self.eng.syms[b].rkind in ('alloca', 'heap'):
            return
        if not st.g.get('eff'):
            st.g['eff'] = '%s%s' % (what, ' (%s)' % self.eng.where(fn, inst) if inst is not None else '')

    def nulled(self, b, off, val):
        """is this a result set to zero"""
        if not (isinstance(val, tuple) and isconst(val) and val[0] == 0):
            return False
        if isconst(off) and self.eng.fieldof.get((b, off[0])) == ('NoiseBuffer', 'size'):
            return True
        o = self.eng.syms[b].origin
        if o is not None and o[0] == 'param':
            t, depth, const = self.pts[o[2]]
            return depth > 1 or not (t or '').lower().startswith('noise') or t == 'NoiseProtocolId'
        return False

    def on_store(self, st, b, off, size, val, inst, fn):
        self.ob += 1
        if b is None:
            self.bad(st, 'dereference', 'null is written through', inst, fn)
        elif not self.nulled(b, off, val) and not (self.fpzero(b, inst)) and not (isconst(off) and self.eng.fieldof.get((b, off[0])) == ('NoiseProtobuf', 'error')):
            self.eff(st, b, inst, fn, 'writes %s' % (self.eng.lazyname(b, off[0]) if isconst(off) else self.eng.syms[b].name))

    def fpzero(self, b, inst):
        o = self.eng.syms[b].origin
        return o is not None and o[0] == 'param' and inst is not None and self.pts[o[2]][0] in ('float', 'double')

    def on_copy(self, st, db, doff, sb, soff, length):
        self.ob += 1
        if (db is None or sb is None) and not self.zero(st, length):
            self.bad(st, 'dereference', 'null is copied %s' % ('to' if db is None else 'from'))
        if db is not None:
            self.eff(st, db, None, None, 'copies into %s' % self.eng.syms[db].name)

    def on_fill(self, st, b, off, val, length):
        self.ob += 1
        if b is None:
            if not self.zero(st, length):
                self.bad(st, 'dereference', 'null is filled')
        elif not self.nulled(b, off, val):
            self.eff(st, b, None, None, 'fills %s' % self.eng.syms[b].name)

    def on_clobber(self, st, b, off, length, why):
        self.ob += 1
        if b is None:
            if length is None or not self.zero(st, length):
                self.bad(st, 'dereference', 'null is written by %s' % why.name, why.inst, why.fn)
        else:
            self.eff(st, b, why.inst, why.fn, 'lets %s write %s' % (why.name, self.eng.syms[b].name))

    def on_free(self, st, p, c):
        b, off = self.eng.base(self.eng.norm(st, p))
        if b is not None:
            self.eff(st, b, c.inst, c.fn, 'frees %s' % self.eng.syms[b].name)

    # ---- verdict
    def on_return(self, st, v, fn):
        eng = self.eng
        self.ob += 1
        if not self.required():
            return
        what = 'a %s with no data' % self.fn.params[self.i][1] if self.mode == 'data' else 'a null %s' % self.fn.params[self.i][1]
        if st.g.get('eff') and self.rejects(st, v) is not False:
            self.bad(st, 'no-effect', '%s before %s is rejected' % (st.g['eff'], what))
        z = self.rejects(st, v)
        if z is not True:
            self.bad(st, 'rejected', '%s is not rejected' % what)

    def rejects(self, st, v):
        """True if the value returned is the rejection, False if it is not, None if it may be"""
        eng = self.eng
        if v is None or self.fn.rettype[0] == 'void':
            return True
        if isinstance(v, Pred):
            d = eng.decide(st, v)
            v = None if d is None else K(1 if d else 0)
            if v is None:
                return None
        if not isinstance(v, tuple):
            return None
        if not error_fn(self.fn):
            return eng.prove_eq(st, v, K(VALUE.get(self.fn.name, 0))) or None
        if self.fn.name in OTHER_FIRST and self.i in OTHER_FIRST[self.fn.name]:
            return eng.prove_ne(st, v)
        if eng.prove_eq(st, v, K(self.codes['NOISE_ERROR_INVALID_PARAM'])):
            return True
        return None if not isconst(eng.norm(st, v)) else False


def error_fn(f):
    return f.rettype == ('int', 32) and f.name not in VALUE and (clients.is_err_fn(f.name, f.rettype) or '_get_new_' in f.name)


def modes(f, i, pt):
    n = f.name
    if n in OPTIONAL and i in OPTIONAL[n]:
        return ['opt']
    if n in BY_LENGTH and i in BY_LENGTH[n]:
        return [('len', BY_LENGTH[n][i], True), ('len', BY_LENGTH[n][i], False)]
    if '_set_' in n and n.startswith('Noise_') and i == 1 and len(f.params) == 3 and f.params[2][0][0] == 'int':
        return [('len', 2, True), ('len', 2, False)]
    return ['req'] + (['data'] if pt[0] == 'NoiseBuffer' and pt[1] == 1 else [])


def overrides(lib, names):
    """a nested public call with a null argument behaves as this check establishes"""
    codes = errcodes.constants('NOISE_ERROR_')
    out = {}
    for n in names:
        f = lib.prog.ext.get(n)
        if f is None or n not in lib.contract or n in RAW:
            continue
        out[n] = wrapper(lib, f, lib.base.get(n), codes)
    return out


def wrapper(lib, f, base, codes):
    pts = f.module.param_types(f)[1:]

    def m(eng, st, c):
        for i, (t, _) in enumerate(f.params):
            if t[0] != 'ptr' or i >= len(c.args) or not isinstance(c.args[i], tuple) or eng.decide(st, Pred('eq', c.args[i])) is not True:
                continue
            for mo in modes(f, i, pts[i]):
                if mo == 'data':
                    continue
                if mo == 'req' or mo[0] == 'len' and mo[2] and eng.prove_ne(st, c.args[mo[1]]):
                    if c.rettype[0] == 'void':
                        return [(st, None)]
                    if not error_fn(f):
                        return [(st, K(VALUE.get(f.name, 0)))]
                    if f.name in OTHER_FIRST and i in OTHER_FIRST[f.name]:
                        r = eng.retval(c)
                        eng.add_ne(st, r)
                        return [(st, r)]
                    return [(st, K(codes['NOISE_ERROR_INVALID_PARAM']))]
        for i, (t, depth, const) in enumerate(pts):
            if t == 'NoiseBuffer' and depth == 1 and modes(f, i, pts[i])[-1] == 'data' and isinstance(c.args[i], tuple):
                b, off = eng.base(eng.norm(st, c.args[i]))
                if b is not None and isconst(off):
                    d = eng.load_cell(st, b, ladd(off, K(fieldoff(lib.prog, 'NoiseBuffer', 'data'))), 8, True, 64, None)
                    if eng.decide(st, Pred('eq', d)) is True:
                        return [(st, K(codes['NOISE_ERROR_INVALID_PARAM']))]
        return base(eng, st, c) if base is not None else eng.default_model(st, c)
    return m


def job(item):
    lib, f, i, mode, names = item
    c = NullArg(f, i, mode, lib, names)
    e = lib.engine([c], override=lib._null)
    e.run(f, c.setup)
    r = engine_result(e, lambda rep: '%s:%s %s %s' % (f.module.name.split('/')[-1], f.name, f.params[i][1] or i, rep.rule), lib.prog.config)
    r.count('pairs')
    r.count('obligations', c.ob)
    return r


def check(ctx):
    lib = ctx.lib('ref')
    names = public.functions()
    lib._null = overrides(lib, names)
    jobs = []
    for n in names:
        f = lib.prog.ext.get(n)
        if f is None or n in RAW:
            continue
        pts = f.module.param_types(f)[1:]
        some = False
        for i, (t, _) in enumerate(f.params):
            if t[0] == 'ptr':
                some = True
                for mo in modes(f, i, pts[i]):
                    jobs.append((lib, f, i, mo, None))
        if some:
            ctx.count('functions')
    for cfg in ('ref', 'sodium', 'openssl'):
        l2 = ctx.lib(cfg)
        l2._null = lib._null
        for k, fs in slots.slot_functions(l2).items():
            if k in SLOT_NULL:
                i, n = SLOT_NULL[k]
                for f, _ in fs:
                    if cfg == 'ref' or 'backend/%s' % cfg in f.module.name:
                        ctx.count('backend_functions')
                        jobs.append((l2, f, i, 'opt' if n is None else ('len', n, False), None))
    ctx.pmap(job, jobs)
