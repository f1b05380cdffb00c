"""Transfer functions for vtable slots, constructors, destructors and protobuf cursor functions."""
import re
from .absint import *
from . import models as M
from .summ import Summaries

# ---- field lookup by name, from debug info --------------------------------------------------


def fieldoff(prog, struct, name):
    for o, n in prog.fieldnames.get(struct, {}).items():
        if n == name:
            return o
    raise Limit('field %s.%s not found' % (struct, name))


def getfield(eng, st, p, struct, name, size=8, ptr=False):
    o = fieldoff(eng.prog, struct, name)
    b, off = eng.base(eng.norm(st, p))
    if b is None:
        return None
    return eng.norm(st, eng.load_cell(st, b, ladd(off, K(o)), size, ptr, 8 * size, None))


def setfield(eng, st, p, struct, name, val, size=8):
    o = fieldoff(eng.prog, struct, name)
    b, off = eng.base(eng.norm(st, p))
    if b is not None:
        eng.store_cell(st, b, ladd(off, K(o)), size, val)


def finfo(prog, struct, name):
    f = prog.fieldinfo.get(struct, {}).get(name)
    if f is None:
        raise Limit('field %s.%s not found' % (struct, name))
    return f


def gf(eng, st, p, struct, name):
    """value of a field in this state, sized from the debug information"""
    off, size, isptr, bit, bo, bits = finfo(eng.prog, struct, name)
    b, o = eng.base(eng.norm(st, p))
    if b is None:
        return None
    if bit:
        v = eng.norm(st, eng.load_cell(st, b, ladd(o, K(bo // 8)), 1, False, 8, None))
        return K((v[0] >> (bo % 8)) & ((1 << bits) - 1)) if isconst(v) else None
    return eng.norm(st, eng.load_cell(st, b, ladd(o, K(off)), size, isptr, 8 * size, None))


def sf(eng, st, p, struct, name, val):
    off, size, isptr, bit, bo, bits = finfo(eng.prog, struct, name)
    b, o = eng.base(eng.norm(st, p))
    if b is not None:
        eng.store_cell(st, b, ladd(o, K(off)), size, val)


def ef(eng, p, struct, name):
    """value the field had on entry (p: a pointer that existed on entry)"""
    off, size, isptr, bit, bo, bits = finfo(eng.prog, struct, name)
    b, o = eng.base(p)
    kind = 'ptr' if isptr else 'int'
    s = eng.newsym(('lazy', b, o[0] + off, size, kind, ()), eng.lazyname(b, o[0] + off), kind, 8 * size)
    if isptr and s.rkind is None:
        s.rkind = 'lazy'
    return (0, ((s.id, 1),))


# ---- slots -----------------------------------------------------------------------------------

def int_slot(name, outs):
    def f(eng, st, c):
        for a, n in outs:
            v = c.args[a]
            eng.clobber(st, v, n(eng, st, c), c)
        return [(st, eng.retval(c))]
    return f


def keys_of(arg, struct='NoiseDHState_s', fields=('private_key', 'public_key')):
    def f(eng, st, c):
        for fl in fields:
            p = getfield(eng, st, c.args[arg], struct, fl, 8, True)
            ln = getfield(eng, st, c.args[arg], struct, fl + '_len', 2)
            if p is not None:
                eng.clobber(st, p, ln, c)
        return [(st, eng.retval(c))]
    return f


def new_object(eng, st, c, struct=None):
    eng.fresh_ctr += 1
    y = eng.newsym(None, 'obj@%s#%d' % (eng.where(c.fn, c.inst), eng.fresh_ctr), 'ptr', 64, 1, U64, origin=('heap', c.name))
    y.rkind = 'heap'
    y.nonnull = True
    y.extra = ('object', c.name)
    st.mem[y.id] = Region()
    return y


def ret_object(eng, st, c):
    """T *new(void): object or NULL"""
    s2 = st.fork()
    y = new_object(eng, s2, c)
    s2.trail = (s2.trail, '%s: %s succeeds' % (eng.where(c.fn, c.inst), c.name))
    st.trail = (st.trail, '%s: %s returns NULL' % (eng.where(c.fn, c.inst), c.name))
    for hk in eng.h_alloc:
        hk(s2, y.id, c)
    return [(s2, (0, ((y.id, 1),))), (st, ZERO)]


def out_object(idx, extra_null_ok=False):
    """int new(T **out, ...): on success *out is a new object, on failure *out is NULL"""
    def f(eng, st, c):
        out = c.args[idx]
        s_ok = st.fork()
        res = []
        if eng.decide(s_ok, Pred('eq', out)) is not True:
            y = new_object(eng, s_ok, c)
            eng.store(s_ok, out, (0, ((y.id, 1),)), 8, c.inst, c.fn)
            s_ok.trail = (s_ok.trail, '%s: %s succeeds' % (eng.where(c.fn, c.inst), c.name))
            for hk in eng.h_alloc:
                hk(s_ok, y.id, c)
            res.append((s_ok, ZERO))
            eng.store(st, out, ZERO, 8, c.inst, c.fn)
        r = eng.retval(c)
        eng.add_ne(st, r)
        st.trail = (st.trail, '%s: %s fails' % (eng.where(c.fn, c.inst), c.name))
        res.append((st, r))
        return res
    return f


def free_object(eng, st, c):
    for hk in eng.h_free:
        hk(st, c.args[0], c)
    if c.rettype[0] == 'void':
        return [(st, None)]
    d = eng.decide(st, Pred('eq', c.args[0]))
    if d is True:
        r = eng.retval(c)
        eng.add_ne(st, r)
        return [(st, r)]
    if d is False:
        return [(st, ZERO)]
    return [(st, eng.retval(c))]


CLEN = lambda i: (lambda eng, st, c: c.args[i])


def slot_models():
    m = {}
    m['slot:NoiseCipherState_s.create'] = ret_object
    m['slot:NoiseCipherState_s.init_key'] = lambda e, s, c: [(s, None)]

    def crypt(e, s, c):
        ln = c.args[4]
        ml = gf(e, s, c.args[0], 'NoiseCipherState_s', 'mac_len')
        e.clobber(s, c.args[3], ladd(ln, ml if ml is not None else K(16)), c)
        return [(s, e.retval(c))]
    m['slot:NoiseCipherState_s.encrypt'] = crypt
    m['slot:NoiseCipherState_s.decrypt'] = crypt
    for st in ('NoiseCipherState_s', 'NoiseHashState_s', 'NoiseDHState_s', 'NoiseSignState_s'):
        m['slot:%s.destroy' % st] = lambda e, s, c: [(s, None)]
    m['slot:NoiseHashState_s.reset'] = lambda e, s, c: [(s, None)]
    m['slot:NoiseHashState_s.update'] = lambda e, s, c: [(s, None)]

    def fin(e, s, c):
        ln = getfield(e, s, c.args[0], 'NoiseHashState_s', 'hash_len', 2)
        if ln is not None:
            e.add_ge(s, ladd(lneg(ln), K(64)))
        e.clobber(s, c.args[1], ln, c)
        return [(s, None)]
    m['slot:NoiseHashState_s.finalize'] = fin
    m['slot:NoiseDHState_s.generate_keypair'] = keys_of(0)
    m['slot:NoiseDHState_s.set_keypair'] = keys_of(0)
    m['slot:NoiseDHState_s.set_keypair_private'] = keys_of(0)
    m['slot:NoiseDHState_s.validate_public_key'] = lambda e, s, c: [(s, e.retval(c))]
    m['slot:NoiseDHState_s.copy'] = keys_of(0)
    m['slot:NoiseDHState_s.change_role'] = keys_of(0)

    def calc(e, s, c):
        ln = getfield(e, s, c.args[0], 'NoiseDHState_s', 'shared_key_len', 2)
        e.clobber(s, c.args[2], ln, c)
        return [(s, e.retval(c))]
    m['slot:NoiseDHState_s.calculate'] = calc
    m['slot:NoiseSignState_s.generate_keypair'] = keys_of(0, 'NoiseSignState_s')
    m['slot:NoiseSignState_s.validate_keypair'] = lambda e, s, c: [(s, e.retval(c))]

    def derive(e, s, c):
        ln = getfield(e, s, c.args[0], 'NoiseSignState_s', 'public_key_len', 2)
        e.clobber(s, c.args[2], ln, c)
        return [(s, e.retval(c))]
    m['slot:NoiseSignState_s.derive_public_key'] = derive
    m['slot:NoiseSignState_s.validate_public_key'] = lambda e, s, c: [(s, e.retval(c))]

    def sign(e, s, c):
        ln = getfield(e, s, c.args[0], 'NoiseSignState_s', 'signature_len', 2)
        e.clobber(s, c.args[3], ln, c)
        return [(s, e.retval(c))]
    m['slot:NoiseSignState_s.sign'] = sign
    m['slot:NoiseSignState_s.verify'] = lambda e, s, c: [(s, e.retval(c))]
    return m


# ---- protobuf cursor functions as events -------------------------------------------------------

def pb_state_fork(eng, st, c, ok, p=None):
    """sticky-error model: split on pbuf->error, then on success/failure of the operation"""
    p = c.args[0] if p is None else p
    res = []
    d = eng.decide(st, Pred('eq', p))
    if d is True:
        r = eng.retval(c)
        eng.add_ne(st, r)
        return [(st, r)]
    e = getfield(eng, st, p, 'NoiseProtobuf', 'error', 4)
    for s, tv in eng.split(st, Pred('eq', e)):
        if tv:
            s2 = s.fork()
            ok(s2)
            setfield(eng, s2, p, 'NoiseProtobuf', 'posn', eng.fresh('posn', 'int', 64))
            res.append((s2, ZERO))
            r = eng.fresh('err:' + c.name, 'int', 32, 1, (1 << 31) - 1, origin=('ret', c.name))
            setfield(eng, s, p, 'NoiseProtobuf', 'error', r, 4)
            s.trail = (s.trail, '%s: %s fails' % (eng.where(c.fn, c.inst), c.name))
            res.append((s, r))
        else:
            res.append((s, e))
    return res


def pb_simple(outs=()):
    def f(eng, st, c):
        def ok(s):
            for a, n in outs:
                eng.clobber(s, c.args[a], K(n) if isinstance(n, int) else n(eng, s, c), c)
        return pb_state_fork(eng, st, c, ok)
    return f


def pb_alloc(out_i, size_i):
    def f(eng, st, c):
        def ok(s):
            y = new_object(eng, s, c)
            y.size = None
            eng.store(s, c.args[out_i], (0, ((y.id, 1),)), 8, c.inst, c.fn)
            eng.clobber(s, c.args[size_i], K(8), c)
            sb, so = eng.base(eng.norm(s, c.args[size_i]))
            if sb is not None and isconst(so):
                n = eng.load_cell(s, sb, so, 8, False, 64, None)
                eng.add_ge(s, lsub(K(1 << 62), n))
                y.size = n                          # strings have one more, for the terminator
            for hk in eng.h_alloc:
                hk(s, y.id, c)
        # outputs are nulled first
        res = pb_state_fork(eng, st, c, ok)
        for s, r in res:
            if r != ZERO:
                eng.store(s, c.args[out_i], ZERO, 8, c.inst, c.fn)
                eng.store(s, c.args[size_i], ZERO, 8, c.inst, c.fn)
        return res
    return f


def pb_read_obj(eng, st, c):
    def ok(s):
        y = new_object(eng, s, c)
        eng.store(s, c.args[2], (0, ((y.id, 1),)), 8, c.inst, c.fn)
        for hk in eng.h_alloc:
            hk(s, y.id, c)
    res = pb_state_fork(eng, st, c, ok)
    for s, r in res:
        if r != ZERO:
            eng.store(s, c.args[2], ZERO, 8, c.inst, c.fn)
    return res


def pb_at_end(eng, st, c):
    """true once an error is set or the end position is reached"""
    p = c.args[0]
    e = getfield(eng, st, p, 'NoiseProtobuf', 'error', 4)
    if e is None:
        return [(st, ONE)]
    res = []
    for s, tv in eng.split(st, Pred('eq', e)):
        if not tv:
            res.append((s, ONE))
        else:
            s2 = s.fork()
            res.append((s, ONE))
            res.append((s2, ZERO))
    return res


def pb_prepare(eng, st, c):
    p = c.args[0]
    s2 = st.fork()
    setfield(eng, st, p, 'NoiseProtobuf', 'error', ZERO, 4)
    if c.name.endswith('measure'):
        setfield(eng, st, p, 'NoiseProtobuf', 'data', ZERO)
        setfield(eng, st, p, 'NoiseProtobuf', 'size', c.args[1])
    else:
        setfield(eng, st, p, 'NoiseProtobuf', 'data', c.args[1])
        setfield(eng, st, p, 'NoiseProtobuf', 'size', c.args[2])
    setfield(eng, st, p, 'NoiseProtobuf', 'posn', ZERO if 'input' in c.name else eng.fresh('posn', 'int', 64))
    r = eng.fresh('err:' + c.name, 'int', 32, 1, (1 << 31) - 1, origin=('ret', c.name))
    setfield(eng, s2, p, 'NoiseProtobuf', 'error', r, 4)
    s2.trail = (s2.trail, '%s: %s fails' % (eng.where(c.fn, c.inst), c.name))
    return [(st, ZERO), (s2, r)]


def pb_finish_input(eng, st, c):
    return pb_state_fork(eng, st, c, lambda s: None)


def pb_finish_output(eng, st, c):
    def ok(s):
        d = getfield(eng, s, c.args[0], 'NoiseProtobuf', 'data', 8, True)
        sz = getfield(eng, s, c.args[0], 'NoiseProtobuf', 'size', 8)
        n = eng.fresh('outlen', 'int', 64)
        eng.add_ge(s, lsub(sz, n))
        if 'shift' in c.name:
            eng.store(s, c.args[1], d, 8, c.inst, c.fn)
        elif c.name.endswith('output'):
            if eng.base(d)[0] is not None:
                o = eng.fresh('outoff', 'int', 64)
                eng.add_eq(s, lsub(ladd(o, n), sz))
                eng.store(s, c.args[1], ladd(d, o), 8, c.inst, c.fn)
        eng.store(s, c.args[1 if c.name.endswith('measure') else 2], n, 8, c.inst, c.fn)
    res = pb_state_fork(eng, st, c, ok)
    for s, r in res:
        if r != ZERO:
            if c.name.endswith('measure'):
                eng.store(s, c.args[1], ZERO, 8, c.inst, c.fn)
            else:
                eng.store(s, c.args[1], ZERO, 8, c.inst, c.fn)
                eng.store(s, c.args[2], ZERO, 8, c.inst, c.fn)
    return res


def array_add(eng, st, c):
    """noise_protobuf_add_to_array / insert_into_array(array, count, max, ... &value, size): takes the element on success"""
    s2 = st.fork()
    vi = 3 if 'add' in c.name else 4
    bv = eng.base(eng.norm(st, c.args[vi]))
    if bv[0] is not None:
        val = eng.load_cell(st, bv[0], bv[1], 8, True, 64, None)
        for hk in eng.h_escape:
            hk(st, val, c)
    for i in (0, 1, 2):
        eng.clobber(st, c.args[i], K(8), c)
    r = eng.fresh('err:' + c.name, 'int', 32, 1, (1 << 31) - 1, origin=('ret', c.name))
    s2.trail = (s2.trail, '%s: %s fails' % (eng.where(c.fn, c.inst), c.name))
    return [(st, ZERO), (s2, r)]


def protobuf_models(prog):
    m = {}
    F = 'noise_protobuf_'
    for t, n in (('int32', 4), ('uint32', 4), ('int64', 8), ('uint64', 8), ('sint32', 4), ('sint64', 8), ('sfixed32', 4),
                 ('fixed32', 4), ('sfixed64', 8), ('fixed64', 8), ('float', 4), ('double', 8), ('bool', 4)):
        m[F + 'write_' + t] = pb_simple()
        m[F + 'read_' + t] = pb_simple([(2, n)])
    m[F + 'write_string'] = m[F + 'write_bytes'] = pb_simple()
    m[F + 'write_end_element'] = pb_simple([(1, 8)])
    m[F + 'write_start_element'] = pb_simple()
    m[F + 'read_start_element'] = pb_simple([(2, 8)])
    m[F + 'read_end_element'] = pb_simple()
    m[F + 'read_skip'] = pb_simple()
    m[F + 'read_stop'] = pb_simple()
    m[F + 'read_at_end_element'] = pb_at_end
    m[F + 'peek_tag'] = lambda e, s, c: [(s, e.retval(c))]
    m[F + 'peek_size'] = lambda e, s, c: [(s, e.retval(c))]
    m[F + 'read_string'] = m[F + 'read_bytes'] = pb_simple([(2, CLEN(3)), (4, 8)])
    m[F + 'read_alloc_string'] = m[F + 'read_alloc_bytes'] = pb_alloc(2, 4)
    for x in ('input', 'output', 'measure'):
        m[F + 'prepare_' + x] = pb_prepare
    m[F + 'finish_input'] = pb_finish_input
    m[F + 'finish_output'] = m[F + 'finish_output_shift'] = m[F + 'finish_measure'] = pb_finish_output
    m[F + 'add_to_array'] = m[F + 'insert_into_array'] = array_add
    m[F + 'free_memory'] = free_object
    return m


def certificate_models(prog):
    m = {}
    for n in prog.ext:
        if not n.startswith('Noise_'):
            continue
        if re.match(r'Noise_[A-Za-z]+_new$', n):
            m[n] = out_object(0)
        elif n.endswith('_free'):
            m[n] = free_object
        elif re.match(r'Noise_[A-Za-z]+_read$', n):
            m[n] = pb_read_obj
        elif re.match(r'Noise_[A-Za-z]+_write$', n):
            m[n] = pb_simple()
        elif re.match(r'Noise_[A-Za-z]+_insert_\w+$', n):
            def ins(eng, st, c):
                s2 = st.fork()
                for hk in eng.h_escape:
                    hk(st, c.args[2], c)
                r = eng.fresh('err:' + c.name, 'int', 32, 1, (1 << 31) - 1, origin=('ret', c.name))
                s2.trail = (s2.trail, '%s: %s fails' % (eng.where(c.fn, c.inst), c.name))
                return [(st, ZERO), (s2, r)]
            m[n] = ins
    return m


OUT_CTORS = {
    'noise_cipherstate_new_by_id': 0, 'noise_cipherstate_new_by_name': 0,
    'noise_hashstate_new_by_id': 0, 'noise_hashstate_new_by_name': 0,
    'noise_dhstate_new_by_id': 0, 'noise_dhstate_new_by_name': 0,
    'noise_signstate_new_by_id': 0, 'noise_signstate_new_by_name': 0,
    'noise_randstate_new': 0,
    'noise_symmetricstate_new_by_id': 0, 'noise_symmetricstate_new_by_name': 0,
    'noise_handshakestate_new_by_id': 0, 'noise_handshakestate_new_by_name': 0,
}
RET_CTORS = ['noise_chachapoly_new', 'noise_aesgcm_new', 'noise_aesgcm_new_ref', 'noise_aesgcm_new_openssl',
             'noise_aesgcm_new_sodium', 'noise_blake2s_new', 'noise_blake2b_new', 'noise_sha256_new',
             'noise_sha512_new', 'noise_curve25519_new', 'noise_curve448_new', 'noise_newhope_new', 'noise_ed25519_new']
FREES = ['noise_cipherstate_free', 'noise_hashstate_free', 'noise_dhstate_free', 'noise_signstate_free',
         'noise_randstate_free', 'noise_symmetricstate_free', 'noise_handshakestate_free']


def split_model(eng, st, c):
    """noise_symmetricstate_split / noise_handshakestate_split(state, **c1, **c2)"""
    res = []
    s_ok = st.fork()
    for i in (1, 2):
        if eng.decide(s_ok, Pred('eq', c.args[i])) is True:
            continue
        for s, tv in eng.split(s_ok, Pred('eq', c.args[i]))[:]:
            pass
        y = new_object(eng, s_ok, c)
        eng.store(s_ok, c.args[i], (0, ((y.id, 1),)), 8, c.inst, c.fn)
        for hk in eng.h_alloc:
            hk(s_ok, y.id, c)
        eng.store(st, c.args[i], ZERO, 8, c.inst, c.fn)
    res.append((s_ok, ZERO))
    r = eng.retval(c)
    eng.add_ne(st, r)
    st.trail = (st.trail, '%s: %s fails' % (eng.where(c.fn, c.inst), c.name))
    res.append((st, r))
    return res


def buffer_out(idx, grow=None):
    """library call taking a NoiseBuffer*: its size changes within max_size, its contents change"""
    def f(eng, st, c):
        v = c.args[idx]
        if eng.decide(st, Pred('eq', v)) is not True:
            d = getfield(eng, st, v, 'NoiseBuffer', 'data', 8, True)
            mx = getfield(eng, st, v, 'NoiseBuffer', 'max_size', 8)
            sz = getfield(eng, st, v, 'NoiseBuffer', 'size', 8)
            if d is not None:
                eng.clobber(st, d, mx, c)
                n = eng.fresh('size:' + c.name, 'int', 64)
                eng.add_ge(st, lsub(mx, n))
                if grow == 'in':
                    eng.add_ge(st, lsub(sz, n))
                setfield(eng, st, v, 'NoiseBuffer', 'size', n)
        return [(st, eng.retval(c))]
    return f


def contract():
    import os
    with open(os.path.join(os.path.dirname(__file__), 'contract.txt')) as f:
        return set(x.strip() for x in f if x.strip())


def special_models(prog):
    m = {}
    for n, i in OUT_CTORS.items():
        m[n] = out_object(i)
    for n in RET_CTORS:
        m[n] = ret_object
    for n in FREES:
        m[n] = free_object

    def nf(eng, st, c):
        for hk in eng.h_free:
            hk(st, c.args[0], c)
        return [(st, None)]
    m['noise_free'] = nf
    m['noise_new_object'] = lambda e, s, c: M.heap_alloc(e, s, c, c.args[0], True)
    m['noise_is_zero'] = m['noise_is_equal'] = lambda e, s, c: [(s, e.retval(c, lo=0, hi=1))]
    m['noise_symmetricstate_split'] = split_model
    m['noise_handshakestate_split'] = split_model
    for n in ('noise_symmetricstate_encrypt_and_hash',):
        m[n] = buffer_out(1)
    m['noise_symmetricstate_decrypt_and_hash'] = buffer_out(1, 'in')
    m['noise_cipherstate_encrypt'] = buffer_out(1)
    m['noise_cipherstate_decrypt'] = buffer_out(1, 'in')
    m['noise_cipherstate_encrypt_with_ad'] = buffer_out(3)
    m['noise_cipherstate_decrypt_with_ad'] = buffer_out(3, 'in')
    m.update(protobuf_models(prog))
    m.update(certificate_models(prog))
    return m


class Lib:
    """contract set, models and summaries for one program"""

    def __init__(self, prog):
        self.prog = prog
        self.contract = contract() | {'noise_clean'}
        self.contract -= self.transparent()
        self.summ = Summaries(prog, self.contract, slot_models(), special_models(prog))
        self.base = self.summ.models()

    def transparent(self):
        """getters and forwarders: loop-free functions without stores that make at most one call; always inlined,
        so reading a field directly or through its accessor is the same thing"""
        out = set()
        for n in self.contract:
            f = self.prog.ext.get(n)
            if f is None or n in special_models(self.prog):
                continue
            f.analyze()
            calls = [i for b in f.order for i in b.insts if i.op == 'call' and not (i.a[0][0] == 'g' and i.a[0][1].startswith('llvm.'))]
            stores = [i for b in f.order for i in b.insts if i.op == 'store']
            if f._loops or stores or len(calls) > 1 or len(f.order) > 12:
                continue
            if calls and (calls[0].a[0][0] != 'g' or self.prog.resolve(f.module, calls[0].a[0][1]) is None):
                continue
            out.add(n)
        return out

    def engine(self, clients, inline=(), override=None, only=None, **kw):
        con = set(self.contract)
        con -= set(inline)
        models = dict(self.base)
        if override:
            models.update(override)
        e = Engine(self.prog, models, contract=con, clients=clients, **kw)
        e.h_alloc = [c.on_alloc for c in e.clients if hasattr(c, 'on_alloc')]
        e.h_free = [c.on_free for c in e.clients if hasattr(c, 'on_free')]
        e.h_escape = [c.on_escape for c in e.clients if hasattr(c, 'on_escape')]
        return e
