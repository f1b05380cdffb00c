"""C05: an error reported by any sub-operation makes the enclosing operation report an error."""
from ..absint import *
from .. import clients, errcodes, slots
from ..libmodels import getfield
from ..run import Result, engine_result

RULES = ['error-drop: on every path of every public function on which an error-returning library call, backend slot, '
         'allocation-failing constructor or protobuf operation has failed, the value returned is provably non-zero, '
         'unless the (function, callee) pair is an enumerated recovery',
         'backend-error-drop: on every path of every backend operation that returns an error code, in all three build configurations, on which a '
         'fallible operation of the cryptographic library under it has failed, the value returned is non-zero']
EXPLANATION = ('path-sensitive interpretation of every public function; each error-returning event is split into a '
               'success and a failure trace; obligation per failing return path: returned value != 0')
MIN = {'functions': 200, 'events': 250, 'obligations': 400, 'slot_functions': 25, 'slot_obligations': 10}

# error codes that only report misuse by the caller of that very function (null, wrong length, wrong state, replayed nonce).
# A callee all of whose failures are of this kind is "validation-only" (computed below from its body on every run);
# ignoring its result where the library itself built the arguments is not an error drop.
MISUSE = {4096 + 2, 4096 + 3}   # filled in from the header below

# (entry, failing callee) whose failure is answered by a retry that must itself succeed: a later success of the same
# call discharges the obligation
RETRY = {
    ('noise_save_private_key_to_buffer', 'noise_cipherstate_encrypt_with_ad'):
        'a derived nonce equal to the reserved value is answered with a fresh salt',
}


def null_key(eng, st, c):
    """documented recovery: the backend's verdict on an all-zero public key is overridden where nulls are allowed.
    Pointer to the key that must have been proven all-zero, or None when this callee has no such recovery"""
    if c.name == 'slot:NoiseDHState_s.validate_public_key':
        return eng.norm(st, c.args[1])
    if c.name == 'slot:NoiseDHState_s.calculate':
        return getfield(eng, st, c.args[1], 'NoiseDHState_s', 'public_key', 8, True)
    return None

# operations of the libraries under the backends that can fail, with the documented failing results
EXT = {'EVP_EncryptInit_ex': 0, 'EVP_DecryptInit_ex': 0, 'EVP_EncryptInit_ex2': 0, 'EVP_DecryptInit_ex2': 0, 'EVP_EncryptUpdate': 0,
       'EVP_DecryptUpdate': 0, 'EVP_EncryptFinal_ex': 0, 'EVP_DecryptFinal_ex': '<=0', 'EVP_CIPHER_CTX_ctrl': 0, 'EVP_CIPHER_CTX_reset': 0,
       'EVP_CipherInit_ex': 0, 'EVP_CipherUpdate': 0, 'EVP_CipherFinal_ex': '<=0',
       'crypto_aead_aes256gcm_decrypt_afternm': -1, 'crypto_aead_aes256gcm_decrypt': -1,
       'crypto_aead_chacha20poly1305_ietf_decrypt': -1, 'crypto_sign_ed25519_verify_detached': -1, 'crypto_sign_verify_detached': -1,
       'ed25519_sign_open': '!=0', 'crypto_scalarmult_curve25519': -1, 'crypto_scalarmult': -1}

# entry points whose int result is not an error code
SKIP_RET = clients.NOT_ERR


class ErrDrop(clients.ErrFork):
    def __init__(self, entry='', slot=False):
        super().__init__()
        self.slot = slot
        self.entry = entry
        self.recov = 0
        self.sites = set()
        self.ob = 0
        self.deps = set()
        self.real = False

    def failed(self, st, c, ret):
        w = self.eng.where(c.fn, c.inst)
        self.sites.add((c.fn.name, c.name, w))
        if 'failed' not in st.g:
            st.g['failed'] = frozenset([(c.name, w, c.fn.name, null_key(self.eng, st, c))])

    def succeeded(self, st, c, ret):
        fs = st.g.get('failed')
        if fs and (self.entry, c.name) in RETRY:
            fs = frozenset(x for x in fs if x[0] != c.name)
            if fs:
                st.g['failed'] = fs
            else:
                del st.g['failed']

    def on_call_done(self, st, c, ret):
        how = EXT.get(c.name)
        if how is not None and isinstance(ret, tuple) and self.slot:
            eng = self.eng
            bad = Pred('ge', lneg(ret)) if how == '<=0' else Pred('ge', ladd(lneg(ret), K(-1))) if how == -1 else Pred('eq', ret, how == '!=0')
            out = []
            for s, tv in eng.split(st, bad):
                if tv:
                    s.trail = (s.trail, '%s: %s fails' % (eng.where(c.fn, c.inst), c.name))
                    self.failed(s, c, ret)
                elif how == -1:
                    eng.add_eq(s, ret)      # these return 0 or -1
                out.append((s, ret))
            return out
        if self.slot and not c.name.startswith(('noise_', 'slot:')):
            return None
        if c.name == 'noise_is_zero' and self.entry.startswith('noise_dhstate_'):
            st.g['zero'] = st.g.get('zero', ()) + ((self.eng.norm(st, c.args[0]), ret),)
            return None
        return super().on_call_done(st, c, ret)

    def on_return(self, st, v, fn):
        fs = st.g.get('failed')
        if fn.rettype != ('int', 32):
            return
        self.classify(st, v, fs)
        if not fs:
            return
        self.ob += 1
        if isinstance(v, Pred):
            d = self.eng.decide(st, v)
            ok = d is True
        else:
            ok = self.eng.prove_ne(st, v)
        if ok:
            return
        for name, w, f, key in sorted(fs, key=str):
            if key is not None and any(self.eng.prove_eq(st, p, key) and self.eng.prove_eq(st, r, ONE)
                                       for p, r in st.g.get('zero', ())):
                self.recov += 1
                continue
            self.eng.report(st, 'backend-error-drop' if self.slot else 'error-drop', fn, None, '%s may return success although %s (called in %s at %s) failed' % (fn.name, name, f, w))


    def classify(self, st, v, fs):
        """is this failing return more than a misuse report?"""
        if isinstance(v, tuple):
            v = self.eng.norm(st, v)
            if isconst(v) and v[0] == 0:
                return
        if fs:
            self.deps |= {x[0] for x in fs}
        elif not (isinstance(v, tuple) and isconst(v) and v[0] in MISUSE):
            self.real = True


def job(item):
    lib, f, slot = item
    cl = ErrDrop(f.name, slot)
    e = lib.engine([cl])
    e.run(f)
    r = Result()
    seen = set()
    for rep in e.reports:
        if rep.msg in seen:
            continue
        seen.add(rep.msg)
        callee = rep.msg.split('although ')[1].split(' ')[0]
        from ..run import V
        r.viol.append(V(rep.rule, rep.where, '%s<-%s' % (f.name if not slot else f.module.name + ':' + f.name, callee), rep.msg, rep.path, lib.prog.config))
    r.data = (f.name, cl.real, cl.deps)
    if slot:
        r.count('slot_functions')
        r.count('slot_obligations', cl.ob)
        return r
    r.count('functions')
    r.count('events', len(cl.sites))
    r.count('obligations', cl.ob)
    r.count('null_key_recoveries', cl.recov)
    r.samples = [{'function': f.name, 'events': sorted('%s at %s' % (n, w) for _, n, w in cl.sites)[:5]}] if cl.sites else []
    return r


def targets(lib):
    return [f for f in lib.prog.functions() if not f.internal and f.name.lower().startswith('noise_') and f.rettype == ('int', 32)
            and f.name not in SKIP_RET and clients.is_err_fn(f.name, f.rettype)]


def check(ctx):
    lib = ctx.lib('ref')
    codes = errcodes.read(ctx)
    MISUSE.clear()
    for n in ('INVALID_PARAM', 'INVALID_LENGTH', 'INVALID_STATE', 'NOT_APPLICABLE', 'INVALID_NONCE', 'UNKNOWN_ID', 'UNKNOWN_NAME'):
        MISUSE.add(codes['NOISE_ERROR_' + n])
    rs = ctx.pmap(job, [(lib, f, False) for f in targets(lib)])
    info = {r.data[0]: r.data[1:] for r in rs}
    real = {n for n, (re_, _) in info.items() if re_}
    ch = True
    while ch:
        ch = False
        for n, (_, deps) in info.items():
            if n not in real and any(d in real or d not in info for d in deps):
                real.add(n)
                ch = True
    keep = []
    for v in ctx.res.viol:
        callee = v.inst.split('<-')[1]
        if callee in info and callee not in real:
            ctx.count('validation_only_calls')
        else:
            keep.append(v)
    ctx.res.viol = keep
    items = []
    for cfg in ('ref', 'sodium', 'openssl'):
        l = ctx.lib(cfg)
        fs = {}
        for k, v in slots.slot_functions(l).items():
            for f, _ in v:
                if f.rettype == ('int', 32) and 'NoiseProtobuf' not in k:
                    fs[(f.module.name, f.name)] = f
        ctx.require(len(fs) >= 8, 'backend operations of configuration %s' % cfg)
        items += [(l, f, True) for _, f in sorted(fs.items(), key=lambda x: x[0]) if cfg == 'ref' or '/%s/' % cfg in f.module.name]
    ctx.pmap(job, items)
    ctx.res.cov['validation_only_functions'] = len([n for n in info if n not in real])
    ctx.res.samples.append({'validation_only': sorted(n for n in info if n not in real and info[n][1] is not None)[:20]})
