"""Typestate / event clients of the abstract interpreter that several rules share."""
from .absint import *
from .libmodels import getfield, fieldoff

# int-returning functions whose value is not an error code
NOT_ERR = {
    'noise_is_equal', 'noise_is_zero', 'noise_pattern_lookup', 'noise_name_to_id', 'noise_pattern_reverse_flags',
    'noise_protobuf_read_at_end_element', 'noise_protobuf_peek_tag', 'noise_protobuf_peek_size',
}


def is_err_fn(name, rettype, eng=None):
    """does this call report errors as a non-zero int?"""
    if rettype != ('int', 32):
        return False
    if name in NOT_ERR:
        return False
    for w in ('_get_', '_has_', '_needs_', '_count_', '_is_'):
        if w in name and name not in GET_ERR:
            return False
    return True


GET_ERR = {
    'noise_dhstate_get_keypair', 'noise_dhstate_get_public_key', 'noise_signstate_get_keypair',
    'noise_signstate_get_public_key', 'noise_handshakestate_get_protocol_id', 'noise_symmetricstate_get_protocol_id',
    'noise_handshakestate_get_handshake_hash',
}


def error_events(eng):
    """names of calls that are events and return an error code"""
    out = set()
    for n in eng.contract:
        f = eng.prog.ext.get(n)
        if f is not None and is_err_fn(n, f.rettype):
            out.add(n)
        if '_get_new_' in n:
            out.add(n)
    return out


SLOT_ERR = {
    'slot:NoiseCipherState_s.encrypt', 'slot:NoiseCipherState_s.decrypt',
    'slot:NoiseDHState_s.generate_keypair', 'slot:NoiseDHState_s.set_keypair', 'slot:NoiseDHState_s.set_keypair_private',
    'slot:NoiseDHState_s.validate_public_key', 'slot:NoiseDHState_s.copy', 'slot:NoiseDHState_s.calculate',
    'slot:NoiseSignState_s.generate_keypair', 'slot:NoiseSignState_s.validate_keypair',
    'slot:NoiseSignState_s.derive_public_key', 'slot:NoiseSignState_s.validate_public_key',
    'slot:NoiseSignState_s.sign', 'slot:NoiseSignState_s.verify',
}


class ErrFork:
    """splits each error-returning event into a success and a failure trace"""

    def __init__(self, extra=()):
        self.extra = set(extra)
        self.names = None

    def isev(self, c):
        if self.names is None:
            self.names = error_events(self.eng) | SLOT_ERR | self.extra
        return c.name in self.names

    def on_call_done(self, st, c, ret):
        if not self.isev(c) or not isinstance(ret, tuple):
            return None
        if c.callee is not None and c.name not in self.eng.contract:
            return None
        eng = self.eng
        out = []
        for s, tv in eng.split(st, Pred('eq', ret)):
            if s is not st:
                s.trail = (s.trail, '%s: %s %s' % (eng.where(c.fn, c.inst), c.name, 'succeeds' if tv else 'fails'))
            if not tv:
                self.failed(s, c, ret)
            else:
                self.succeeded(s, c, ret)
            out.append((s, ret))
        return out

    def failed(self, st, c, ret):
        pass

    def succeeded(self, st, c, ret):
        pass


class Trace(ErrFork):
    """records the sequence of events of interest in the ghost 'ev':
    (name, args, ret, snapshot, where)"""

    def __init__(self, names, snap=None, fork=True, extra=()):
        super().__init__(extra)
        self.want = names
        self.snapf = snap
        self.fork = fork

    def wants(self, c):
        return self.want(c.name) if callable(self.want) else c.name in self.want

    def on_call(self, st, c):
        if self.wants(c):
            c.pre = self.snapf(self.eng, st, c) if self.snapf else None

    def on_call_done(self, st, c, ret):
        w = self.wants(c)
        res = None
        if self.fork:
            res = super().on_call_done(st, c, ret)
        if not w:
            return res
        out = res if res is not None else [(st, ret)]
        for s, r in out:
            s.g['ev'] = s.g.get('ev', ()) + ((c.name, tuple(c.args), r, c.pre, self.eng.where(c.fn, c.inst)),)
        return out


def entry_sym(eng, b, off, size, ptr=False, width=None):
    """value a cell had when the entry point was called"""
    kind = 'ptr' if ptr else 'int'
    s = eng.newsym(('lazy', b, off, size, kind, ()), eng.lazyname(b, off), kind, width or 8 * size)
    if ptr and s.rkind is None:
        s.rkind = 'lazy'
    return (0, ((s.id, 1),))


class Outcome:
    """one way a function can return"""

    def __init__(self, eng, fn, st, ret):
        self.eng, self.fn, self.st, self.ret = eng, fn, st, ret

    def arg(self, i):
        t, n = self.fn.params[i]
        y = self.eng.newsym(('param', self.fn.name, i), n, 'ptr' if t[0] == 'ptr' else 'int', 64 if t[0] == 'ptr' else t[1])
        return (0, ((y.id, 1),))

    def entry(self, p, struct, name, size=8, ptr=False):
        b, off = self.eng.base(p)
        o = fieldoff(self.eng.prog, struct, name)
        return entry_sym(self.eng, b, off[0] + o, size, ptr)

    def exit(self, p, struct, name, size=8, ptr=False):
        return getfield(self.eng, self.st, p, struct, name, size, ptr)

    def eq(self, a, b=ZERO):
        return self.eng.prove_eq(self.st, a, b)

    def ne(self, a, b=ZERO):
        return self.eng.prove_ne(self.st, lsub(a, b))

    def ge(self, a, b=ZERO):
        return self.eng.prove_ge(self.st, lsub(a, b))

    def ev(self):
        return self.st.g.get('ev', ())

    def ok(self):
        """True: surely success, False: surely error, None: unknown"""
        if self.ret is None:
            return None
        return self.eng.decide(self.st, Pred('eq', self.ret))

    def split_ok(self):
        """[(Outcome, success?)]"""
        return [(Outcome(self.eng, self.fn, s, self.ret), tv) for s, tv in self.eng.split(self.st, Pred('eq', self.ret))]


def show(eng, lin):
    if lin is None:
        return 'none'
    if isinstance(lin, Pred):
        return repr(lin)
    if not lin[1]:
        return str(lin[0])
    t = []
    for s, k in lin[1]:
        n = eng.syms[s].name
        t.append(n if k == 1 else '%d*%s' % (k, n))
    if lin[0]:
        t.append(str(lin[0]))
    return '+'.join(t)
