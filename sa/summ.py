"""Automatic side-effect summaries for the library's own external functions, computed from their current bodies,
and constructor models.  Used as transfer functions when a rule treats a library function as an event."""
from .absint import *
from . import models as M


class ModClient:
    """collects which caller-visible bytes a function may write"""

    def __init__(self):
        self.mods = {}
        self.rets = set()
        self.retunk = False

    def path(self, b):
        eng = self.eng
        p = []
        for _ in range(12):
            y = eng.syms[b]
            o = y.origin
            if o is None:
                return None
            if o[0] == 'param':
                return (o[2],) + tuple(reversed(p))
            if o[0] == 'lazy':
                p.append(o[2])
                b = o[1]
                continue
            if o[0] == 'ldsym':
                p.append('*')
                b = o[1]
                continue
            return None
        return None

    def add(self, st, b, off, size):
        if b is None:
            return
        y = self.eng.syms[b]
        if y.rkind in ('alloca', 'heap', 'fn'):
            return
        if y.rkind == 'global':
            pth = ('@', y.name)
        else:
            pth = self.path(b)
        if pth is None:
            return
        lo = self.eng.lower(st, off)
        hi = self.eng.upper(st, off)
        if isinstance(size, tuple):
            hi += self.eng.upper(st, self.eng.norm(st, size))
        elif size is None:
            hi = 1 << 60
        else:
            hi += size
        if hi <= lo:
            return
        if hi > 1 << 40:
            hi = None
        self.mods.setdefault(pth, set()).add((max(lo, 0), hi))

    def on_store(self, st, b, off, size, val, inst, fn):
        self.add(st, b, off, size)

    def on_fill(self, st, b, off, val, length):
        self.add(st, b, off, length)

    def on_copy(self, st, db, doff, sb, soff, length):
        self.add(st, db, doff, length)

    def on_clobber(self, st, b, off, length, why):
        self.add(st, b, off, length)

    def on_return(self, st, v, fn):
        if isinstance(v, tuple):
            v = self.eng.norm(st, v)
            if isconst(v):
                self.rets.add(v[0])
                return
        self.retunk = True


def merge_iv(s):
    out = []
    for lo, hi in sorted(s, key=lambda x: (x[0], x[1] is None, x[1] or 0)):
        if out and (out[-1][1] is None or out[-1][1] >= lo):
            if out[-1][1] is not None:
                out[-1] = (out[-1][0], None if hi is None else max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return out


class Summaries:
    def __init__(self, prog, contract, slotmodels, special):
        self.prog = prog
        self.contract = contract
        self.slotmodels = slotmodels
        self.special = special
        self.cache = {}
        self.failed = []

    def models(self, include=None):
        from . import prims
        m = M.base_models()
        m.update(prims.prim_models())
        m.update(self.slotmodels)
        for n in self.contract:
            if n in m:
                continue
            if n in self.prog.ext:
                m[n] = self.model(n)
        m.update(self.special)
        return m

    def model(self, name):
        def f(eng, st, c):
            return self.apply(eng, st, c, name)
        return f

    def get(self, name):
        r = self.cache.get(name)
        if r is not None:
            return r
        self.cache[name] = ('clobber',)      # recursion: conservative
        fn = self.prog.ext[name]
        cl = ModClient()
        eng = Engine(self.prog, self.models(), contract=self.contract - {name}, clients=[cl], max_steps=150000)
        eng.h_alloc, eng.h_free = [], []
        try:
            eng.run(fn)
            r = ('mods', {k: merge_iv(v) for k, v in cl.mods.items()}, frozenset(cl.rets), cl.retunk)
        except Limit as e:
            self.failed.append((name, str(e)))
            r = ('clobber',)
        self.cache[name] = r
        return r

    def apply(self, eng, st, c, name):
        s = self.get(name)
        if s[0] == 'clobber':
            return eng.default_model(st, c)
        for pth, ivs in sorted(s[1].items(), key=repr):
            if pth[0] == '@':
                continue
            v = c.args[pth[0]] if pth[0] < len(c.args) else None
            ok = isinstance(v, tuple)
            for o in pth[1:]:
                if not ok:
                    break
                if o == '*':
                    ok = False
                    break
                b, off = eng.base(eng.norm(st, v))
                if b is None or off[1]:
                    ok = False
                    break
                v = eng.load_cell(st, b, ladd(off, K(o)), 8, True, 64, None)
                ok = isinstance(v, tuple)
            if not ok:
                continue
            b, off = eng.base(eng.norm(st, v))
            if b is None:
                continue
            for lo, hi in ivs:
                eng.clobber(st, ladd(v, K(lo)), K(hi - lo) if hi is not None else None, c)
        t = c.rettype
        rv = None
        if t[0] == 'int':
            rets, unk = s[2], s[3]
            if not unk and rets:
                if len(rets) == 1:
                    rv = K(next(iter(rets)))
                else:
                    rv = eng.fresh('ret:' + name, 'int', t[1], min(rets), max(rets), origin=('ret', name))
            else:
                rv = eng.retval(c)
        else:
            rv = eng.retval(c)
        return [(st, rv)]
