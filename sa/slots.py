"""Which functions each backend constructor installs in the object function tables."""
from .absint import *


class SlotMap:
    def __init__(self):
        self.map = {}

    def on_store(self, st, b, off, size, val, inst, fn):
        if size != 8 or b is None or not isinstance(val, tuple):
            return
        v = self.eng.norm(st, val)
        if v[0] == 0 and len(v[1]) == 1 and self.eng.syms[v[1][0][0]].rkind == 'fn':
            f = self.eng.fieldof.get((b, off[0] if isconst(off) else off))
            if f:
                t = self.eng.syms[v[1][0][0]].extra
                self.map.setdefault('%s.%s' % f, {}).setdefault(id(t), (t, set()))[1].add((self.eng.entry.name, fn.name if fn else ''))


def slot_functions(lib):
    """{'NoiseCipherState_s.encrypt': [functions]}"""
    cached = getattr(lib, '_slots', None)
    if cached is not None:
        return cached
    out = {}
    for f in list(lib.prog.functions()):
        if not takes_function(lib.prog, f):
            continue
        cl = SlotMap()
        e = lib.engine([cl])
        e.run(f)
        for k, d in cl.map.items():
            for t, why in d.values():
                cur = out.setdefault(k, [])
                if t not in [x for x, _ in cur]:
                    cur.append((t, sorted(why)))
    lib._slots = out
    return out


def _grefs(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'g' and isinstance(x[1], str):
            yield x[1]
        else:
            for y in x:
                yield from _grefs(y)
    elif isinstance(x, list):
        for y in x:
            yield from _grefs(y)


def takes_function(prog, f):
    """does f mention the address of a function (other than to call it)?"""
    for b in f.order:
        for i in b.insts:
            ops = i.a[1:] if i.op == 'call' else i.a
            for n in _grefs(ops):
                if prog.resolve(f.module, n) is not None:
                    return True
    return False
