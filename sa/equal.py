"""The comparison helpers: noise_is_equal is 1 exactly for equal blocks and looks at every byte of every length; the same for noise_is_zero."""
from .absint import *
from . import clients
from .rules.c19 import region
from .run import engine_result, Broken, Result

SIZES = (0, 1, 2, 3, 8, 16, 17, 32, 56)
HELPERS = {'noise_is_equal': (0, 1, 2), 'noise_is_zero': (0, None, 1)}


class Case(clients.ErrFork):
    """blocks of n bytes: equal, or different in byte j and arbitrary elsewhere"""

    def __init__(self, fn, n, j, x, y, rule):
        super().__init__()
        self.fn, self.n, self.j, self.x, self.y, self.rule = fn, n, j, x, y, rule
        self.ob = 0

    def setup(self, eng, st, args):
        eng.unroll_width = 4000
        i1, i2, i3 = HELPERS[self.fn.name]
        eng.add_eq(st, lsub(args[i3], K(self.n)))
        ps = [args[i] for i in (i1, i2) if i is not None]
        for p in ps:
            eng.add_ne(st, p)
        for k in range(self.n):
            v = ZERO if len(ps) == 1 else eng.fresh('b%d' % k, 'int', 8, 0, 255)
            for q, p in enumerate(ps):
                b, off = eng.base(p)
                w = v
                if self.j == k:
                    w = K(self.x if q == 0 else self.y)
                elif self.j is not None:
                    w = eng.fresh('c%d' % k, 'int', 8, 0, 255)
                eng.store_cell(st, b, ladd(off, K(k)), 1, w)
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        self.ob += 1
        want = self.j is None
        if isinstance(v, Pred):
            ok = eng.decide(st, v) is want
        else:
            ok = eng.prove_eq(st, v, ONE) if want else eng.prove_eq(st, v)
        if not ok:
            what = 'blocks' if self.fn.name == 'noise_is_equal' else 'a block'
            if want:
                msg = 'equal blocks of %d bytes are not reported equal' % self.n if what == 'blocks' else '%d zero bytes are not reported zero' % self.n
            else:
                msg = '%s of %d bytes may pass although byte %d %s' % (what, self.n, self.j, 'differs' if what == 'blocks' else 'is not zero')
            eng.report(st, self.rule, fn, None, msg)


class Cover(clients.ErrFork):
    """every byte of each block is read, for every length"""

    def __init__(self, fn, down, rule):
        super().__init__()
        self.fn, self.down, self.rule = fn, down, rule
        self.ob = 0

    def setup(self, eng, st, args):
        i1, i2, i3 = HELPERS[self.fn.name]
        self.size = args[i3]
        eng.add_ge(st, self.size)
        eng.add_ge(st, lsub(K(1 << 61), self.size))
        self.ps = [args[i] for i in (i1, i2) if i is not None]
        self.cells = region(eng, st, 'count', [], const=False)[1][0][0]
        self.bases = {}
        for q, p in enumerate(self.ps):
            eng.add_ne(st, p)
            eng.store_cell(st, self.cells, K(8 * q), 8, ZERO)
            self.bases[eng.base(p)[0]] = q
        return st

    def on_load(self, st, b, off, size, v, inst, fn):
        q = self.bases.get(b)
        if q is None:
            return
        eng = self.eng
        done = eng.load_cell(st, self.cells, K(8 * q), 8, False, 64, None)
        at = done if not self.down else lsub(lsub(self.size, K(size)), done)
        if eng.prove_eq(st, off, at):
            eng.store_cell(st, self.cells, K(8 * q), 8, ladd(done, K(size)))

    def on_return(self, st, v, fn):
        eng = self.eng
        for q in range(len(self.ps)):
            self.ob += 1
            if not eng.prove_eq(st, eng.load_cell(st, self.cells, K(8 * q), 8, False, 64, None), self.size):
                eng.report(st, self.rule, fn, None, 'not every byte of the %s block is looked at' % ('first', 'second')[q])


def run1(lib, f, c):
    e = lib.engine([c], inline=[f.name])
    e.models.pop(f.name, None)
    e.contract = set(e.contract) - {f.name}
    e.run(f, c.setup)
    if not c.ob:
        raise Broken('%s never returns' % f.name)
    r = engine_result(e, lambda rep: '%s %s' % (f.name, rep.msg), lib.prog.config)
    r.count('obligations', c.ob)
    return r


def job(item):
    lib, n, rule = item
    f = lib.prog.ext.get(n)
    if f is None:
        raise Broken('anchor vanished: %s' % n)
    res = Result()
    for size in SIZES:
        todo = [(None, 0, 0)] + [(j, x, y) for j in range(size) for x, y in ((1, 0), (0x80, 0), (0, 4) if n == 'noise_is_equal' else (0xff, 0))]
        for j, x, y in todo:
            res.merge(run1(lib, f, Case(f, size, j, x, y, rule)))
            res.count('comparisons')
            if res.viol:
                return res
    best = None
    for down in (False, True):
        r = run1(lib, f, Cover(f, down, rule))
        if best is None or len(r.viol) < len(best.viol):
            best = r
    res.merge(best)
    return res
