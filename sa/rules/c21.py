"""C21: the protobuf codec stays inside its buffer."""
from ..absint import *
from .. import bounds
from ..bounds import Bounds
from ..libmodels import gf, ef, finfo
from ..run import engine_result, V, Broken

RULES = [
    'bounds: every byte read or written through the buffer pointer of a NoiseProtobuf lies at an offset below its size, and every byte of a caller\'s string, byte array, output area or repeated-field storage lies inside the length that describes it; nothing is read at or past the position limit',
    'position: an operation that starts with position <= size ends with position <= size and leaves the buffer pointer and size alone; reading never moves the position back, writing never forward, and a failed or untagged end position cannot lie outside the buffer',
    'element: a successful read_start_element reports an end that lies between the position and the size of the buffer (exactly the encoded length further on when tagged, the end of the buffer when not); read_end_element succeeds exactly at that end',
    'array: after add or insert the count is one more and not above the capacity, and the storage holds at least capacity elements',
]
EXPLANATION = 'each public function of the codec analysed from every state with position <= size, all paths, static helpers inlined, loops by induction over linear relations'
MIN = {'functions': 50, 'obligations': 900}
ASSUMPTIONS = ['end positions given to read_end_element and write_start_element are what the caller got from the matching call; only values inside the buffer are used to address memory (checked), others only compared',
               'element size of the repeated-field helpers is that of a pointer, which is what every caller passes (checked)', 'capacities are below 2^32 elements']
PB, F = 'NoiseProtobuf', 'noise_protobuf_'
ARR = {F + 'add_to_array': 3, F + 'insert_into_array': 3, F + 'add_to_string_array': 4, F + 'add_to_bytes_array': 4}


def checkers(fs):
    """internal functions that look at a number of bytes and store nothing: used through a summary, and analysed on their own"""
    out = set()
    for f in fs:
        if f.internal and [p[0] for p in f.params] == [('ptr',), ('int', 64)] and f.rettype == ('int', 32) and \
                not any(i.op in ('store', 'call') for b in f.order for i in b.insts):
            out.add(f.name)
    return out


class Codec(Bounds):
    def __init__(self, fn, chk=()):
        super().__init__('bounds')
        self.chk = chk
        self.fn = fn
        self.good = 0
        self.arr = {}

    def limit(self, st, b):
        l = self.arr.get(b)
        if l is not None:
            return l, 'array'
        r = super().limit(st, b)
        og = self.eng.syms[b].origin
        if r is None and og and og[0] == 'lazy':
            for a, n in getattr(self, 'arrays', ()):
                p = self.eng.base(a)
                if (og[1], og[2]) == (p[0], p[1][0]):
                    return lscale(n, 8), 'array'
        return r

    def on_call(self, st, c):
        super().on_call(st, c)
        if c.name in self.chk and self.fn.name not in self.chk:
            b, off = self.eng.base(self.eng.norm(st, c.args[0]))
            self.check(st, b, off, c.args[1], 'text check', c.inst, c.fn)

    def setup(self, eng, st, args):
        self.args = args
        self.names = [p[1] for p in self.fn.params]
        for a, p in zip(args, self.fn.params):
            if p[0][0] == 'ptr' and self.fn.name in ARR:
                eng.add_ne(st, a)
        if self.fn.name in ARR:
            k = ARR[self.fn.name]
            cp, mp = (args[1], args[2]) if k == 3 else (args[2], args[3])
            self.cp, self.mp = cp, mp
            ld = lambda p: eng.norm(st, eng.load_cell(st, *eng.base(p), 8, False, 64, None))
            self.count, self.max = ld(cp), ld(mp)
            eng.add_ge(st, lsub(self.max, self.count))
            eng.add_ge(st, lsub(K(1 << 32), self.max))
            self.ptrs = [args[0]] if k == 3 else [args[0], args[1]]
            self.arrays = [(p, self.max) for p in self.ptrs]
            if k == 3:
                n = args[-1]
                eng.add_eq(st, lsub(n, K(8)))
                self.arr[eng.base(args[-2])[0]] = K(8)
            else:
                self.arr[eng.base(args[4])[0]] = args[5]
                eng.add_ge(st, lsub(K(1 << 62), args[5]))
        elif self.fn.name == F + 'free_memory' or self.fn.name in self.chk:
            self.arr[eng.base(args[0])[0]] = args[1]
        else:
            self.p = args[0]
            if not any(x in self.fn.name for x in ('prepare_',)):
                eng.add_ne(st, self.p)
                eng.add_ge(st, lsub(gf(eng, st, self.p, PB, 'size'), gf(eng, st, self.p, PB, 'posn')))
                eng.add_ge(st, lsub(K(1 << 62), gf(eng, st, self.p, PB, 'size')))
            if 'string' in self.fn.name or 'bytes' in self.fn.name:
                if 'alloc' not in self.fn.name:
                    self.arr[eng.base(args[2])[0]] = args[3]
                    if 'write' in self.fn.name:
                        # a null pointer stands for an empty value
                        eng.add_ge(st, lsub(K(1 << 62), args[3]))
                else:
                    eng.add_ge(st, lsub(K(1 << 62), args[3]))
        return st

    def on_return(self, st, v, fn):
        eng = self.eng
        n = self.fn.name
        if n == F + 'free_memory' or n in self.chk:
            self.good += 1
            return
        if n in ARR:
            return self.array(st, v)
        g = lambda f: gf(eng, st, self.p, PB, f)
        e = lambda f: ef(eng, self.p, PB, f)
        if 'prepare_' in n:
            for s, ok in eng.split(st, Pred('eq', v)):
                if ok:
                    self.good += 1
                    self.req(s, 'ge', lsub(gf(eng, s, self.p, PB, 'size'), gf(eng, s, self.p, PB, 'posn')), 'position', 'the position starts outside the buffer')
                    sz = self.args[-1]
                    self.req(s, 'eq', lsub(gf(eng, s, self.p, PB, 'size'), sz), 'position', 'the buffer does not get the size the caller gave')
                    d = gf(eng, s, self.p, PB, 'data')
                    self.req(s, 'eq', lsub(d, self.args[1]) if 'measure' not in n else d, 'position', 'the buffer is not the one the caller gave')
            return
        self.good += 1
        self.req(st, 'eq', lsub(g('size'), e('size')), 'position', 'the size of the buffer changes')
        self.req(st, 'eq', lsub(g('data'), e('data')), 'position', 'the buffer pointer changes')
        self.req(st, 'ge', lsub(g('size'), g('posn')), 'position', 'the position may pass the end of the buffer')
        if '_read_' in n:
            self.req(st, 'ge', lsub(g('posn'), e('posn')), 'position', 'reading may move the position back')
        elif '_write_' in n:
            self.req(st, 'ge', lsub(e('posn'), g('posn')), 'position', 'writing may move the position forward')
        else:
            self.req(st, 'eq', lsub(e('posn'), g('posn')), 'position', 'the position changes')
        if n == F + 'read_start_element':
            for s, ok in eng.split(st, Pred('eq', v)):
                if not ok:
                    continue
                b, off = eng.base(eng.norm(s, self.args[2]))
                end = eng.norm(s, eng.load_cell(s, b, off, 8, False, 64, None))
                self.req(s, 'ge', lsub(g('size'), end), 'element', 'the end of an element may lie past the buffer')
                self.req(s, 'ge', lsub(end, gf(eng, s, self.p, PB, 'posn')), 'element', 'the end of an element may lie before its start')
                for q, un in eng.split(s, Pred('eq', self.args[1])):
                    if un:
                        self.req(q, 'eq', lsub(end, ef(eng, self.p, PB, 'size')), 'element', 'an untagged element does not extend to the end of the buffer')
        elif n == F + 'read_end_element':
            for s, ok in eng.split(st, Pred('eq', v)):
                if ok:
                    self.req(s, 'eq', lsub(gf(eng, s, self.p, PB, 'posn'), self.args[1]), 'element', 'the end of an element is accepted elsewhere')
                elif eng.decide(s, Pred('eq', e('error'))) is True:
                    self.req(s, 'ne', lsub(e('posn'), self.args[1]), 'element', 'the end of an element is refused at its place')
        elif n == F + 'read_at_end_element':
            for s, t in eng.split(st, v if isinstance(v, Pred) else Pred('eq', v, True)):
                if t:
                    for q, ok in eng.split(s, Pred('eq', e('error'))):
                        if ok:
                            self.req(q, 'ge', lsub(e('posn'), self.args[1]), 'element', 'the end of an element is reported early')
                else:
                    self.req(s, 'ge', lsub(lsub(self.args[1], e('posn')), ONE), 'element', 'the end of an element is not reported')
                    self.req(s, 'eq', e('error'), 'element', 'an element goes on after an error')
        elif n == F + 'write_end_element':
            for s, ok in eng.split(st, Pred('eq', v)):
                if ok:
                    b, off = eng.base(eng.norm(s, self.args[1]))
                    end = eng.norm(s, eng.load_cell(s, b, off, 8, False, 64, None))
                    self.req(s, 'eq', lsub(end, e('posn')), 'element', 'the end of a written element is not the current position')
        elif n.startswith(F + 'finish_') and n != F + 'finish_input':
            for s, ok in eng.split(st, Pred('eq', v)):
                if not ok:
                    continue
                b, off = eng.base(eng.norm(s, self.args[-1]))
                size = eng.norm(s, eng.load_cell(s, b, off, 8, False, 64, None))
                self.req(s, 'eq', lsub(lsub(e('size'), e('posn')), size), 'position', 'the size reported is not that of the data written')
                if 'measure' in n:
                    continue
                b, off = eng.base(eng.norm(s, self.args[1]))
                d = eng.norm(s, eng.load_cell(s, b, off, 8, True, 64, None))
                for q, null in eng.split(s, Pred('eq', e('data'))):
                    want = e('data') if null or 'shift' in n else ladd(e('data'), e('posn'))
                    self.req(q, 'eq', lsub(d, want), 'position', 'the data reported is not the data written')

    def req(self, st, op, x, rule, msg):
        eng = self.eng
        self.ob += 1
        ok = eng.prove_ge(st, x) if op == 'ge' else eng.prove_eq(st, x) if op == 'eq' else eng.decide(st, Pred('eq', x)) is False
        if not ok:
            eng.report(st, rule, self.fn, None, msg)

    def array(self, st, v):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            ld = lambda p: eng.norm(s, eng.load_cell(s, *eng.base(eng.norm(s, p)), 8, False, 64, None))
            c, m = ld(self.cp), ld(self.mp)
            if ok:
                self.good += 1
                self.req(s, 'eq', lsub(lsub(c, self.count), ONE), 'array', 'the count does not grow by one')
            else:
                self.req(s, 'eq', lsub(c, self.count), 'array', 'the count changes although nothing is added')
            self.req(s, 'ge', lsub(m, c), 'array', 'the count may exceed the capacity')
            for p in self.ptrs:
                a = eng.norm(s, eng.load_cell(s, *eng.base(eng.norm(s, p)), 8, True, 64, None))
                b, off = eng.base(a)
                self.ob += 1
                if b is None:
                    if not eng.prove_eq(s, m):
                        eng.report(s, 'array', self.fn, None, 'no storage behind a repeated field with elements')
                    continue
                l = self.limit(s, b)
                if l is None or not eng.prove_ge(s, lsub(lsub(l[0], off), lscale(m, 8))):
                    eng.report(s, 'array', self.fn, None, 'the storage of a repeated field may be smaller than its capacity')


def job(item):
    lib, f, fs = item
    chk = checkers(fs)
    cl = Codec(f, chk)
    e = lib.engine([cl], inline=[g.name for g in fs], merge_limit=5000)
    for g in fs:
        e.models.pop(g.name, None)
    if f.name not in chk:
        for n in chk:
            e.models[n] = lambda e, s, c: [(s, e.retval(c, lo=0, hi=1))]
        e.contract = set(e.contract) | chk
    e.max_steps = 2000000
    e.run(f, cl.setup)
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    r.count('functions')
    r.count('obligations', cl.ob)
    if not cl.good and not r.viol:
        raise Broken('%s never returns' % f.name)
    return r


def check(ctx):
    lib = ctx.lib('ref')
    mod = ctx.fn(lib, F + 'write_bytes').module
    fs = [f for f in lib.prog.functions() if f.module is mod]
    ctx.pmap(job, [(lib, f, fs) for f in fs if not f.internal or f.name in checkers(fs)])
    # element sizes given to the array helpers
    for f in lib.prog.functions():
        if f.module is mod:
            continue
        for b in f.order:
            for i in b.insts:
                if i.op == 'call' and i.a[0][0] == 'g' and i.a[0][1] in (F + 'add_to_array', F + 'insert_into_array'):
                    ctx.count('array_calls')
                    ctx.count('obligations')
                    t = i.a[1][-1][1]
                    if t != ('c', 8):
                        ctx.violation('array', f.name, i, '%s adds elements whose size is not that of a pointer' % f.name)
