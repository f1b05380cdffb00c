"""Path-sensitive abstract interpreter over LLVM IR.

Abstract domain (per trace partition):
  * integers / pointers: linear forms over interned symbols, constrained by intervals, linear inequalities,
    equalities (kept in solved form) and disequalities;
  * memory: one region per base symbol (stack object, heap object, global, or the object a caller-supplied
    pointer points to, named lazily by its access path), cells at byte offsets, dirty intervals for writes whose
    offset is not constant;
  * a client-defined ghost component (typestate), on which traces are partitioned.
Branches split the partition unless the domain decides them.  Loops are solved by fixpoint: cells and phis that
change are widened to fresh symbols and a template set of linear relations is reduced (Houdini style) until it is
inductive; loops whose exit test is decided by constants are unrolled.  Internal calls are interpreted in context
(so an extracted helper changes nothing); "contract" functions and calls through vtable slots are events with models.
No path is handed to a solver and nothing is executed.
"""
import re
from . import llir


class Limit(Exception):
    """analysis budget exhausted or construct not supported: the check must error out, not pass"""


# ------------------------------------------------------------------ linear forms
def K(c):
    return (c, ())


ZERO = (0, ())
ONE = (1, ())


def ladd(a, b):
    if not b[1]:
        return (a[0] + b[0], a[1])
    if not a[1]:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, k in b[1]:
        n = d.get(s, 0) + k
        if n:
            d[s] = n
        else:
            del d[s]
    return (a[0] + b[0], tuple(sorted(d.items())))


def lscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def lneg(a):
    return (-a[0], tuple((s, -c) for s, c in a[1]))


def lsub(a, b):
    return ladd(a, lneg(b))


def lsubst(a, m):
    """substitute symbols by linear forms (m: sym -> lin)"""
    hit = False
    for s, _ in a[1]:
        if s in m:
            hit = True
            break
    if not hit:
        return a
    r = (a[0], tuple((s, c) for s, c in a[1] if s not in m))
    for s, c in a[1]:
        if s in m:
            r = ladd(r, lscale(m[s], c))
    return r


def isconst(a):
    return not a[1]


class Pred:
    """boolean value.  kind: 'ge' (lin>=0) 'eq' (lin==0) 'opq' (opaque key)"""
    __slots__ = ('kind', 'arg', 'neg')

    def __init__(self, kind, arg, neg=False):
        self.kind = kind
        self.arg = arg
        self.neg = neg

    def negate(self):
        if self.kind == 'ge':
            return Pred('ge', (-self.arg[0] - 1, lneg(self.arg)[1]))
        return Pred(self.kind, self.arg, not self.neg)

    def __eq__(self, o):
        return isinstance(o, Pred) and (self.kind, self.arg, self.neg) == (o.kind, o.arg, o.neg)

    def __hash__(self):
        return hash((self.kind, self.arg, self.neg))

    def __repr__(self):
        return 'Pred(%s%s,%r)' % ('!' if self.neg else '', self.kind, self.arg)


class Agg:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


class NeedSplit(Exception):
    def __init__(self, pred):
        self.pred = pred


U64 = (1 << 64) - 1


def width_range(w):
    if w == 32:
        return (-(1 << 31), (1 << 31) - 1)
    return (0, (1 << w) - 1)


def canon_const(c, w):
    c &= (1 << w) - 1
    if w == 32 and c >= 1 << 31:
        c -= 1 << 32
    return c


class Sym:
    __slots__ = ('id', 'name', 'kind', 'width', 'lo', 'hi', 'origin', 'size', 'rkind', 'extra', 'nonnull')

    def __init__(self, id, name, kind, width, lo, hi, origin):
        self.id = id
        self.name = name
        self.kind = kind      # 'int' or 'ptr'
        self.width = width
        self.lo = lo
        self.hi = hi
        self.origin = origin
        self.size = None      # Lin: size of the object a base pointer points to, if known
        self.rkind = None     # 'alloca' 'heap' 'global' 'fn' 'lazy' 'param'
        self.extra = None
        self.nonnull = False


class Region:
    __slots__ = ('cells', 'dirty', 'zero', 'img')

    def __init__(self):
        self.cells = {}
        self.dirty = ()      # tuple of (lo, hi(exclusive or None), epoch)
        self.zero = False

    def copy(self):
        r = Region()
        r.cells = dict(self.cells)
        r.dirty = self.dirty
        r.zero = self.zero
        return r


class State:
    __slots__ = ('mem', 'env', 'rng', 'facts', 'eqs', 'neq', 'opq', 'g', 'trail', 'stack', 'pred', '_memo', 'tent')

    def __init__(self):
        self.mem = {}
        self.env = {}
        self.rng = {}
        self.facts = ()
        self.eqs = {}
        self.neq = frozenset()
        self.opq = {}
        self.g = {}
        self.trail = None
        self.stack = ()
        self.pred = None
        self._memo = {}
        self.tent = {}   # symbol -> base pointer lin whose non-null unsplit status (reserved)

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.env = dict(self.env)
        s.rng = dict(self.rng)
        s.facts = self.facts
        s.eqs = dict(self.eqs)
        s.neq = self.neq
        s.opq = dict(self.opq)
        s.g = dict(self.g)
        s.trail = self.trail
        s.stack = self.stack
        s.pred = self.pred
        s._memo = {}
        s.tent = self.tent
        return s


class Call:
    __slots__ = ('name', 'args', 'inst', 'fn', 'types', 'rettype', 'slot', 'stack', 'callee', 'pre', 'prov')

    def arg(self, i):
        return self.args[i]


class Frame:
    __slots__ = ('fn', 'allocas', 'site', 'argvals')

    def __init__(self, fn, site):
        self.fn = fn
        self.allocas = []
        self.site = site
        self.argvals = None


class Report:
    def __init__(self, rule, where, msg, path):
        self.rule = rule
        self.where = where
        self.msg = msg
        self.path = path

    def key(self):
        return (self.rule, self.where, self.msg)


def _lsum(l, terms):
    for v, k in terms:
        l = ladd(l, lscale(v, k))
    return l


class Engine:
    def __init__(self, prog, models, contract=(), clients=(), inline_slots=False, max_steps=400000, merge_limit=40):
        self.prog = prog
        self.models = models
        self.contract = set(contract)
        self.clients = list(clients)
        for c in self.clients:
            c.eng = self
        self.syms = []
        self.intern = {}
        self.stablesyms = set()     # pointer symbols a client keeps the same from one loop iteration to the next
        self.fieldof = {}
        self.reports = []
        self.out = []          # client outputs (rolled back like reports on loop reruns)
        self.steps = 0
        self.max_steps = max_steps
        self.symcells = False      # remember several stores at symbolic offsets
        self.merge_limit = merge_limit
        self.fresh_ctr = 0
        self.inline_slots = inline_slots
        self.stats = {'calls': 0, 'loops': 0, 'branches': 0, 'paths': 0, 'loads': 0, 'stores': 0}
        self.fnseen = set()
        self.max_depth = 40
        self.unroll_width = 6
        self.join_facts = 0         # at a join: 1 keep the clients' invariants, 2 also carry relations over to the fresh values
        self.linmask = False        # masks and disjoint ors as linear values where ranges allow
        self.loopctx = []
        self.h = {k: [getattr(c, k) for c in self.clients if hasattr(c, k)]
                  for k in ('on_call', 'on_call_done', 'on_load', 'on_store', 'on_frame_exit', 'on_return', 'on_branch',
                            'on_enter', 'on_loop_header', 'on_back_edge', 'on_copy', 'on_fill', 'on_clobber', 'on_xor')}
        self.g_init = {}
        self.xors = bool(self.h['on_xor'])
        self.h_inv = [c.loop_invariants for c in self.clients if hasattr(c, 'loop_invariants')]
        self.h_alloc, self.h_free, self.h_escape = [], [], []

    # ---------------------------------------------------------------- symbols
    def newsym(self, key, name, kind, width, lo=None, hi=None, origin=None):
        if key is not None:
            s = self.intern.get(key)
            if s is not None:
                return s
        if lo is None:
            lo, hi = (0, U64) if kind == 'ptr' else width_range(width)
        s = Sym(len(self.syms), name, kind, width, lo, hi, origin if origin is not None else key)
        self.syms.append(s)
        if key is not None:
            self.intern[key] = s
        return s

    def fresh(self, name, kind='int', width=64, lo=None, hi=None, origin=None):
        self.fresh_ctr += 1
        return (0, ((self.newsym(None, '%s#%d' % (name, self.fresh_ctr), kind, width, lo, hi, origin).id, 1),))

    def opaque(self, key, name, width, lo=None, hi=None):
        return (0, ((self.newsym(key, name, 'int', width, lo, hi).id, 1),))

    def base(self, lin):
        """(base sym id, offset lin) of a pointer value, or (None, lin)"""
        b = None
        for s, k in lin[1]:
            if self.syms[s].kind == 'ptr':
                if b is not None or k != 1:
                    return None, lin
                b = s
        if b is None:
            return None, lin
        return b, (lin[0], tuple((s, k) for s, k in lin[1] if s != b))

    def gsym(self, mod, name):
        """base pointer of a global variable or function"""
        f = self.prog.resolve(mod, name)
        if f is not None:
            key = ('fn', f.name, f.module.name if f.internal else '')
            s = self.newsym(key, f.name, 'ptr', 64, 1, U64)
            s.rkind = 'fn'
            s.extra = f
            s.nonnull = True
            return (0, ((s.id, 1),))
        g = self.prog.resolve_global(mod, name)
        if g is not None:
            key = ('glob', g.name, g.module.name if g.internal else '')
            s = self.newsym(key, '@' + g.name, 'ptr', 64, 1, U64)
            s.rkind = 'global'
            s.extra = g
            s.nonnull = True
            s.size = K(g.size)
            return (0, ((s.id, 1),))
        key = ('ext', name)
        s = self.newsym(key, '@' + name, 'ptr', 64, 1, U64)
        s.rkind = 'extern'
        s.nonnull = True
        s.extra = name
        return (0, ((s.id, 1),))

    # ---------------------------------------------------------------- constraints
    def norm(self, st, lin):
        e = st.eqs
        if not e or not lin[1]:
            return lin
        for _ in range(50):
            n = lsubst(lin, e)
            if n is lin or n == lin:
                return n
            lin = n
        return lin

    def bounds(self, st, s):
        r = st.rng.get(s)
        if r is not None:
            return r
        y = self.syms[s]
        return (y.lo, y.hi)

    def lower(self, st, n):
        t = n[0]
        for s, k in n[1]:
            lo, hi = self.bounds(st, s)
            t += k * (lo if k > 0 else hi)
        return t

    def upper(self, st, n):
        t = n[0]
        for s, k in n[1]:
            lo, hi = self.bounds(st, s)
            t += k * (hi if k > 0 else lo)
        return t

    def prove_ge(self, st, lin):
        n = self.norm(st, lin)
        if not n[1]:
            return n[0] >= 0
        if self.lower(st, n) >= 0:
            return True
        if self.upper(st, n) < 0:
            return False
        key = n
        r = st._memo.get(key)
        if r is not None:
            return r
        facts = []
        for f in st.facts:
            f = self.norm(st, f)
            if f[1]:
                facts.append(f)
        self._pbudget = 400
        r = self._search(st, n, facts, 4)
        st._memo[key] = r
        return r

    def _search(self, st, n, facts, depth):
        if self.lower(st, n) >= 0:
            return True
        if depth == 0:
            return False
        self._pbudget -= 1
        if self._pbudget < 0:
            return False
        vars_ = dict(n[1])
        cands = []
        for f in facts:
            best = None
            for s, m in f[1]:
                k = vars_.get(s)
                if k and (k > 0) == (m > 0):
                    am, ak = abs(m), abs(k)
                    t = lsub(lscale(n, am), lscale(f, ak))
                    if len(t[1]) <= len(n[1]) + 2:
                        cands.append((len(t[1]), -self.lower(st, t) // max(am, 1), t))
        cands.sort(key=lambda c: (c[0], c[1]))
        for _, _, t in cands[:12]:
            if self.lower(st, t) >= 0:
                return True
        for _, _, t in cands[:12]:
            if self._search(st, t, facts, depth - 1):
                return True
        return False

    def prove_eq(self, st, a, b=ZERO):
        n = self.norm(st, lsub(a, b))
        if not n[1]:
            return n[0] == 0
        return self.prove_ge(st, n) and self.prove_ge(st, lneg(n))

    def prove_ne(self, st, lin):
        n = self.norm(st, lin)
        if not n[1]:
            return n[0] != 0
        if len(n[1]) == 1 and self.syms[n[1][0][0]].nonnull and n[0] == 0:
            return True
        if self._neqkey(n) in st.neq:
            return True
        for q in st.neq:
            qq = self.norm(st, q)
            if qq == n or qq == lneg(n):
                return True
        # distinct known objects
        if len(n[1]) == 2:
            (s1, k1), (s2, k2) = n[1]
            a, b = self.syms[s1], self.syms[s2]
            if a.kind == 'ptr' and b.kind == 'ptr' and k1 == -k2:
                conc = ('alloca', 'heap', 'global', 'fn')
                if a.rkind in conc and b.rkind in conc:
                    return True
                if (a.rkind in ('alloca', 'heap') or b.rkind in ('alloca', 'heap')) and a.rkind != b.rkind:
                    return True
        # pointer into a non-null object is non-null
        b, off = self.base(n)
        if b is not None and self.syms[b].nonnull and self.prove_ge(st, off):
            return True
        # base symbol known non-null, non-negative offset
        if b is not None and off != ZERO and self.prove_ge(st, off) and self.bounds(st, b)[0] >= 1:
            return True
        return self.prove_ge(st, ladd(n, K(-1))) or self.prove_ge(st, ladd(lneg(n), K(-1)))

    @staticmethod
    def _neqkey(n):
        if n[1] and n[1][0][1] < 0:
            return lneg(n)
        return n

    def decide(self, st, p):
        """True / False / None"""
        if p.kind == 'eq' and isinstance(p.arg, Pred):
            p = p.arg if p.neg else p.arg.negate()
        if p.kind == 'opq':
            v = st.opq.get(p.arg)
            return None if v is None else (v != p.neg)
        if p.kind == 'ge':
            if self.prove_ge(st, p.arg):
                return True
            if self.prove_ge(st, (-p.arg[0] - 1, lneg(p.arg)[1])):
                return False
            return None
        if self.prove_ne(st, p.arg):
            return bool(p.neg)
        if self.prove_eq(st, p.arg):
            return not p.neg
        return None

    def assume(self, st, p):
        """add p; returns False if infeasible"""
        st._memo = {}
        if p.kind == 'eq' and isinstance(p.arg, Pred):
            p = p.arg if p.neg else p.arg.negate()
        if p.kind == 'opq':
            v = st.opq.get(p.arg)
            if v is not None:
                return v != p.neg
            st.opq[p.arg] = not p.neg
            return True
        if p.kind == 'ge':
            return self.add_ge(st, p.arg)
        if p.neg:
            return self.add_ne(st, p.arg)
        return self.add_eq(st, p.arg)

    def set_rng(self, st, s, lo, hi):
        l0, h0 = self.bounds(st, s)
        l, h = max(lo, l0), min(hi, h0)
        if l > h:
            return False
        if (l, h) != (l0, h0):
            st._memo = {}
            st.rng[s] = (l, h)
            if l == h:
                return self.add_eq(st, (-l, ((s, 1),)))
        return True

    def add_ge(self, st, lin):
        n = self.norm(st, lin)
        if not n[1]:
            return n[0] >= 0
        if self.prove_ge(st, (-n[0] - 1, lneg(n)[1])):
            return False
        st._memo = {}
        if len(n[1]) == 1:
            s, k = n[1][0]
            c = n[0]
            if k > 0:
                lo = -(c // k)      # c + k s >=0 -> s >= ceil(-c/k)
                return self.set_rng(st, s, lo, self.bounds(st, s)[1])
            hi = c // (-k)
            return self.set_rng(st, s, self.bounds(st, s)[0], hi)
        if self.prove_ge(st, n):
            return True
        st._memo = {}
        st.facts = st.facts + (n,)
        if self.prove_ge(st, lneg(n)):
            return self.add_eq(st, n)
        # interval propagation one step
        for s, k in n[1]:
            rest = self.upper(st, (n[0], tuple(x for x in n[1] if x[0] != s)))
            lo, hi = self.bounds(st, s)
            if k > 0:
                v = -(rest // k)
                if v > lo and not self.set_rng(st, s, v, hi):
                    return False
            else:
                v = rest // (-k)
                if v < hi and not self.set_rng(st, s, lo, v):
                    return False
        return True

    def add_eq(self, st, lin):
        n = self.norm(st, lin)
        if not n[1]:
            return n[0] == 0
        if self.prove_ne(st, n):
            return False
        st._memo = {}
        pick = None
        for s, k in n[1]:
            if k in (1, -1):
                y = self.syms[s]
                if y.nonnull and len(n[1]) > 1:
                    continue
                if pick is None:
                    pick = (s, k)
                else:
                    # prefer eliminating the newest, non-pointer symbol
                    py = self.syms[pick[0]]
                    if (y.kind == 'int', y.id) > (py.kind == 'int', py.id):
                        pick = (s, k)
        if pick is None:
            for s, k in n[1]:
                if k in (1, -1):
                    pick = (s, k)
                    break
        if pick is None:
            st.facts = st.facts + (n, lneg(n))
            return True
        s, k = pick
        rest = (n[0], tuple(x for x in n[1] if x[0] != s))
        expr = lneg(rest) if k == 1 else rest
        lo, hi = self.bounds(st, s)
        st.eqs[s] = expr
        if not self.add_ge(st, ladd(expr, K(-lo))) or not self.add_ge(st, ladd(lneg(expr), K(hi))):
            return False
        for q in st.neq:
            if any(x == s for x, _ in q[1]):
                qq = self.norm(st, q)
                if not qq[1] and qq[0] == 0:
                    return False
        # re-normalise facts mentioning s
        for f in st.facts:
            for x, _ in f[1]:
                if x == s:
                    ff = self.norm(st, f)
                    if not ff[1]:
                        if ff[0] < 0:
                            return False
                    elif self.upper(st, ff) < 0:
                        return False
                    elif len(ff[1]) == 1 and not self.add_ge(st, ff):
                        return False
                    break
        if n[0] == 0 and len(n[1]) == 1:
            og = self.syms[s].origin
            if isinstance(og, tuple) and og:
                if og[0] == 'xor':
                    return self.add_eq(st, lsub(og[1], og[2]))
                if og[0] == 'or':
                    return self.add_eq(st, og[1]) and self.add_eq(st, og[2])
        return True

    def add_ne(self, st, lin):
        n = self.norm(st, lin)
        if n[0] == 0 and len(n[1]) == 1:
            og = self.syms[n[1][0][0]].origin
            if isinstance(og, tuple) and og and og[0] == 'xor' and not self.add_ne(st, lsub(og[1], og[2])):
                return False
        if not n[1]:
            return n[0] != 0
        if self.prove_eq(st, n):
            return False
        st._memo = {}
        st.neq = st.neq | {self._neqkey(n)}
        if len(n[1]) == 1:
            s, k = n[1][0]
            if n[0] % k == 0:
                v = -n[0] // k
                lo, hi = self.bounds(st, s)
                if lo == v:
                    if not self.set_rng(st, s, lo + 1, hi):
                        return False
                elif hi == v:
                    if not self.set_rng(st, s, lo, hi - 1):
                        return False
        else:
            if self.prove_ge(st, n):
                return self.add_ge(st, ladd(n, K(-1)))
            if self.prove_ge(st, lneg(n)):
                return self.add_ge(st, ladd(lneg(n), K(-1)))
        return True

    def split(self, st, p):
        """[(state, truth)] feasible refinements of st by predicate p"""
        d = self.decide(st, p)
        if d is not None:
            return [(st, d)]
        out = []
        for tv in (True, False):
            s2 = st.fork()
            if self.assume(s2, p if tv else p.negate()):
                out.append((s2, tv))
        return out

    # ---------------------------------------------------------------- memory
    def region(self, st, b, write=False):
        r = st.mem.get(b)
        if r is None:
            r = Region()
            st.mem[b] = r
        elif write:
            r = r.copy()
            st.mem[b] = r
        return r

    def dirtykey(self, r, lo, hi):
        return tuple(e for (a, b, e) in r.dirty if (b is None or a is None or lo is None or a < hi and lo < b) and (b is None or lo is None or lo < b) and (a is None or hi is None or a < hi))

    def lazyname(self, b, off):
        y = self.syms[b]
        f = self.fieldof.get((b, off))
        if f:
            return '%s->%s' % (y.name, f[1])
        return '%s[%d]' % (y.name, off)

    def load(self, st, ptr, ty, mod, inst=None, fn=None):
        size = mod.sizeof(ty)
        b, off = self.base(self.norm(st, ptr))
        isptr = ty[0] == 'ptr'
        width = ty[1] if ty[0] == 'int' else 8 * size
        self.stats['loads'] += 1
        if b is None:
            v = self.fresh('wild', 'ptr' if isptr else 'int', width)
        else:
            v = self.load_cell(st, b, off, size, isptr, width, mod)
        for hk in self.h['on_load']:
            hk(st, b, off, size, v, inst, fn)
        return v

    def load_cell(self, st, b, off, size, isptr, width, mod):
        r = self.region(st, b)
        y = self.syms[b]
        kind = 'ptr' if isptr else 'int'
        if off[1]:
            k = (off, size)
            for (o2, s2), v in r.cells.items():
                if s2 == size and not isinstance(o2, int) and self.norm(st, o2) == off:
                    return v
            if not r.cells and not r.dirty and r.zero:
                return ZERO
            if y.rkind == 'global' and y.extra.const:
                ext = self.const_range(y.extra, off, size, st)
                if ext is not None and not isptr and len(ext) == 1:
                    return K(next(iter(ext)))
                if ext is not None and not isptr:
                    return (0, ((self.newsym(('ctab', b, off, size), '%s[?]' % y.name, 'int', width, min(ext), max(ext)).id, 1),))
                ro = self.const_reloc_range(y.extra, off, st)
                if isptr and ro:
                    s = self.newsym(('ctabp', b, off), '%s[?]' % y.name, 'ptr', 64, 1, U64)
                    s.rkind = 'lazy'
                    s.nonnull = True
                    return (0, ((s.id, 1),))
            # key on the contents version so equal loads agree until something is written
            ver = (tuple(sorted(((o, s, v) for (o, s), v in r.cells.items()), key=repr)), r.dirty)
            s = self.newsym(('ldsym', b, off, size, kind, ver), '%s[?]' % y.name, kind, width)
            s.rkind = 'lazy' if isptr else None
            return (0, ((s.id, 1),))
        o = off[0]
        v = r.cells.get((o, size))
        if v is not None:
            return v
        # partial overlap?
        over = []
        for (o2, s2), v2 in r.cells.items():
            if isinstance(o2, int):
                if o2 < o + size and o < o2 + s2:
                    over.append((o2, s2, v2))
        dk = self.dirtykey(r, o, o + size)
        if over:
            if dk and len({j for o2, s2, v2 in over for j in range(max(o, o2), min(o + size, o2 + s2))}) == size:
                dk = ()                 # everything was stored after the unknown writes
            if len(over) == 1 and not dk:
                o2, s2, v2 = over[0]
                if o2 <= o and o + size <= o2 + s2 and not isinstance(v2, Pred):
                    if not v2[1]:
                        c = (v2[0] >> (8 * (o - o2))) & ((1 << (8 * size)) - 1)
                        return K(canon_const(c, width) if not isptr else c)
                    s = self.newsym(('part', v2, o - o2, size), 'bytes', kind, width)
                    if kind == 'ptr':
                        s.rkind = 'lazy'
                    return (0, ((s.id, 1),))
            # assemble constants little-endian if everything is constant
            by = [None] * size
            for o2, s2, v2 in over:
                if isinstance(v2, Pred) or v2[1]:
                    by = None
                    break
                for i in range(s2):
                    j = o2 + i - o
                    if 0 <= j < size:
                        by[j] = (v2[0] >> (8 * i)) & 255
            if by is not None and not dk and (r.zero or all(x is not None for x in by)) and (y.rkind != 'global'):
                c = sum((x or 0) << (8 * i) for i, x in enumerate(by))
                return K(canon_const(c, width) if not isptr else c)
            bits = tuple(sorted((o2 - o, s2, v2) for o2, s2, v2 in over if not isinstance(v2, Pred)))
            s = self.newsym(('mix', b, bits, o, size, dk), 'mix', kind, width)
            if kind == 'ptr':
                s.rkind = 'lazy'
            return (0, ((s.id, 1),))
        if r.zero and not dk:
            return ZERO
        if y.rkind == 'global' and not dk and (y.extra.const) and y.extra.image is not None:
            g = y.extra
            if o in g.relocs and size == 8:
                t, to = g.relocs[o]
                return ladd(self.gsym(g.module, t), K(to))
            if 0 <= o and o + size <= g.size:
                c = int.from_bytes(g.image[o:o + size], 'little')
                return K(canon_const(c, width) if not isptr else c)
        s = self.newsym(('lazy', b, o, size, kind, dk), self.lazyname(b, o), kind, width)
        if kind == 'ptr' and s.rkind is None:
            s.rkind = 'lazy'
        res = (0, ((s.id, 1),))
        # remember it, so later partial overwrites are seen as overlap
        st.mem[b] = r = r.copy()
        r.cells[(o, size)] = res
        return res

    def const_range(self, g, off, size, st):
        """set of possible integer values of a table element, if offset has form c + k*s"""
        if g.image is None or len(off[1]) != 1:
            return None
        s, k = off[1][0]
        lo, hi = self.bounds(st, s)
        n = g.size
        vals = set()
        if k <= 0:
            return None
        i = lo
        cnt = 0
        i = max(lo, -(off[0] // k) if off[0] < 0 else lo)
        while i <= hi:
            o = off[0] + k * i
            if o + size > n:
                break
            if o >= 0:
                vals.add(int.from_bytes(g.image[o:o + size], 'little'))
            i += 1
            cnt += 1
            if cnt > 5000:
                return None
        return vals or None

    def const_reloc_range(self, g, off, st):
        return bool(g.relocs)

    def store(self, st, ptr, val, size, inst=None, fn=None):
        self.stats['stores'] += 1
        b, off = self.base(self.norm(st, ptr))
        for hk in self.h['on_store']:
            hk(st, b, off, size, val, inst, fn)
        if b is None:
            return
        self.store_cell(st, b, off, size, val)

    def store_cell(self, st, b, off, size, val):
        st._memo = {}
        r = self.region(st, b, True)
        if off[1]:
            lo = self.lower(st, off)
            hi = self.write_end(st, r, lo, ladd(off, K(size)))
            keep = {}
            if self.symcells:
                # cells at a known distance that do not overlap
                for (o2, s2), v in r.cells.items():
                    d = lsub(self.norm(st, o2), off) if not isinstance(o2, int) else None
                    if d is not None and isconst(d) and (d[0] >= size or d[0] + s2 <= 0):
                        keep[(o2, s2)] = v
            self.clobber_range(r, max(lo, 0), hi)
            r.cells.update(keep)
            r.cells[(off, size)] = val
            return
        o = off[0]
        k = (o, size)
        if k in r.cells and len(r.cells) < 2:
            r.cells[k] = val
            return
        for kk in list(r.cells):
            o2, s2 = kk
            if kk == k:
                continue
            if not isinstance(o2, int):
                del r.cells[kk]      # symbolic cell may alias; already covered by dirty
            elif o2 < o + size and o < o2 + s2:
                v2 = r.cells.pop(kk)
                # keep the non-overwritten bytes as opaque parts
                self.keep_parts(r, o2, s2, v2, o, size)
        r.cells[k] = val

    def keep_parts(self, r, o2, s2, v2, o, size):
        parts = []
        if o2 < o:
            parts.append((o2, o - o2))
        if o + size < o2 + s2:
            parts.append((o + size, o2 + s2 - (o + size)))
        for po, ps in parts:
            if isinstance(v2, Pred):
                val = self.fresh('part', 'int', 8 * ps)
            elif not v2[1]:
                val = K(canon_const((v2[0] >> (8 * (po - o2))) & ((1 << 8 * ps) - 1), 8 * ps))
            else:
                s = self.newsym(('part', v2, po - o2, ps), 'bytes', 'int', 8 * ps)
                val = (0, ((s.id, 1),))
            r.cells[(po, ps)] = val

    def clobber_range(self, r, lo, hi, epoch=None):
        if hi is not None and hi <= lo:
            return
        if epoch is None:
            self.fresh_ctr += 1
            epoch = self.fresh_ctr
        for kk in list(r.cells):
            o2, s2 = kk
            if not isinstance(o2, int):
                del r.cells[kk]
            elif (hi is None or o2 < hi) and lo < o2 + s2:
                v2 = r.cells.pop(kk)
                if hi is not None:
                    self.keep_parts(r, o2, s2, v2, lo, hi - lo)
                elif o2 < lo:
                    self.keep_parts(r, o2, s2, v2, lo, o2 + s2 - lo)
        # drop older dirty intervals that are fully covered
        nd = tuple(d for d in r.dirty if not (lo <= d[0] and (hi is None or (d[1] is not None and d[1] <= hi))))
        r.dirty = nd + ((lo, hi, epoch),)

    def clobber(self, st, ptr, length=None, why=None):
        """unknown bytes written at ptr[0..length)"""
        b, off = self.base(self.norm(st, ptr))
        for hk in self.h['on_clobber']:
            hk(st, b, off, length, why)
        if b is None:
            return
        st._memo = {}
        r = self.region(st, b, True)
        lo = max(self.lower(st, off), 0)
        if length is None:
            hi = None
        else:
            hi = self.write_end(st, r, lo, ladd(off, length))
        y = self.syms[b]
        if hi is None and y.size is not None and isconst(y.size):
            hi = y.size[0]
        if hi is not None and hi <= lo:
            return
        self.clobber_range(r, lo, hi)

    def memcopy(self, st, dst, src, length):
        length = self.norm(st, length)
        db, doff = self.base(self.norm(st, dst))
        sb, soff = self.base(self.norm(st, src))
        for hk in self.h['on_copy']:
            hk(st, db, doff, sb, soff, length)
        if db is None:
            return
        if length[1] or doff[1] or sb is None or soff[1] or length[0] > 65536:
            self._clobber_nohook(st, db, doff, length)
            return
        n = length[0]
        if n <= 0:
            return
        sr = self.region(st, sb)
        cells = [(o, s, v) for (o, s), v in sr.cells.items()
                 if isinstance(o, int) and soff[0] <= o and o + s <= soff[0] + n]
        y = self.syms[sb]
        st._memo = {}
        r = self.region(st, db, True)
        self.clobber_range(r, doff[0], doff[0] + n, ('copy', sb, soff[0], n, sr.dirty, tuple(sorted(sr.cells.items(), key=repr)) if len(sr.cells) < 40 else None, doff[0]))
        for o, s, v in cells:
            r.cells[(doff[0] + o - soff[0], s)] = v
        if y.rkind == 'global' and y.extra.const and y.extra.image is not None and n <= 256:
            for i in range(n):
                if soff[0] + i < y.extra.size and (soff[0] + i, 1) not in sr.cells and not any(k <= soff[0] + i < k + 8 for k in y.extra.relocs):
                    r.cells[(doff[0] + i, 1)] = K(y.extra.image[soff[0] + i])
            self.defrag(r, doff[0], n)
        elif sr.zero and not sr.dirty and n <= 4096 and not cells:
            r.cells[(doff[0], n)] = ZERO

    def memxor(self, st, dst, src, length):
        length = self.norm(st, length)
        db, doff = self.base(self.norm(st, dst))
        sb, soff = self.base(self.norm(st, src))
        for hk in self.h['on_xor']:
            hk(st, db, doff, sb, soff, length)
        if db is not None:
            self._clobber_nohook(st, db, doff, length)

    def defrag(self, r, o, n):
        pass

    def write_end(self, st, r, lo, end):
        """where a write certainly ends, at the granularity of what is known about the region"""
        hi = self.upper(st, end)
        if hi > (1 << 40):
            hi = None
        if isconst(end):
            return hi
        c = sorted({o for o, s in r.cells if isinstance(o, int) and o > lo and (hi is None or o < hi)})
        i, j = 0, len(c)
        while i < j:
            k = (i + j) // 2
            if self.prove_ge(st, lsub(K(c[k]), end)):
                j = k
            else:
                i = k + 1
        return c[i] if i < len(c) else hi

    def _clobber_nohook(self, st, b, off, length):
        st._memo = {}
        r = self.region(st, b, True)
        lo = max(self.lower(st, off), 0)
        hi = self.write_end(st, r, lo, ladd(off, length))
        y = self.syms[b]
        if hi is None and y.size is not None and isconst(y.size):
            hi = y.size[0]
        if hi is not None and hi <= lo:
            return
        self.clobber_range(r, lo, hi)

    def memfill(self, st, dst, val, length):
        length = self.norm(st, length)
        db, doff = self.base(self.norm(st, dst))
        for hk in self.h['on_fill']:
            hk(st, db, doff, val, length)
        if db is None:
            return
        y = self.syms[db]
        if isinstance(val, tuple) and isconst(val) and not doff[1] and not length[1]:
            st._memo = {}
            r = self.region(st, db, True)
            if val[0] == 0 and doff[0] == 0 and y.size is not None and y.size == length:
                r.cells = {}
                r.dirty = ()
                r.zero = True
                return
            n = length[0]
            if n <= 0:
                return
            self.clobber_range(r, doff[0], doff[0] + n)
            if n <= 65536:
                r.dirty = tuple(d for d in r.dirty if d[2] != self.fresh_ctr)
                c = 0
                if val[0]:
                    c = int.from_bytes(bytes([val[0] & 255]) * n, 'little')
                r.cells[(doff[0], n)] = K(c)
            return
        self._clobber_nohook(st, db, doff, length)

    # ---------------------------------------------------------------- values
    def val(self, st, fn, v, ty):
        k = v[0]
        if k == 'l':
            try:
                return st.env[v[1]]
            except KeyError:
                # value defined on an infeasible/unvisited path
                raise Limit('undefined SSA value %%%s in %s' % (v[1], fn.name))
        if k == 'c':
            w = ty[1] if ty[0] == 'int' else 64
            return K(canon_const(v[1], w))
        if k in ('null', 'zero'):
            return ZERO
        if k == 'g':
            return self.gsym(fn.module, v[1])
        if k == 'undef' or k == 'fp':
            return self.fresh('undef', 'ptr' if ty[0] == 'ptr' else 'int', ty[1] if ty[0] == 'int' else 64)
        if k == 'gep':
            b, o = fn.module.constgep(v)
            return ladd(self.gsym(fn.module, b), K(o))
        if k == 'cast':
            return self.val(st, fn, v[3], v[2])
        if k == 'agg' and ty[0] == 'vec' and ty[2][0] == 'int' and ty[2][1] % 8 == 0 and all(e[0] == 'c' for _, e in v[1]):
            w = ty[2][1]
            return K(sum((e[1] & ((1 << w) - 1)) << (w * i) for i, (_, e) in enumerate(v[1])))
        return self.fresh('const', 'int', 64)

    def num(self, st, v):
        if isinstance(v, Pred):
            d = self.decide(st, v)
            if d is None:
                raise NeedSplit(v)
            return ONE if d else ZERO
        if isinstance(v, Agg):
            return self.fresh('agg')
        return self.norm(st, v)

    def fits(self, st, n, w):
        lo, hi = width_range(w)
        return self.prove_ge(st, ladd(n, K(-lo))) and self.prove_ge(st, ladd(lneg(n), K(hi)))

    def symval(self, op, args, w, lo=None, hi=None):
        return self.opaque((op,) + tuple(args) + (w,), op, w, lo, hi)

    def symin(self, st, op, args, w, lo, hi):
        """symbol of an operation with bounds that hold in this state only"""
        if lo == hi:
            return K(canon_const(lo, w))
        v = self.symval(op, args, w)
        s = v[1][0][0]
        l, h = self.bounds(st, s)
        if lo > l or hi < h:
            st.rng[s] = (max(lo, l), min(hi, h))
            st._memo = {}
        return v

    def binop(self, st, op, a, b, w, flags):
        if op in ('add', 'sub'):
            if op == 'add' and isconst(b) and w == 64 and b[0] > (1 << 63):
                # adding a negative constant
                r = ladd(a, K(b[0] - (1 << 64)))
                if self.prove_ge(st, r):
                    return r
                if not isconst(r) and self.base(r)[0] is None and self.decide(st, Pred('ge', r)) is None:
                    raise NeedSplit(Pred('ge', r))
            if op == 'add' and isconst(a) and w == 64 and a[0] > (1 << 63):
                return self.binop(st, op, b, a, w, flags)
            if op == 'add' and w in (8, 16):
                x, z = (a, b) if isconst(b) else (b, a)
                if isconst(z) and z[0] > 1 << (w - 1) and not isconst(x):
                    r = ladd(x, K(z[0] - (1 << w)))
                    if self.prove_ge(st, r) and self.prove_ge(st, lsub(K((1 << w) - 1), r)):
                        return r
            r = ladd(a, b) if op == 'add' else lsub(a, b)
            if isconst(r) :
                return K(canon_const(r[0], w))
            if ('nsw' in flags and w == 32) or ('nuw' in flags and w != 32):
                return r
            if self.base(r)[0] is not None:
                return r
            if self.fits(st, r, w):
                return r
            if w == 32 and len(r[1]) == 1 and r[1][0][1] == 1 and (isconst(a) or isconst(b)) and abs(r[0]) < 1 << 16:
                # wrapping 32-bit counters: decide whether this step wraps
                wl, wh = width_range(w)
                for p, wrap in ((lsub(K(wh), r), -(1 << w)), (lsub(r, K(wl)), 1 << w)):
                    d = self.decide(st, Pred('ge', p))
                    if d is None:
                        raise NeedSplit(Pred('ge', p))
                    if d is False:
                        return ladd(r, K(wrap))
                return r
            if op == 'sub':
                return self.symval('sub', (a, b), w)
            return self.symval('add', (a, b) if a <= b else (b, a), w)
        if op == 'mul':
            if isconst(a):
                a, b = b, a
            if isconst(b):
                r = lscale(a, b[0])
                if isconst(r):
                    return K(canon_const(r[0], w))
                if ('nsw' in flags and w == 32) or self.fits(st, r, w):
                    return r
            return self.symval('mul', (a, b) if a <= b else (b, a), w)
        if op == 'shl':
            if isconst(b):
                r = lscale(a, 1 << b[0])
                if isconst(r):
                    return K(canon_const(r[0], w))
                if self.fits(st, r, w):
                    return r
            return self.symval('shl', (a, b), w)
        if isconst(a) and isconst(b):
            x, y = a[0] & ((1 << w) - 1), b[0] & ((1 << w) - 1)
            sx, sy = (x - (1 << w) if x >> (w - 1) else x), (y - (1 << w) if y >> (w - 1) else y)
            try:
                z = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'lshr': lambda: x >> y,
                     'ashr': lambda: sx >> y, 'udiv': lambda: x // y, 'urem': lambda: x % y,
                     'sdiv': lambda: int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1),
                     'srem': lambda: (abs(sx) % abs(sy)) * (1 if sx >= 0 else -1)}[op]()
                return K(canon_const(z, w))
            except (KeyError, ZeroDivisionError):
                return self.symval(op, (a, b), w)
        lo, hi = self.lower(st, a), self.upper(st, a)
        wl, wh = width_range(w)
        if op in ('and', 'or', 'xor') and not isconst(a) and not isconst(b):
            # masks: an operand with only two possible values is decided first
            for x in (a, b):
                l, h = self.lower(st, x), self.upper(st, x)
                if (l, h) in ((0, 1), (-1, 0)):
                    raise NeedSplit(Pred('eq', x))
        if op == 'and':
            if isconst(a):
                a, b = b, a
            if isconst(b) and b[0] == canon_const(-1, w):
                return a
            if isconst(b):
                m = b[0]
                if m == 0:
                    return ZERO
                if m > 0 and (m & (m + 1)) == 0 and self.prove_ge(st, a) and self.prove_ge(st, ladd(lneg(a), K(m))):
                    return a
                if self.linmask and m > 0 and (m & (m + 1)) == 0 and lo >= 0 and isconst(b):
                    l, h, k = self.lower(st, a), self.upper(st, a), m.bit_length()
                    if l >= 0 and l >> k == h >> k:
                        return lsub(a, K((l >> k) << k))
                low = (1 << 64) - m
                if w == 64 and 1 < low <= 4096 and low & (low - 1) == 0 and lo >= 0:
                    # rounding down to a multiple of a power of two
                    return lsub(a, self.binop(st, 'and', a, K(low - 1), w, flags))
                if m > 0:
                    h = m
                    al, ah = self.lower(st, a), self.upper(st, a)
                    if al >= 0:
                        h = min(m, ah)
                    r = self.symin(st, 'and', (a, b), w, 0, h)
                    if al >= 0:
                        self.derived_le(st, r, a)
                    return r
            al, ah = self.lower(st, a), self.upper(st, a)
            bl, bh = self.lower(st, b), self.upper(st, b)
            if al >= 0 and bl >= 0:
                return self.symin(st, 'and', (a, b) if a <= b else (b, a), w, 0, min(ah, bh, wh))
            return self.symval('and', (a, b) if a <= b else (b, a), w)
        if op in ('or', 'xor'):
            if isconst(b) and b[0] == 0:
                return a
            if isconst(a) and a[0] == 0:
                return b
            if op == 'xor' and a == b:
                return ZERO
            if op == 'or' and a == b:
                return a
            if op == 'or' and self.linmask:
                for x, z in ((a, b), (b, a)):
                    h = self.upper(st, z)
                    if self.lower(st, z) >= 0 and self.lower(st, x) >= 0 and not any(c % (1 << h.bit_length()) for c in [x[0]] + [c for _, c in x[1]]):
                        return ladd(a, b)
            al, ah = self.lower(st, a), self.upper(st, a)
            bl, bh = self.lower(st, b), self.upper(st, b)
            if al >= 0 and bl >= 0:
                h = (1 << max(ah.bit_length(), bh.bit_length())) - 1
                return self.symin(st, op, (a, b) if a <= b else (b, a), w, max(al, bl) if op == 'or' else 0, min(h, wh))
            return self.symval(op, (a, b) if a <= b else (b, a), w)
        if op in ('lshr', 'udiv') and isconst(b) and b[0] > 0:
            d = (1 << b[0]) if op == 'lshr' else b[0]
            if d == 1:
                return a
            if lo >= 0:
                r = self.symin(st, op, (a, b), w, lo // d, min(hi, wh) // d)
                # a - (d-1) <= d*r <= a
                self.derived_ge(st, lsub(a, lscale(r, d)))
                self.derived_ge(st, lsub(ladd(lscale(r, d), K(d - 1)), a))
                return r
            return self.symval(op, (a, b), w)
        if op == 'urem' and isconst(b) and b[0] > 0 and lo >= 0:
            r = self.symval(op, (a, b), w, 0, b[0] - 1)
            self.derived_le(st, r, a)
            return r
        if op in ('sdiv', 'srem', 'ashr') and isconst(b) and lo >= 0 and hi < 1 << (w - 1) and b[0] < 1 << (w - 1):
            return self.binop(st, {'sdiv': 'udiv', 'srem': 'urem', 'ashr': 'lshr'}[op], a, b, w, ())
        return self.symval(op, (a, b), w)

    def derived_le(self, st, r, a):
        self.derived_ge(st, lsub(a, r))

    def derived_ge(self, st, lin):
        if len(lin[1]) > 1 and lin not in st.facts and not self.lower(st, lin) >= 0:
            st.facts = st.facts + (lin,)
            st._memo = {}

    def icmp(self, st, pr, ty, a, b):
        w = ty[1] if ty[0] == 'int' else 64
        if pr in ('eq', 'ne'):
            # comparison of a boolean with a constant
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Pred) and not isinstance(y, Pred) and isconst(y):
                    if y[0] == 0:
                        r = x.negate()
                    elif y[0] == 1:
                        r = x
                    else:
                        r = None
                    if r is not None:
                        return r if pr == 'eq' else r.negate()
            a, b = self.num(st, a), self.num(st, b)
            d = lsub(a, b)
            return Pred('eq', d, pr == 'ne')
        a, b = self.num(st, a), self.num(st, b)
        signed = pr[0] == 's'
        rel = pr[1:]
        native = (w == 32) == signed
        if not native:
            if signed:
                lim = (1 << (w - 1)) - 1
                # map constants to signed
                def sg(x):
                    if isconst(x) and x[0] > lim:
                        return K(x[0] - (1 << w))
                    return x
                oka = isconst(a) or self.prove_ge(st, ladd(lneg(a), K(lim)))
                okb = isconst(b) or self.prove_ge(st, ladd(lneg(b), K(lim)))
                a2, b2 = sg(a), sg(b)
                if oka and okb:
                    a, b = a2, b2
                elif isconst(b2) and b2[0] in (0, -1) and self.decide_high(st, a, w) :
                    a, b = ladd(a, K(-(1 << w))), b2
                else:
                    # sign of a or b unknown: split on the sign of the unknown one
                    x = a if not oka else b
                    raise NeedSplit(Pred('ge', ladd(lneg(x), K(lim))))
            else:  # unsigned comparison on 32-bit (canonical signed)
                def us(x):
                    if isconst(x) and x[0] < 0:
                        return K(x[0] + (1 << 32))
                    return x
                oka = isconst(a) or self.prove_ge(st, a)
                okb = isconst(b) or self.prove_ge(st, b)
                if oka and okb:
                    a, b = us(a), us(b)
                else:
                    x = a if not oka else b
                    d = self.decide(st, Pred('ge', x))
                    if d is None:
                        raise NeedSplit(Pred('ge', x))
                    if d is False:
                        if x is a:
                            a = ladd(a, K(1 << 32))
                            b = us(b)
                            if not (isconst(b) or self.prove_ge(st, b)):
                                d2 = self.decide(st, Pred('ge', b))
                                if d2 is None:
                                    raise NeedSplit(Pred('ge', b))
                                b = ladd(b, K(1 << 32))
                        else:
                            a = us(a)
                            b = ladd(b, K(1 << 32))
        elif signed and not native:
            pass
        if rel == 'lt':
            return Pred('ge', ladd(lsub(b, a), K(-1)))
        if rel == 'le':
            return Pred('ge', lsub(b, a))
        if rel == 'gt':
            return Pred('ge', ladd(lsub(a, b), K(-1)))
        return Pred('ge', lsub(a, b))

    def decide_high(self, st, a, w):
        return self.prove_ge(st, ladd(a, K(-(1 << (w - 1)))))

    def cast(self, st, op, v, t1, t2):
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            return v
        if t1[0] != 'int' or t2[0] != 'int':
            return self.fresh('fp', 'int', t2[1] if t2[0] == 'int' else 64)
        w1, w2 = t1[1], t2[1]
        if op == 'zext':
            if isinstance(v, Pred):
                return v
            v = self.num(st, v)
            if w1 == 32 and w2 != 32:
                if isconst(v):
                    return K(v[0] & 0xffffffff)
                if self.prove_ge(st, v):
                    return v
                return self.symval('zext', (v, K(w1)), w2, 0, (1 << 32) - 1)
            return v
        if op == 'sext':
            v = self.num(st, v)
            if w1 == 1:
                return K(canon_const(-v[0], w2)) if isconst(v) else v
            if w1 == 32:
                if w2 == 32:
                    return v
                if isconst(v):
                    return K(canon_const(v[0], w2))
                if self.prove_ge(st, v):
                    return v
                return self.symval('sext', (v, K(w1)), w2)
            if isconst(v):
                x = v[0]
                if x >> (w1 - 1) & 1:
                    x -= 1 << w1
                return K(canon_const(x, w2))
            if self.prove_ge(st, ladd(lneg(v), K((1 << (w1 - 1)) - 1))):
                return v
            if w2 == 32:
                return self.symval('sext', (v, K(w1)), w2, -(1 << (w1 - 1)), (1 << (w1 - 1)) - 1)
            return self.symval('sext', (v, K(w1)), w2)
        if op == 'trunc':
            if isinstance(v, Pred):
                return v
            v = self.num(st, v)
            if isconst(v):
                return K(canon_const(v[0], w2))
            if w2 == 1:
                return Pred('eq', self.symval('trunc', (v, K(w1)), 8, 0, 1), True)
            if self.fits(st, v, w2):
                return v
            return self.symval('trunc', (v, K(w1)), w2)
        return v

    # ---------------------------------------------------------------- execution
    def where(self, fn, inst):
        if inst is None:
            return fn.name if fn else '?'
        f, l = fn.module.loc(inst.dbg)
        return '%s:%d' % (f, l)

    def report(self, st, rule, fn, inst, msg):
        path = []
        t = st.trail
        while t is not None and len(path) < 60:
            path.append(t[1])
            t = t[0]
        path.reverse()
        self.reports.append(Report(rule, self.where(fn, inst), msg, path))

    def note(self, st, txt):
        st.trail = (st.trail, txt)

    def run(self, fn, setup=None):
        """Interpret fn as an entry point with unconstrained arguments.  Returns [(state, retval)]."""
        self.entry = fn
        st = State()
        st.g = dict(self.g_init)
        args = []
        for i, (t, n) in enumerate(fn.params):
            if t[0] == 'ptr':
                s = self.newsym(('param', fn.name, i), n, 'ptr', 64)
                s.rkind = 'param'
                args.append((0, ((s.id, 1),)))
            elif t[0] == 'int':
                s = self.newsym(('param', fn.name, i), n, 'int', t[1])
                args.append((0, ((s.id, 1),)))
            else:
                args.append(self.fresh(n))
        if setup:
            r = setup(self, st, args)
            if r is not None:
                st = r
        outs = self.exec_fn(fn, args, st, None)
        for s, v in outs:
            self.stats['paths'] += 1
            for hk in self.h['on_return']:
                hk(s, v, fn)
        return outs

    def exec_fn(self, fn, args, st, site):
        if len(st.stack) > self.max_depth:
            raise Limit('call depth in ' + fn.name)
        fn.analyze()
        self.fnseen.add(fn.name)
        fr = Frame(fn, site)
        fr.argvals = args
        saved = st.env
        st.env = {}
        st.stack = st.stack + (fr,)
        for (t, n), v in zip(fn.params, args):
            st.env[n] = v
        for hk in self.h['on_enter']:
            hk(st, fn, args)
        exits, backs, rets = self.run_blocks(fn, [(fn.order[0].name, None, st)], set(b.name for b in fn.rpo), None)
        out = []
        for s, v, inst in rets:
            for hk in self.h['on_frame_exit']:
                hk(s, fn, s.stack[-1], v, inst)
            s.stack = s.stack[:-1]
            s.env = dict(saved)
            out.append((s, v))
        if len(out) > 1:
            out = self.merge_returns(out)
        return out

    def gkey(self, st):
        return tuple(sorted(st.g.items(), key=lambda kv: kv[0]))

    def merge_returns(self, out):
        if len(out) <= self.merge_limit:
            return out
        groups = {}
        for s, v in out:
            nv = self.norm(s, v) if isinstance(v, tuple) else v
            groups.setdefault((self.gkey(s), nv if (isinstance(nv, tuple) and isconst(nv)) else '?'), []).append((s, v))
        res = []
        for k, lst in groups.items():
            if len(lst) > 8:
                j = self.join([s for s, v in lst], [v for s, v in lst])
                res.append(j)
            else:
                res.extend(lst)
        return res

    # -- join of states with equal ghost
    def join(self, states, vals=None):
        a = states[0]
        ns = a.fork()
        ns._memo = {}
        memo = {}
        jne = []

        def jv(vs, width=64, kind=None):
            n0 = [self.norm(s, v) if isinstance(v, tuple) else v for s, v in zip(states, vs)]
            if all(x == n0[0] for x in n0[1:]):
                # equal in all: keep un-normalised first if identical
                return n0[0]
            key = tuple(n0) if all(not isinstance(x, Agg) for x in n0) else None
            if key is not None and key in memo:
                return memo[key]
            n0 = [x if not isinstance(x, Pred) else None for x in n0]
            if any(x is None for x in n0):
                r = self.fresh('join', 'int', 32, 0, 1)
            else:
                bases = set(self.base(x)[0] for x in n0)
                if bases == {None}:
                    lo = min(self.lower(s, x) for s, x in zip(states, n0))
                    hi = max(self.upper(s, x) for s, x in zip(states, n0))
                    r = self.fresh('join', 'int', width, lo, hi)
                    if lo <= 0 <= hi and all(self.prove_ne(s, x) for s, x in zip(states, n0)):
                        jne.append(r)
                elif len(bases) == 1:
                    b = next(iter(bases))
                    offs = [self.base(x)[1] for x in n0]
                    lo = min(self.lower(s, x) for s, x in zip(states, offs))
                    hi = max(self.upper(s, x) for s, x in zip(states, offs))
                    r = ladd((0, ((b, 1),)), self.fresh('join', 'int', 64, lo, hi))
                else:
                    r = self.fresh('join', 'ptr', 64)
                    self.syms[r[1][0][0]].rkind = 'lazy'
                    if all(self.prove_ne(s, x) for s, x in zip(states, n0)):
                        ns.rng[r[1][0][0]] = (1, U64)
            if key is not None:
                memo[key] = r
            return r
        # facts valid in all
        facts = []
        cand = []
        for s in states:
            for f in s.facts:
                cand.append(f)
            for x, e in s.eqs.items():
                d = lsub((0, ((x, 1),)), e)
                cand.append(d)
                cand.append(lneg(d))
        cand = list(dict.fromkeys(cand))
        keep = [f for f in cand if all(self.prove_ge(s, f) for s in states)]
        rng = {}
        keys = set()
        for s in states:
            keys |= set(s.rng) | set(s.eqs)
        for k in keys:
            lo = min(self.lower(s, self.norm(s, (0, ((k, 1),)))) for s in states)
            hi = max(self.upper(s, self.norm(s, (0, ((k, 1),)))) for s in states)
            rng[k] = (lo, hi)
        neq = set()
        for s in states:
            for q in s.neq:
                if q not in neq and all(self.prove_ne(t, q) for t in states):
                    neq.add(q)
        # pointers proven non-null through normalisation
        env = {}
        names = set(a.env)
        for s in states[1:]:
            names &= set(s.env)
        for n in names:
            vs = [s.env[n] for s in states]
            if all(v is vs[0] for v in vs[1:]):
                env[n] = vs[0]
            elif any(isinstance(v, Agg) for v in vs):
                env[n] = vs[0]
            else:
                env[n] = jv(vs)
        mem = {}
        bases = set()
        for s in states:
            bases |= set(s.mem)
        for b in bases:
            rs = [s.mem.get(b) for s in states]
            if all(r is rs[0] for r in rs[1:]):
                mem[b] = rs[0]
                continue
            nr = Region()
            rr = [r if r is not None else Region() for r in rs]
            nr.zero = all(r.zero for r in rr)
            cells = set()
            for r in rr:
                for k in r.cells:
                    if isinstance(k[0], int):
                        cells.add(k)
            zdiff = not all(r.zero == rr[0].zero for r in rr)
            dd = set()
            for r in rr:
                dd |= set(r.dirty)
            common = set(rr[0].dirty)
            for r in rr[1:]:
                common &= set(r.dirty)
            self.fresh_ctr += 1
            ep = ('join', self.fresh_ctr)
            nr.dirty = tuple(d for d in rr[0].dirty if d in common) + tuple((d[0], d[1], ep) for d in dd - common)
            if zdiff:
                nr.dirty = ((0, None, ep),)
            for k in cells:
                vs = []
                ok = True
                for s, r in zip(states, rr):
                    v = r.cells.get(k)
                    if v is None:
                        # read through the region semantics
                        sample = next(x.cells[k] for x in rr if k in x.cells)
                        isptr = isinstance(sample, tuple) and self.base(sample)[0] is not None
                        s2 = s
                        old = s2.mem.get(b)
                        v = self.load_cell(s2, b, K(k[0]), k[1], isptr, 8 * k[1], None)
                        if old is None:
                            s2.mem.pop(b, None)
                        else:
                            s2.mem[b] = old
                    vs.append(v)
                nr.cells[k] = jv(vs, min(8 * k[1], 64))
            # overlapping cells from different partitions: keep only disjoint ones
            ks = sorted(nr.cells)
            for i in range(len(ks) - 1):
                o, sz = ks[i]
                o2, s2 = ks[i + 1]
                if o2 < o + sz:
                    for kk in (ks[i], ks[i + 1]):
                        if kk in nr.cells:
                            del nr.cells[kk]
                    nr.dirty = nr.dirty + ((o, max(o + sz, o2 + s2), ep),)
            mem[b] = nr
        rv = None
        if vals is not None:
            rv = vals[0] if all(v is None for v in vals) else jv(vals, 32)
        opq = {k: v for k, v in a.opq.items() if all(s.opq.get(k) == v for s in states)}
        if self.join_facts:
            one = lambda x: isinstance(x, tuple) and len(x[1]) == 1 and x[1][0][1] == 1 and self.base(x)[0] is None
            ent = [(key, r) for key, r in memo.items() if len(r[1]) == 1 and all(isinstance(x, tuple) for x in key)]
            temps = []
            for key, r in ent:
                t = next((i for i, x in enumerate(key) if one(x)), None)
                if t is not None and t not in temps and len(temps) < 4:
                    temps.append(t)
            for t in temps if self.join_facts > 1 else ():
                mp = {}
                for key, r in ent:
                    if one(key[t]):
                        mp.setdefault(key[t][1][0][0], (key[t][0], r, key))
                for f in states[t].facts:
                    on = [(v, k) for v, k in f[1] if v in mp]
                    for take in ([on] if len(on) > 1 else []) + [[q] for q in on]:
                        rest = lsub(f, (0, tuple(take)))
                        if all(self.prove_ge(s, _lsum(rest, [(lsub(mp[v][2][i], K(mp[v][0])), k) for v, k in take])) for i, s in enumerate(states)):
                            keep.append(_lsum(rest, [(lsub(mp[v][1], K(mp[v][0])), k) for v, k in take]))
            jinv = [i for hk in self.h_inv for i in hk(a, None, None)]
            jinv = [i for i in jinv if all(i[1](s) for s in states)]
        # extra relations between fresh joined values and their sources
        ns.env = env
        ns.mem = mem
        ns.facts = tuple(keep)
        ns.eqs = {}
        nr2 = dict(rng)
        nr2.update(ns.rng if False else {})
        for k, v in list(ns.rng.items()):
            if k not in nr2 and self.syms[k].name.startswith('join'):
                nr2[k] = v
        ns.rng = nr2
        ns.neq = frozenset(neq) | frozenset(self._neqkey(x) for x in jne)
        ns.opq = opq
        ns._memo = {}
        for k, (lo, hi) in list(ns.rng.items()):
            if lo == hi and k not in ns.eqs:
                ns.eqs[k] = K(lo)
        if self.join_facts:
            for i in jinv:
                i[0](ns)
        return (ns, rv) if vals is not None else ns

    def run_blocks(self, fn, starts, within, header):
        """worklist in reverse post-order.  returns exits [(block,pred,state)], backs [(pred,state)], rets"""
        import heapq
        pend = {}
        heap = []
        blocks = fn.blocks
        loops = fn._loops
        for b, p, s in starts:
            pend.setdefault(b, []).append((p, s))
        for b in pend:
            heapq.heappush(heap, (blocks[b].rpo, b))
        exits, backs, rets = [], [], []
        first = True
        while heap:
            _, b = heapq.heappop(heap)
            lst = pend.pop(b, None)
            if not lst:
                continue

            def route(outs):
                for tgt, pred, s in outs:
                    if tgt == header:
                        backs.append((pred, s))
                    elif tgt not in within:
                        exits.append((tgt, pred, s))
                    else:
                        if tgt not in pend:
                            pend[tgt] = []
                            heapq.heappush(heap, (blocks[tgt].rpo, tgt))
                        pend[tgt].append((pred, s))
            if len(lst) > self.merge_limit:
                lst = self.merge_pending(fn, b, lst)
            if b in loops and b != header:
                for p, s in lst:
                    ex, rt = self.run_loop(fn, b, p, s)
                    rets.extend(rt)
                    route(ex)
            else:
                for p, s in lst:
                    outs, rt = self.exec_block(fn, blocks[b], p, s)
                    rets.extend(rt)
                    route(outs)
        return exits, backs, rets

    def merge_pending(self, fn, b, lst):
        blk = fn.blocks[b]
        # evaluate phis first so the join sees them as values
        groups = {}
        for p, s in lst:
            groups.setdefault(self.gkey(s), []).append((p, s))
        out = []
        for k, l in groups.items():
            if len(l) <= max(2, self.merge_limit // max(1, len(groups))):
                out.extend(l)
                continue
            states = []
            names = []
            for p, s in l:
                s = s.fork()
                self.do_phis(fn, blk, p, s)
                states.append(s)
            j = self.join(states)
            out.append(('__phidone', j))
        return out

    def do_phis(self, fn, blk, pred, st):
        new = {}
        for ins in blk.insts:
            if ins.op != 'phi':
                break
            for v, b in ins.a:
                if b == pred:
                    new[ins.res] = self.val(st, fn, v, ins.ty)
                    break
            else:
                raise Limit('phi without predecessor %s in %s' % (pred, fn.name))
        st.env.update(new)

    def exec_block(self, fn, blk, pred, st):
        outs, rets = [], []
        if pred is not None and pred != '__phidone':
            self.do_phis(fn, blk, pred, st)
        work = [(st, 0)]
        insts = blk.insts
        n = len(insts)
        while work:
            st, i = work.pop()
            while True:
                ins = insts[i]
                op = ins.op
                if op == 'phi':
                    i += 1
                    continue
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Limit('step budget exhausted in ' + fn.name)
                try:
                    if op == 'br':
                        c = ins.a[0]
                        if c is None:
                            outs.append((ins.a[1], blk.name, st))
                            break
                        v = self.val(st, fn, c, llir.I1)
                        p = v if isinstance(v, Pred) else Pred('eq', self.num(st, v), True)
                        self.branch(fn, blk, ins, st, p, outs)
                        break
                    if op == 'switch':
                        self.do_switch(fn, blk, ins, st, outs)
                        break
                    if op == 'ret':
                        v = None
                        if ins.a[0] is not None:
                            v = self.val(st, fn, ins.a[1], ins.a[0])
                        rets.append((st, v, ins))
                        break
                    if op == 'unreachable':
                        break
                    if op == 'call':
                        res = self.do_call(fn, ins, st)
                        for s2, rv in res:
                            if ins.res is not None:
                                s2.env[ins.res] = rv if rv is not None else ZERO
                        if not res:
                            break
                        for s2, rv in res[1:]:
                            work.append((s2, i + 1))
                        st = res[0][0]
                        i += 1
                        continue
                    r = self.step(fn, ins, st)
                    if ins.res is not None:
                        st.env[ins.res] = r
                    i += 1
                except NeedSplit as e:
                    for s2, tv in self.split(st, e.pred):
                        if s2 is st:
                            raise Limit('split made no progress in ' + fn.name)
                        work.append((s2, i))
                    break
        return outs, rets

    def branch(self, fn, blk, ins, st, p, outs):
        self.stats['branches'] += 1
        d = self.decide(st, p)
        if d is not None:
            tgt = ins.a[1] if d else ins.a[2]
            if self.loopctx:
                self.loopctx[-1].saw_branch(fn, blk.name, ins.a[1], ins.a[2], tgt, True)
            outs.append((tgt, blk.name, st))
            return
        for tv in (True, False):
            s2 = st.fork()
            if not self.assume(s2, p if tv else p.negate()):
                continue
            s2.trail = (s2.trail, '%s: %s' % (self.where(fn, ins), 'taken' if tv else 'not taken'))
            tgt = ins.a[1] if tv else ins.a[2]
            if self.loopctx:
                self.loopctx[-1].saw_branch(fn, blk.name, ins.a[1], ins.a[2], tgt, False)
            for hk in self.h['on_branch']:
                hk(s2, fn, ins, p, tv)
            outs.append((tgt, blk.name, s2))

    def do_switch(self, fn, blk, ins, st, outs):
        t, v, dflt, cases = ins.a
        x = self.num(st, self.val(st, fn, v, t))
        w = t[1]
        rest = st
        for cv, tgt in cases:
            p = Pred('eq', lsub(x, K(canon_const(cv, w))))
            d = self.decide(rest, p)
            if d is True:
                outs.append((tgt, blk.name, rest))
                return
            if d is False:
                continue
            s2 = rest.fork()
            if self.assume(s2, p):
                s2.trail = (s2.trail, '%s: case %d' % (self.where(fn, ins), cv))
                outs.append((tgt, blk.name, s2))
            if not self.assume(rest, p.negate()):
                return
        rest.trail = (rest.trail, '%s: default' % self.where(fn, ins))
        outs.append((dflt, blk.name, rest))

    def step(self, fn, ins, st):
        op = ins.op
        a = ins.a
        mod = fn.module
        if op == 'load':
            return self.load(st, self.num(st, self.val(st, fn, a[0], llir.PTR)), ins.ty, mod, ins, fn)
        if op == 'store':
            v = self.val(st, fn, a[1], a[0])
            if isinstance(v, Agg):
                v = self.fresh('agg')
            if isinstance(v, tuple):
                v = self.norm(st, v)
            p = self.num(st, self.val(st, fn, a[2], llir.PTR))
            self.store(st, p, v, mod.sizeof(a[0]), ins, fn)
            return None
        if op == 'getelementptr':
            return self.gep(fn, st, ins)
        if op == 'icmp':
            x = self.val(st, fn, a[2], a[1])
            y = self.val(st, fn, a[3], a[1])
            r = self.icmp(st, a[0], a[1], x, y)
            if r.kind != 'opq' and not r.arg[1]:
                truth = (r.arg[0] >= 0) if r.kind == 'ge' else ((r.arg[0] == 0) != r.neg)
                return ONE if truth else ZERO
            return r
        if op in llir.CASTS:
            return self.cast(st, op, self.val(st, fn, a[1], a[0]), a[0], ins.ty)
        if op in llir.BIN:
            x = self.val(st, fn, a[0], ins.ty)
            y = self.val(st, fn, a[1], ins.ty)
            if ins.ty[0] != 'int':
                return self.fresh('fp')
            if ins.ty[1] == 1 and op == 'xor':
                for u, w in ((x, y), (y, x)):
                    if isinstance(w, tuple) and isconst(w) and isinstance(u, Pred):
                        return u.negate() if w[0] & 1 else u
            x, y = self.num(st, x), self.num(st, y)
            return self.binop(st, op, x, y, ins.ty[1], ins.flags)
        if op == 'alloca':
            t, cnt = a
            c = self.num(st, self.val(st, fn, cnt, ('int', 64)))
            fr = st.stack[-1]
            self.fresh_ctr += 1
            depth = len(st.stack)
            key = ('alloca', fn.name, ins.res, depth, tuple((f.fn.name, f.site.idx if f.site else 0, f.site.block.name if f.site else '') for f in st.stack))
            # one symbol per (call path, alloca); a loop re-entering the same call path reuses it with fresh contents
            s = self.newsym(key, ins.res, 'ptr', 64, 1, U64)
            s.rkind = 'alloca'
            s.nonnull = True
            sz = mod.sizeof(t)
            s.size = lscale(c, sz)
            s.extra = (fn.name, ins)
            r = Region()
            r.dirty = ((0, None, ('uninit', self.fresh_ctr)),)
            st.mem[s.id] = r
            nf = Frame(fr.fn, fr.site)
            nf.allocas = fr.allocas + [s.id] if s.id not in fr.allocas else fr.allocas
            nf.argvals = fr.argvals
            st.stack = st.stack[:-1] + (nf,)
            return (0, ((s.id, 1),))
        if op == 'select':
            c = self.val(st, fn, a[0], llir.I1)
            p = c if isinstance(c, Pred) else Pred('eq', self.num(st, c), True)
            d = self.decide(st, p)
            if d is None:
                x = self.val(st, fn, a[1], ins.ty)
                y = self.val(st, fn, a[2], ins.ty)
                if ins.ty == llir.I1:
                    # short-circuit booleans
                    raise NeedSplit(p)
                raise NeedSplit(p)
            return self.val(st, fn, a[1] if d else a[2], ins.ty)
        if op == 'freeze':
            return self.val(st, fn, a[0], ins.ty)
        if op == 'extractvalue':
            v = self.val(st, fn, a[1], a[0])
            if isinstance(v, Agg):
                x = v.d.get(tuple(a[2]))
                if x is not None:
                    return x
            return self.fresh('ev', 'ptr' if ins.ty[0] == 'ptr' else 'int', ins.ty[1] if ins.ty[0] == 'int' else 64)
        if op == 'insertvalue':
            v = self.val(st, fn, a[1], a[0])
            d = dict(v.d) if isinstance(v, Agg) else {}
            d[tuple(a[4])] = self.val(st, fn, a[3], a[2])
            return Agg(d)
        if op in ('fcmp',):
            return Pred('opq', ('fcmp', id(ins)))
        return self.fresh(op, 'ptr' if ins.ty[0] == 'ptr' else 'int', ins.ty[1] if ins.ty[0] == 'int' else 64)

    def gep(self, fn, st, ins):
        srct, basev, idx = ins.a
        mod = fn.module
        p = self.num(st, self.val(st, fn, basev, llir.PTR))
        off = ZERO
        t = srct
        first = True
        b, boff = self.base(p)
        for it, iv in idx:
            i = self.num(st, self.val(st, fn, iv, it))
            if isconst(i):
                c = i[0]
                w = it[1]
                if w != 32 and c >> (w - 1):
                    c -= 1 << w
                i = K(c)
            elif it == ('int', 64):
                y = i
                # index computed as 64-bit wraparound (negative): leave as is
            if first:
                off = ladd(off, lscale(i, mod.sizeof(t)))
                first = False
            else:
                body = mod.body(t)
                if t[0] in ('arr', 'vec'):
                    t = t[2]
                    off = ladd(off, lscale(i, mod.sizeof(t)))
                else:
                    k = i[0]
                    o = mod.layout(t)[0][k]
                    sname = t[1] if t[0] == 'struct' else None
                    off = ladd(off, K(o))
                    if b is not None and sname:
                        tot = ladd(boff, off)
                        if isconst(tot):
                            nm = self.prog.field(sname, o)
                            if nm:
                                self.fieldof[(b, tot[0])] = (re.sub(r'\.\d+$', '', sname).replace('struct.', ''), nm)
                        else:
                            nm = self.prog.field(sname, o)
                            if nm:
                                self.fieldof[(b, tot)] = (re.sub(r'\.\d+$', '', sname).replace('struct.', ''), nm)
                    t = body[2][k]
        return ladd(p, off)

    # ---------------------------------------------------------------- calls
    def do_call(self, fn, ins, st):
        callee, args = ins.a
        mod = fn.module
        c = Call()
        c.inst = ins
        c.fn = fn
        c.types = [t for t, _ in args]
        c.rettype = ins.ty
        c.slot = None
        c.callee = None
        c.stack = st.stack
        if callee[0] == 'asm':
            c.name = '<asm>'
            c.args = [self.num(st, self.val(st, fn, v, t)) for t, v in args]
            return self.default_model(st, c)
        target = None
        if callee[0] == 'g':
            target = self.prog.resolve(mod, callee[1])
            c.name = callee[1]
        else:
            fv = self.num(st, self.val(st, fn, callee, llir.PTR))
            c.slot = self.slotname(st, fv, fn, callee)
            c.name = None
            if fv[0] == 0 and len(fv[1]) == 1:
                y = self.syms[fv[1][0][0]]
                if y.rkind == 'fn':
                    target = y.extra
                    if c.slot is None:
                        c.name = target.name
                elif y.rkind == 'extern':
                    c.name = y.extra
            if c.slot is not None and not self.inline_slots:
                target = None
            if c.slot is not None and (target is None):
                c.name = 'slot:' + c.slot
            if c.name is None:
                c.name = target.name if target else '<indirect>'
        c.args = [self.num(st, self.val(st, fn, v, t)) if t[0] != 'opaque' else ZERO for t, v in args]
        c.callee = target
        if target is not None:
            c.name = target.name
        self.stats['calls'] += 1
        for hk in self.h['on_call']:
            r = hk(st, c)
            if r is False:
                return []
        nm = c.name
        if nm.startswith('llvm.'):
            nm = '.'.join(nm.split('.')[:2])
        m = self.models.get(nm)
        if m is not None and (target is None or nm in self.contract):
            res = m(self, st, c)
        elif target is not None and nm not in self.contract:
            if any(f.fn is target for f in st.stack):
                if sum(1 for f in st.stack if f.fn is target) >= 1:
                    res = self.default_model(st, c)
                    return self.after_call(res, c)
            s0 = st
            res = self.exec_fn(target, c.args, st, ins)
        else:
            res = self.default_model(st, c)
        return self.after_call(res, c)

    def after_call(self, res, c):
        hs = self.h['on_call_done']
        if not hs:
            return res
        out = []
        for s, v in res:
            cur = [(s, v)]
            for hk in hs:
                nxt = []
                for s1, v1 in cur:
                    r = hk(s1, c, v1)
                    if r is None:
                        nxt.append((s1, v1))
                    else:
                        nxt.extend(r)
                cur = nxt
            out.extend(cur)
        return out

    def retval(self, c, name=None, lo=None, hi=None):
        t = c.rettype
        if t == llir.VOID:
            return None
        if t[0] == 'ptr':
            v = self.fresh('ret:' + c.name, 'ptr', 64)
            self.syms[v[1][0][0]].rkind = 'lazy'
            return v
        if t[0] == 'int':
            return self.fresh('ret:' + c.name, 'int', t[1], lo, hi, origin=('ret', c.name))
        return self.fresh('ret')

    def default_model(self, st, c):
        for t, v in zip(c.types, c.args):
            if t[0] == 'ptr' and isinstance(v, tuple):
                b, off = self.base(v)
                if b is not None and self.syms[b].rkind in ('fn',):
                    continue
                if b is not None and self.syms[b].rkind == 'global' and self.syms[b].extra.const:
                    continue
                if b is not None:
                    self.clobber(st, v, None, c)
        return [(st, self.retval(c))]

    def slotname(self, st, fv, fn, callee):
        """struct.field the function pointer was loaded from"""
        # the field the value was read from, wherever it has been copied since
        if fv[0] == 0 and len(fv[1]) == 1 and fv[1][0][1] == 1:
            og = self.syms[fv[1][0][0]].origin
            if og is not None and og[0] == 'lazy':
                f = self.fieldof.get((og[1], og[2]))
                if f:
                    return '%s.%s' % f
        # find the defining load of the SSA callee
        if callee[0] != 'l':
            return None
        ins = None
        for b in fn.order:
            for i in b.insts:
                if i.res == callee[1]:
                    ins = i
                    break
        if ins is None or ins.op != 'load':
            return None
        pv = ins.a[0]
        if pv[0] != 'l':
            return None
        try:
            p = self.norm(st, st.env[pv[1]])
        except KeyError:
            return None
        b, off = self.base(p)
        if b is None:
            return None
        f = self.fieldof.get((b, off[0] if isconst(off) else off))
        if f:
            return '%s.%s' % f
        return None

    # ---------------------------------------------------------------- loops
    def run_loop(self, fn, H, pred, S):
        self.stats['loops'] += 1
        body = fn._loops[H]
        from .idiom import try_idiom
        r = try_idiom(self, fn, H, pred, S, body)
        if r is not None:
            self.stats['idioms'] = self.stats.get('idioms', 0) + 1
            return r
        r = self.try_unroll(fn, H, pred, S, body)
        if r is not None:
            return r
        return self.widen_loop(fn, H, pred, S, body)

    def try_unroll(self, fn, H, pred, S, body):
        cur = [(pred, S.fork())]
        exits, rets = [], []
        mark = len(self.reports), len(self.out)
        ctx = LoopCtx(fn, body)
        for it in range(400):
            ctx.decided_stay = 0
            ctx.undecided_exit = 0
            ctx.undecided_any = 0
            self.loopctx.append(ctx)
            nxt = []
            try:
                ex, bk, rt = self.run_blocks(fn, [(H, p, s) for p, s in cur], body, H)
            finally:
                self.loopctx.pop()
            exits.extend(ex)
            rets.extend(rt)
            if not bk:
                return exits, rets
            if not ctx.decided_stay or len(bk) > self.unroll_width or len(exits) + len(rets) > 34 * self.unroll_width:
                break
            if len(bk) > 1 and it > 2 * self.unroll_width:
                break
            cur = bk
        del self.reports[mark[0]:]
        del self.out[mark[1]:]
        return None

    def widen_loop(self, fn, H, pred, S, body):
        mark = len(self.reports), len(self.out)
        S = S.fork()
        self.do_phis(fn, fn.blocks[H], pred, S)
        phis = [i for i in fn.blocks[H].insts if i.op == 'phi']
        symmark = len(self.syms)
        varying = {}     # loc -> info ; loc = ('phi',name) | ('cell',base,off,size)
        dirty = {}       # base -> list of (lo,hi)
        entry_g = self.gkey(S)
        cands = None     # list of Lin over fresh syms
        dropped = set()
        self.fresh_ctr += 1
        lid = self.fresh_ctr
        fresh = {}       # loc -> Lin value at header
        fsyms = {}       # loc -> the int symbol (id) inside the value
        entryval = {}
        kinds = {}
        ghosts = {entry_g: S.g}
        nonnulls = {}
        gfacts = {entry_g: {}}     # ghost -> {loc: ('c', const) | 'nz'}: per-partition values at the header
        second = [False]
        peel = None      # True: no back edge returns to the entry ghost, so that partition is the first iteration

        def gval(st, loc):
            v = locval(st, loc)
            if isinstance(v, tuple):
                v = self.norm(st, v)
                if varying.get(loc) == 'off':
                    return None
                if isconst(v):
                    return ('c', v[0])
                if v[0] == 0 and len(v[1]) == 1 and v[1][0][1] == 1 and v[1][0][0] in self.stablesyms and varying.get(loc) == 'ptr':
                    return ('v', v)
                if self.prove_ne(st, v):
                    return 'nz'
            return None

        def gmeet(a, b):
            if a == b:
                return a
            if a is None or b is None:
                return None
            if (a == 'nz' or a[1] != 0) and (b == 'nz' or b[1] != 0):
                return 'nz'
            return None

        def locval(st, loc):
            if loc[0] == 'phi':
                return st.env[loc[1]]
            _, b, o, sz = loc
            r = st.mem.get(b)
            if r is not None and (o, sz) in r.cells:
                return r.cells[(o, sz)]
            isptr = kinds.get(loc) == 'ptr'
            old = st.mem.get(b)
            v = self.load_cell(st, b, K(o), sz, isptr, 8 * sz if 8 * sz <= 64 else 8 * sz, None)
            if old is None:
                st.mem.pop(b, None)
            else:
                st.mem[b] = old
            return v

        def mk(loc, a, bvals):
            """choose widened value for loc: entry value a, observed back values bvals"""
            n = a
            vals = [a] + bvals
            if any(isinstance(x, (Pred, Agg)) for x in vals):
                w = 8 * loc[3] if loc[0] == 'cell' else 32
                f = self.fresh('loop%d:%s' % (lid, loc[-1] if loc[0] == 'phi' else loc[2]), 'int', min(w, 64))
                return f, f[1][0][0]
            bases = set(self.base(x)[0] for x in vals)
            nonnull_b = bases - {None}
            if not nonnull_b:
                w = kinds.get(loc, 64)
                f = self.fresh('loop%d:%s' % (lid, self.locname(loc)), 'int', w if isinstance(w, int) and w <= 64 else 64)
                return f, f[1][0][0]
            if len(bases) == 1:
                b0 = next(iter(bases))
                o = self.fresh('loop%d:off:%s' % (lid, self.locname(loc)), 'int', 64, -(1 << 62), 1 << 62)
                return ladd((0, ((b0, 1),)), o), o[1][0][0]
            f = self.fresh('loop%d:%s' % (lid, self.locname(loc)), 'ptr', 64)
            self.syms[f[1][0][0]].rkind = 'lazy'
            return f, None

        for i in phis:
            kinds[('phi', i.res)] = 'ptr' if i.ty[0] == 'ptr' else (i.ty[1] if i.ty[0] == 'int' else 64)

        first_backs = None
        rounds = 0
        generated = False
        cleaned = False
        # invariants suggested by a client, (assume, prove): those that hold on entry, and kept while every back edge proves them
        invs = [i for hk in self.h_inv for i in hk(S, fn, H) if i[1](S)]
        while True:
            rounds += 1
            if rounds > 60:
                raise Limit('loop does not stabilise in %s at %s' % (fn.name, H))
            del self.reports[mark[0]:]
            del self.out[mark[1]:]
            # build header state G
            G = S.fork()
            for b, ivs in dirty.items():
                r = self.region(G, b, True)
                for lo, hi in ivs:
                    self.clobber_range(r, lo, hi, ('loop', lid, lo, hi))
            sub_entry = {}
            for loc in varying:
                v = fresh[loc]
                if loc[0] == 'phi':
                    G.env[loc[1]] = v
                else:
                    _, b, o, sz = loc
                    self.store_cell(G, b, K(o), sz, v)
            G._memo = {}
            ok = True
            for c in (cands or []):
                if not self.add_ge(G, c):
                    ok = False
            for loc in varying:
                if nonnulls.get(loc):
                    self.add_ne(G, fresh[loc])
            exits, rets, allbacks = [], [], []
            done = set()
            recur = False
            work = list(ghosts)
            gch = overflow = False
            while work:
                gk = work.pop()
                if gk in done:
                    continue
                done.add(gk)
                G2 = G.fork()
                G2.g = dict(ghosts[gk])
                feas = True
                for loc, f in gfacts[gk].items():
                    if loc in varying and f is not None:
                        if f == 'nz':
                            feas = self.add_ne(G2, fresh[loc]) and feas
                        elif f[0] == 'v':
                            if loc[0] == 'phi':
                                G2.env[loc[1]] = f[1]
                            else:
                                self.store_cell(G2, loc[1], K(loc[2]), loc[3], f[1])
                        else:
                            feas = self.add_eq(G2, lsub(fresh[loc], K(f[1]))) and feas
                if peel and gk == entry_g:
                    for loc in varying:
                        if isinstance(entryval.get(loc), tuple) and isinstance(fresh[loc], tuple):
                            feas = feas and self.add_eq(G2, lsub(fresh[loc], entryval[loc]))
                for assume, prove in invs:
                    feas = feas and assume(G2)
                if not feas:
                    continue
                for hk in self.h['on_loop_header']:
                    hk(G2, fn, H)
                ctx = LoopCtx(fn, body)
                self.loopctx.append(ctx)
                try:
                    ex, bk, rt = self.run_blocks(fn, [(H, '__phidone', G2)], body, H)
                finally:
                    self.loopctx.pop()
                exits.extend(ex)
                rets.extend(rt)
                for p, s in bk:
                    s = s.fork()
                    self.do_phis(fn, fn.blocks[H], p, s)
                    allbacks.append(s)
                    for hk in self.h['on_back_edge']:
                        hk(s, fn, H)
                    k2 = self.gkey(s)
                    if k2 == entry_g:
                        recur = True
                    gf = {loc: gval(s, loc) for loc in varying}
                    if k2 not in ghosts:
                        ghosts[k2] = s.g
                        gfacts[k2] = gf
                        if len(ghosts) > 64:
                            overflow = True     # final only once the varying locations are known
                            work.clear()
                            break
                        work.append(k2)
                    else:
                        old = gfacts[k2]
                        for loc in varying:
                            m = gmeet(old.get(loc), gf[loc])
                            if m != old.get(loc):
                                old[loc] = m
                                gch = True
            # compare
            changed = False
            newvary = {}
            for B in allbacks:
                for i in phis:
                    loc = ('phi', i.res)
                    vb = B.env[i.res]
                    if loc in varying:
                        # a same-base pointer that meanwhile got a different base
                        info = varying[loc]
                        if info == 'off':
                            bb = self.base(self.norm(B, vb))[0] if isinstance(vb, tuple) else None
                            if bb != self.base(fresh[loc])[0]:
                                newvary.setdefault(loc, []).append(vb)
                        elif info == 'int' and kinds.get(loc) == 'ptr' and isinstance(vb, tuple) and self.base(self.norm(B, vb))[0] is not None:
                            newvary.setdefault(loc, []).append(vb)
                        continue
                    if not self.same(B, vb, G.env[i.res]):
                        newvary.setdefault(loc, []).append(self.norm(B, vb) if isinstance(vb, tuple) else vb)
                for b, r in B.mem.items():
                    gr = G.mem.get(b)
                    if r is gr:
                        continue
                    y = self.syms[b]
                    if b >= symmark and y.rkind in ('heap', 'alloca') and b not in S.mem:
                        continue
                    gdirty = gr.dirty if gr is not None else ()
                    cells = set(k for k in r.cells if isinstance(k[0], int))
                    if gr is not None:
                        cells |= set(k for k in gr.cells if isinstance(k[0], int))
                    for d in r.dirty:
                        if d in gdirty:
                            continue
                        cov = any(lo <= d[0] and (hi is None or (d[1] is not None and d[1] <= hi)) for lo, hi in dirty.get(b, []))
                        if not cov:
                            L = dirty.setdefault(b, [])
                            L.append((d[0], d[1]))
                            changed = True
                            for loc in [l for l in varying if l[0] == 'cell' and l[1] == b and (d[1] is None or l[2] < d[1]) and d[0] < l[2] + l[3]]:
                                del varying[loc]
                                cands = [c for c in (cands or []) if not any(s == fsyms.get(loc) for s, _ in c[1])]
                    for (o, sz) in cells:
                        loc = ('cell', b, o, sz)
                        if any((hi is None or o < hi) and lo < o + sz for lo, hi in dirty.get(b, [])):
                            continue
                        vb = r.cells.get((o, sz))
                        vg = gr.cells.get((o, sz)) if gr is not None else None
                        if vb is not None and vg is not None and vb is vg:
                            continue
                        if loc not in kinds:
                            smp = vb if vb is not None else vg
                            isp = isinstance(smp, tuple) and self.base(smp)[0] is not None
                            kinds[loc] = 'ptr' if isp else (8 * sz if 8 * sz <= 64 else 64)
                        vb = locval(B, loc)
                        vg = locval(G, loc)
                        if loc in varying:
                            if varying[loc] == 'off':
                                bb = self.base(self.norm(B, vb))[0] if isinstance(vb, tuple) else None
                                if bb != self.base(fresh[loc])[0]:
                                    newvary.setdefault(loc, []).append(vb)
                            elif varying[loc] == 'int' and kinds.get(loc) == 'ptr' and isinstance(vb, tuple) and self.base(self.norm(B, vb))[0] is not None:
                                newvary.setdefault(loc, []).append(vb)
                            continue
                        if not self.same(B, vb, vg):
                            # overlapping different-size cells: fall back to dirtying the bytes
                            ov = [l for l in list(varying) + list(newvary) if l[0] == 'cell' and l[1] == b and l != loc and l[2] < o + sz and o < l[2] + l[3]]
                            if ov or sz > 8:
                                dirty.setdefault(b, []).append((o, o + sz))
                                for l in ov:
                                    if l in varying:
                                        del varying[l]
                                    newvary.pop(l, None)
                                changed = True
                            else:
                                newvary.setdefault(loc, []).append(self.norm(B, vb) if isinstance(vb, tuple) else vb)
            if newvary:
                for loc, bv in newvary.items():
                    a = locval(S, loc)
                    a = self.norm(S, a) if isinstance(a, tuple) else a
                    entryval[loc] = a
                    v, fs = mk(loc, a, bv)
                    fresh[loc] = v
                    fsyms[loc] = fs
                    varying[loc] = 'off' if (self.base(v)[0] is not None and fs is not None) else 'int' if fs is not None else 'ptr'
                    if varying[loc] in ('ptr', 'int') and isinstance(a, tuple):
                        nonnulls[loc] = self.prove_ne(S, a)
                changed = True
                generated = False
                if not cleaned:
                    cands = None
            if changed:
                ghosts = {entry_g: S.g}
                gfacts = {entry_g: {loc: gval(S, loc) for loc in varying}}
                continue
            if overflow:
                raise Limit('ghost states diverge in loop of %s at %s' % (fn.name, H))
            if gch:
                continue
            if peel and recur:
                peel = False
                continue
            if not generated:
                generated = True
                kept = cands or [] if cleaned else []
                cands = self.loop_candidates(S, G, allbacks, varying, fresh, fsyms, entryval, locval, dropped)
                cands = kept + [c for c in cands if c not in kept]
                if cands:
                    continue
            # check candidates at back edges
            bad = []
            for c in cands or []:
                for B in allbacks:
                    m = {}
                    for loc in varying:
                        fs = fsyms[loc]
                        if fs is None:
                            continue
                        vb = locval(B, loc)
                        vb = self.norm(B, vb) if isinstance(vb, tuple) else None
                        if vb is None:
                            m = None
                            break
                        if varying[loc] == 'off':
                            bb, bo = self.base(vb)
                            m[fs] = bo
                        else:
                            m[fs] = vb
                    if m is None or not self.prove_ge(B, lsubst(c, m)):
                        bad.append(c)
                        break
            nb = [loc for loc in varying if nonnulls.get(loc) and not all(self.prove_ne(B, locval(B, loc)) if isinstance(locval(B, loc), tuple) else False for B in allbacks)]
            ni = [i for i in invs if all(i[1](B) for B in allbacks)]
            if bad or nb or len(ni) < len(invs):
                invs = ni
                dropped |= set(bad)
                cands = [c for c in cands if c not in bad]
                for loc in nb:
                    nonnulls[loc] = False
                continue
            if rounds < 50 and not second[0]:
                # one more candidate generation now that inductive facts are known
                second[0] = True
                more = self.loop_candidates(S, G, allbacks, varying, fresh, fsyms, entryval, locval, dropped)
                more = [c for c in more if c not in cands]
                if more:
                    cands = cands + more
                    continue
            if peel is None and not recur and rounds < 50:
                peel = True
                continue
            if invs and dirty and not cleaned and rounds < 40:
                # what was overwritten before the invariants were known may in fact be kept
                cleaned = True
                dirty = {}
                ghosts = {entry_g: S.g}
                gfacts = {entry_g: {loc: gval(S, loc) for loc in varying}}
                continue
            return exits, rets

    def locname(self, loc):
        if loc[0] == 'phi':
            return loc[1]
        return self.lazyname(loc[1], loc[2])

    def same(self, st, a, b):
        if a is b or a == b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.norm(st, a) == self.norm(st, b)
        return False

    def loop_candidates(self, S, G, backs, varying, fresh, fsyms, entryval, locval, dropped):
        out = []
        ints = []
        for loc in varying:
            fs = fsyms[loc]
            if fs is None:
                continue
            a = entryval[loc]
            if not isinstance(a, tuple):
                continue
            if varying[loc] == 'off':
                a = self.base(a)[1]
            ints.append((loc, fs, a))
        sv = lambda s: (0, ((s, 1),))

        def backoff(B, loc):
            vb = locval(B, loc)
            if not isinstance(vb, tuple):
                return None
            vb = self.norm(B, vb)
            if varying[loc] == 'off':
                return self.base(vb)[1]
            return vb
        deltas = {}
        for loc, fs, a in ints:
            out.append(lsub(sv(fs), a))
            out.append(lsub(a, sv(fs)))
            ds = set()
            for B in backs:
                vb = backoff(B, loc)
                ds.add(None if vb is None else lsub(vb, self.norm(B, sv(fs))))
            deltas[loc] = ds
        # locations that move in step first
        ints.sort(key=lambda x: 0 if None not in deltas[x[0]] and all(isconst(d) for d in deltas[x[0]]) else 1)
        for i, (l1, f1, a1) in enumerate(ints[:10]):
            for l2, f2, a2 in ints[i + 1:10]:
                d1, d2 = lsub(sv(f1), a1), lsub(sv(f2), a2)
                ks = {(1, 1)}
                x1, x2 = deltas[l1], deltas[l2]
                if len(x1) == 1 and len(x2) == 1:
                    y1, y2 = next(iter(x1)), next(iter(x2))
                    if y1 is not None and y2 is not None:
                        if isconst(y1) and isconst(y2) and y1[0] and y2[0]:
                            ks = {(abs(y2[0]), abs(y1[0]))}
                        elif y1[1] and y2[1] and len(y1[1]) == 1 and len(y2[1]) == 1 and y1[1][0][0] == y2[1][0][0]:
                            ks = {(abs(y2[1][0][1]), abs(y1[1][0][1]))}
                for k1, k2 in ks:
                    t = lsub(lscale(d1, k1), lscale(d2, k2))
                    u = ladd(lscale(d1, k1), lscale(d2, k2))
                    for z in (t, u):
                        out.append(z)
                        out.append(lneg(z))
        # divisibility-free guard shifting
        gset = set(G.facts)
        for B in backs:
            sub = {}
            for loc, fs, a in ints:
                vb = backoff(B, loc)
                if vb is None:
                    continue
                d = lsub(vb, self.norm(B, sv(fs)))
                if isconst(d):
                    sub[fs] = ladd(sv(fs), K(-d[0]))
            newf = [f for f in B.facts if f not in gset]
            for loc, fs, a in ints:
                lo, hi = self.bounds(B, fs)
                gl, gh = self.bounds(G, fs)
                if lo != gl:
                    newf.append((-lo, ((fs, 1),)))
                if hi != gh:
                    newf.append((hi, ((fs, -1),)))
            for s_, e_ in B.eqs.items():
                if s_ not in G.eqs:
                    d = lsub(sv(s_), e_)
                    newf += [d, lneg(d)]
            fsset = set(f for _, f, _ in ints)
            for f in newf:
                if any(s in fsset for s, _ in f[1]):
                    out.append(lsubst(f, sub))
                    out.append(f)
        # only candidates over symbols that exist at the header, true on entry
        maxs = len(self.syms)
        res = []
        m = {fs: a for _, fs, a in ints}
        known = set(m)
        seen = set()
        for c in out:
            if c in seen or c in dropped or not c[1]:
                continue
            seen.add(c)
            if not any(s in m for s, _ in c[1]):
                continue
            if self.prove_ge(S, lsubst(c, m)):
                res.append(c)
        return res


class LoopCtx:
    def __init__(self, fn, body):
        self.fn = fn
        self.body = body
        self.decided_stay = 0
        self.undecided_exit = 0

    def saw_branch(self, fn, b, t, f, tgt, decided):
        if fn is not self.fn or b not in self.body:
            return
        tin, fin = t in self.body, f in self.body
        if tin == fin:
            return
        if decided:
            if tgt in self.body:
                self.decided_stay += 1
        else:
            self.undecided_exit += 1
