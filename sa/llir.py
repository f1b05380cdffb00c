"""Parser for the subset of textual LLVM 18 IR that clang -O0 + mem2reg emits for C.

Produces Module objects: struct layouts, globals with initialiser byte images,
functions with basic blocks of Inst objects, and debug-info tables (source lines,
struct field names).
"""
import os, re, sys

# ---------------------------------------------------------------- types
# ('int',n) ('ptr',) ('arr',n,t) ('struct',name) ('lit',packed,(t..)) ('void',) ('fp',n) ('vec',n,t) ('func',) ('opaque',)
PTR = ('ptr',)
VOID = ('void',)
I1 = ('int', 1)

TOK = re.compile(r'''\s*(?:
   (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<qid>[%@!$]"(?:[^"])*")
 | (?P<id>[%@!$\#][-a-zA-Z$._0-9]+)
 | (?P<hexf>0x[0-9A-Fa-fKMLHR]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,*=:|!])
 | (?P<q>"(?:[^"])*")
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m_ = TOK.match
    while pos < n:
        m = m_(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            if s[pos:].lstrip().startswith(';'):
                break
            raise SyntaxError('tokenize: %r' % s[pos:pos + 80])
        out.append(m.group(m.lastgroup))
        pos = m.end()
    return out


PARAM_ATTRS = {
    'noundef', 'nocapture', 'readonly', 'readnone', 'writeonly', 'nonnull', 'zeroext', 'signext', 'inreg',
    'noalias', 'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'noreturn', 'nounwind', 'dso_local',
    'allocptr', 'allocalign', 'local_unnamed_addr', 'unnamed_addr', 'tail', 'musttail', 'notail', 'inbounds',
    'dead_on_unwind', 'writable', 'nsw', 'nuw', 'exact', 'volatile', 'fast', 'nnan', 'ninf', 'disjoint', 'nneg',
    'fastcc', 'ccc', 'coldcc', 'hidden', 'internal', 'external', 'private', 'common', 'weak', 'linkonce_odr',
    'available_externally', 'extern_weak', 'protected',
}


class P:
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise SyntaxError('expected %r got %r in %r' % (x, self.peek(), self.t[max(0, self.i - 8):self.i + 8]))

    def skip_attrs(self):
        while True:
            w = self.peek()
            if w in PARAM_ATTRS:
                self.i += 1
            elif w in ('align',):
                self.i += 1
                if self.eat('('):
                    self.next()
                    self.expect(')')
                else:
                    self.next()
            elif w in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
                       'range', 'memory', 'allocsize', 'addrspace'):
                self.i += 1
                self.skip_parens()
            elif w is not None and w.startswith('#'):
                self.i += 1
            elif w is not None and w.startswith('"'):
                self.i += 1
                if self.eat('='):
                    self.next()
            else:
                return

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            w = self.next()
            if w == '(':
                d += 1
            elif w == ')':
                d -= 1

    def type(self):
        w = self.next()
        t = None
        if w == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
            t = PTR
        elif w == 'void':
            t = VOID
        elif w[0] == 'i' and w[1:].isdigit():
            t = ('int', int(w[1:]))
        elif w in ('float', 'half'):
            t = ('fp', 4)
        elif w == 'double':
            t = ('fp', 8)
        elif w in ('x86_fp80', 'fp128'):
            t = ('fp', 16)
        elif w in ('metadata', 'label', 'token', 'opaque'):
            t = ('opaque',)
        elif w[0] == '%':
            t = ('struct', w[1:].strip('"'))
        elif w == '[':
            n = int(self.next())
            assert self.next() == 'x'
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif w == '<':
            if self.peek() == '{':
                self.next()
                ts = self.typelist('}')
                self.expect('>')
                t = ('lit', True, ts)
            else:
                n = int(self.next())
                assert self.next() == 'x'
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif w == '{':
            t = ('lit', False, self.typelist('}'))
        else:
            raise SyntaxError('type? %r in %r' % (w, self.t[max(0, self.i - 6):self.i + 6]))
        # function type suffix
        if self.peek() == '(':
            save = self.i
            self.skip_parens()
            t = ('func', t)
        return t

    def typelist(self, close):
        ts = []
        if self.eat(close):
            return ()
        while True:
            ts.append(self.type())
            if self.eat(close):
                return tuple(ts)
            self.expect(',')

    # value operands:  ('c',int) ('l',name) ('g',name) ('null',) ('zero',) ('undef',)
    #  ('gep',srcty,base,[ (ty,val) ]) ('cast',op,ty,val,toty) ('str',bytes) ('agg',[(ty,val)]) ('fp',text) ('bin',...)
    def value(self, ty):
        w = self.next()
        c = w[0]
        if c == '%':
            return ('l', w[1:].strip('"'))
        if c == '@':
            return ('g', w[1:].strip('"'))
        if w == 'null':
            return ('null',)
        if w == 'true':
            return ('c', 1)
        if w == 'false':
            return ('c', 0)
        if w == 'zeroinitializer':
            return ('zero',)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w.startswith('c"'):
            return ('str', cstr(w[2:-1]))
        if ty[0] == 'fp':
            return ('fp', w)
        if c.isdigit() or (c == '-' and len(w) > 1):
            return ('c', int(w))
        if w == 'getelementptr':
            self.skip_attrs()
            self.expect('(')
            st = self.type()
            self.expect(',')
            ops = self.tvlist(')')
            return ('gep', st, ops[0][1], ops[1:])
        if w in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t1 = self.type()
            v = self.value(t1)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', w, t1, v, t2)
        if w in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            self.skip_attrs()
            self.expect('(')
            ops = self.tvlist(')')
            return ('bin', w, ops)
        if w == 'icmp':
            pr = self.next()
            self.expect('(')
            ops = self.tvlist(')')
            return ('cicmp', pr, ops)
        if w in ('[', '{'):
            close = ']' if w == '[' else '}'
            if self.eat(close):
                return ('agg', [])
            return ('agg', self.tvlist(close))
        if w == '<':
            if self.peek() == '{':
                self.next()
                v = ('agg', [] if self.eat('}') else self.tvlist('}'))
                self.expect('>')
                return v
            return ('agg', self.tvlist('>'))
        if w == 'blockaddress':
            self.skip_parens()
            return ('undef',)
        if w == 'asm':
            # asm sideeffect "..." , "..."
            while self.peek() is not None and not self.peek().startswith('"'):
                self.next()
            a = self.next()
            self.expect(',')
            b = self.next()
            return ('asm', a, b)
        raise SyntaxError('value? %r in %r' % (w, self.t[max(0, self.i - 6):self.i + 6]))

    def tvlist(self, close):
        out = []
        while True:
            self.skip_attrs()
            t = self.type()
            self.skip_attrs()
            if t == ('opaque',):
                # metadata operand: skip to matching
                d = 0
                while True:
                    w = self.peek()
                    if w in ('(', '{', '['):
                        d += 1
                    if d == 0 and (w == ',' or w == close):
                        break
                    if w in (')', '}', ']'):
                        d -= 1
                    self.next()
                out.append((t, ('undef',)))
            else:
                out.append((t, self.value(t)))
            if self.eat(close):
                return out
            self.expect(',')


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'idx', 'block', 'flags')
    # a: op-specific tuple

    def __repr__(self):
        return '%s%s %s %r' % ((('%' + self.res + ' = ') if self.res else ''), self.op, self.ty, self.a)


class Block:
    __slots__ = ('name', 'insts', 'succs', 'preds', 'rpo', 'fn')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succs = []
        self.preds = []
        self.rpo = None


class Function:
    def __init__(self, name, module):
        self.name = name
        self.module = module
        self.params = []      # (type, name)
        self.rettype = VOID
        self.blocks = {}
        self.order = []
        self.internal = False
        self.dbg = None
        self.declared_only = False
        self.vararg = False
        self._loops = None

    def analyze(self):
        """RPO, preds, dominators, natural loops."""
        if self._loops is not None:
            return
        ent = self.order[0]
        # postorder iterative
        seen = {ent.name}
        post = []
        stack = [(ent, 0)]
        while stack:
            b, i = stack[-1]
            if i < len(b.succs):
                stack[-1] = (b, i + 1)
                s = self.blocks[b.succs[i]]
                if s.name not in seen:
                    seen.add(s.name)
                    stack.append((s, 0))
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        for i, b in enumerate(rpo):
            b.rpo = i
            b.preds = []
        for b in rpo:
            for s in dict.fromkeys(b.succs):
                self.blocks[s].preds.append(b.name)
        idom = {ent.name: ent.name}
        changed = True
        bl = self.blocks

        def inter(x, y):
            while x != y:
                while bl[x].rpo > bl[y].rpo:
                    x = idom[x]
                while bl[y].rpo > bl[x].rpo:
                    y = idom[y]
            return x
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in b.preds:
                    if p in idom:
                        new = p if new is None else inter(new, p)
                if idom.get(b.name) != new:
                    idom[b.name] = new
                    changed = True
        self.idom = idom

        def dominates(x, y):
            while True:
                if x == y:
                    return True
                if y == ent.name:
                    return False
                y = idom[y]
        self.dominates = dominates
        loops = {}
        for b in rpo:
            for s in b.succs:
                if dominates(s, b.name):
                    body = loops.setdefault(s, {s})
                    work = [b.name]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(bl[x].preds)
                elif bl[s].rpo <= b.rpo:
                    raise NotImplementedError('irreducible CFG in ' + self.name)
        self._loops = loops
        self.rpo = rpo
        # innermost loop header per block
        self.inner = {}
        for b in rpo:
            best = None
            for h, body in loops.items():
                if b.name in body and (best is None or len(body) < len(loops[best])):
                    best = h
            self.inner[b.name] = best


class Global:
    __slots__ = ('name', 'type', 'init', 'const', 'internal', 'image', 'relocs', 'module', 'size')


class Module:
    def __init__(self, name):
        self.name = name
        self.structs = {}
        self.globals = {}
        self.functions = {}
        self.md = {}
        self._di = {}
        self._layout = {}
        self.fieldnames = {}   # struct basename -> {offset: [names]}
        self.fieldinfo = {}    # struct -> {name: (offset, size, is pointer, is bitfield, bit offset, bits)}

    # ---- layout
    def sizealign(self, t):
        k = t[0]
        if k == 'int':
            n = t[1]
            s = (n + 7) // 8
            p = 1
            while p < s:
                p *= 2
            return p, min(p, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'fp':
            return t[1], t[1]
        if k == 'arr':
            s, a = self.sizealign(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.sizealign(t[2])
            s *= t[1]
            return s, s
        if k in ('struct', 'lit'):
            offs, s, a = self.layout(t)
            return s, a
        if k in ('func', 'void', 'opaque'):
            return 1, 1
        raise ValueError(t)

    def sizeof(self, t):
        return self.sizealign(t)[0]

    def body(self, t):
        if t[0] == 'struct':
            return self.structs.get(t[1])
        return t

    def layout(self, t):
        key = t
        r = self._layout.get(key)
        if r:
            return r
        b = self.body(t)
        if b is None or b[0] != 'lit':
            return ((), 0, 1)
        packed = b[1]
        off = 0
        al = 1
        offs = []
        for e in b[2]:
            s, a = self.sizealign(e)
            if packed:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        off = (off + al - 1) // al * al
        r = (tuple(offs), off, al)
        self._layout[key] = r
        return r

    # ---- debug info
    def mdnode(self, ref):
        """returns (kind, dict) for !N"""
        r = self._di.get(ref)
        if r is not None:
            return r
        txt = self.md.get(ref)
        if txt is None:
            return (None, {})
        m = re.match(r'(?:distinct )?!(\w+)\((.*)\)$', txt)
        if m:
            d = {}
            for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|![0-9]+|[^,]+)', m.group(2)):
                d[k] = v.strip('"') if v.startswith('"') else v.strip()
            r = (m.group(1), d)
        else:
            m = re.match(r'(?:distinct )?!\{(.*)\}$', txt)
            r = ('tuple', [x.strip() for x in m.group(1).split(',')] if m and m.group(1) else [])
        self._di[ref] = r
        return r

    def loc(self, dbg):
        """(file, line) of a !dbg reference"""
        if not dbg:
            return ('?', 0)
        k, d = self.mdnode(dbg)
        if k != 'DILocation':
            if k == 'DISubprogram':
                return (self.difile(d.get('file')), int(d.get('line', 0)))
            return ('?', 0)
        line = int(d.get('line', 0))
        sc = d.get('scope')
        for _ in range(64):
            k2, d2 = self.mdnode(sc)
            if 'file' in d2:
                return (self.difile(d2['file']), line)
            sc = d2.get('scope')
            if sc is None:
                break
        return ('?', line)

    def difile(self, ref):
        k, d = self.mdnode(ref)
        fn = d.get('filename', '?')
        for p in (os.environ.get('VP_REPO', '/repo') + '/',):
            if fn.startswith(p):
                fn = fn[len(p):]
        return fn

    def build_fieldnames(self):
        out = {}
        sizes = {}
        for ref, txt in self.md.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in txt:
                k, d = self.mdnode(ref)
                if k != 'DICompositeType' or 'elements' not in d:
                    continue
                nm = d.get('name')
                if not nm:
                    # anonymous: find typedef naming it (slow path handled below)
                    nm = None
                ek, el = self.mdnode(d['elements'])
                if ek != 'tuple':
                    continue
                f = {}
                fs = {}
                for e in el:
                    k2, d2 = self.mdnode(e)
                    if k2 == 'DIDerivedType' and 'name' in d2:
                        f[int(d2.get('offset', 0)) // 8] = d2['name']
                        bits = int(d2.get('size', 0))
                        fs[d2['name']] = (int(d2.get('offset', 0)) // 8, bits // 8 if bits % 8 == 0 else 0, self.di_isptr(d2.get('baseType')),
                                          'BitField' in d2.get('flags', ''), int(d2.get('offset', 0)), bits)
                out[ref] = (nm, f)
                sizes[ref] = fs
        names = {}
        self.fieldinfo = {}
        for ref, txt in self.md.items():
            if 'DIDerivedType(tag: DW_TAG_typedef' in txt:
                k, d = self.mdnode(ref)
                bt = d.get('baseType')
                if bt in out and out[bt][0] is None and d.get('name'):
                    names[d['name']] = out[bt][1]
                    self.fieldinfo[d['name']] = sizes[bt]
        for ref, (nm, f) in out.items():
            if nm:
                names.setdefault(nm, f)
                self.fieldinfo.setdefault(nm, sizes[ref])
        self.fieldnames = names

    def di_isptr(self, ref):
        for _ in range(6):
            txt = self.md.get(ref)
            if txt is None:
                return False
            if 'DW_TAG_pointer_type' in txt:
                return True
            if 'DIDerivedType' not in txt:
                return False
            ref = self.mdnode(ref)[1].get('baseType')
        return False

    def di_type(self, ref):
        """(base type name, pointer depth, points to const) of a debug-info type"""
        depth = 0
        cst = False
        for _ in range(16):
            if ref is None or ref == 'null':
                return ('void', depth, cst)
            k, d = self.mdnode(ref)
            tag = d.get('tag') if isinstance(d, dict) else None
            if k == 'DIDerivedType':
                if tag == 'DW_TAG_pointer_type':
                    depth += 1
                    cst = False
                    ref = d.get('baseType')
                    continue
                if tag == 'DW_TAG_typedef':
                    nm = d.get('name')
                    k2, d2 = self.mdnode(d['baseType']) if d.get('baseType') else (None, {})
                    if k2 == 'DICompositeType' and d2.get('name') is None or k2 == 'DIBasicType' or k2 is None:
                        return (nm, depth, cst)
                    ref = d['baseType']
                    continue
                if tag == 'DW_TAG_const_type':
                    cst = True
                ref = d.get('baseType')
                continue
            return (d.get('name') if isinstance(d, dict) else None, depth, cst)
        return (None, depth, cst)

    def param_types(self, f):
        """[(type name, pointer depth, const)] of a function's return value and parameters"""
        if not f.dbg:
            return []
        k, d = self.mdnode(f.dbg)
        if k != 'DISubprogram' or 'type' not in d:
            return []
        k, t = self.mdnode(d['type'])
        tk, el = self.mdnode(t['types'])
        return [self.di_type(None if e == 'null' else e) for e in el] if tk == 'tuple' else []

    def gval(self, name):
        return self.globals.get(name) or self.functions.get(name)

    # ---- global initialiser images
    def flatten(self, t, v, buf, rel, off):
        k = v[0]
        if k in ('zero', 'undef', 'null'):
            return
        if k == 'c':
            n = self.sizeof(t)
            buf[off:off + n] = (v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
        elif k == 'str':
            buf[off:off + len(v[1])] = v[1]
        elif k == 'agg':
            if t[0] in ('arr', 'vec'):
                es = self.sizeof(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.flatten(et, ev, buf, rel, off + i * es)
            else:
                offs, _, _ = self.layout(t)
                for i, (et, ev) in enumerate(v[1]):
                    self.flatten(et, ev, buf, rel, off + offs[i])
        elif k == 'g':
            rel[off] = (v[1], 0)
        elif k == 'gep':
            b, o = self.constgep(v)
            rel[off] = (b, o)
        elif k == 'cast':
            self.flatten(v[4], v[3], buf, rel, off)
        elif k == 'fp':
            pass
        else:
            raise NotImplementedError(v)

    def constgep(self, v):
        _, st, base, idx = v
        if base[0] == 'g':
            b, o = base[1], 0
        elif base[0] == 'gep':
            b, o = self.constgep(base)
        else:
            raise NotImplementedError(v)
        o += self.gepconst(st, [x[1][1] for x in idx])
        return b, o

    def gepconst(self, st, idx):
        o = idx[0] * self.sizeof(st)
        t = st
        for i in idx[1:]:
            if t[0] in ('arr', 'vec'):
                t = t[2]
                o += i * self.sizeof(t)
            else:
                o += self.layout(t)[0][i]
                t = self.body(t)[2][i]
        return o


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
         'fpext', 'fptrunc'}


def parse_inst(line, mod):
    dbg = None
    m = re.search(r', !dbg (!\d+)', line)
    if m:
        dbg = m.group(1)
        line = line[:m.start()]
    k = line.find(', !')
    if k >= 0 and re.match(r', !(tbaa|llvm|srcloc|prof|range|nonnull|noundef|heapallocsite|annotation)', line[k:]):
        line = line[:k]
    p = P(tokenize(line), mod)
    ins = Inst()
    ins.res = None
    ins.dbg = dbg
    ins.ty = VOID
    ins.flags = ()
    if p.peek(1) == '=' and p.peek()[0] == '%':
        ins.res = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins.op = op
    if op in BIN or op == 'fneg':
        fl = []
        while p.peek() in PARAM_ATTRS:
            fl.append(p.next())
        ins.flags = tuple(fl)
        t = p.type()
        a = p.value(t)
        if op == 'fneg':
            ins.ty = t
            ins.a = (a,)
            return ins
        p.expect(',')
        b = p.value(t)
        ins.ty = t
        ins.a = (a, b)
    elif op in ('icmp', 'fcmp'):
        pr = p.next()
        while pr in PARAM_ATTRS:
            pr = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        ins.ty = I1
        ins.a = (pr, t, a, b)
    elif op in CASTS:
        p.skip_attrs()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        t2 = p.type()
        ins.ty = t2
        ins.a = (t, v)
    elif op == 'alloca':
        p.skip_attrs()
        t = p.type()
        cnt = ('c', 1)
        if p.eat(','):
            if p.peek() != 'align':
                ct = p.type()
                cnt = p.value(ct)
        ins.ty = PTR
        ins.a = (t, cnt)
    elif op == 'load':
        vol = False
        while p.peek() in ('volatile', 'atomic'):
            vol = True
            p.next()
        t = p.type()
        p.expect(',')
        p.type()
        v = p.value(PTR)
        ins.ty = t
        ins.a = (v, vol)
    elif op == 'store':
        vol = False
        while p.peek() in ('volatile', 'atomic'):
            vol = True
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        d = p.value(PTR)
        ins.a = (t, v, d, vol)
    elif op == 'getelementptr':
        p.skip_attrs()
        st = p.type()
        p.expect(',')
        pt = p.type()
        b = p.value(pt)
        idx = []
        while p.eat(','):
            it = p.type()
            idx.append((it, p.value(it)))
        ins.ty = PTR
        ins.a = (st, b, idx)
    elif op == 'br':
        if p.eat('label'):
            ins.a = (None, p.next()[1:].strip('"'))
        else:
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            x = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            y = p.next()[1:].strip('"')
            ins.a = (c, x, y)
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1:].strip('"')))
        ins.a = (t, v, d, cases)
    elif op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()[1:].strip('"')
            p.expect(']')
            inc.append((v, b))
            if not p.eat(','):
                break
        ins.ty = t
        ins.a = inc
    elif op == 'select':
        p.skip_attrs()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        p.type()
        b = p.value(t)
        ins.ty = t
        ins.a = (c, a, b)
    elif op == 'call':
        p.skip_attrs()
        rt = p.type()
        if rt[0] == 'func':
            rt = rt[1]
        p.skip_attrs()
        callee = p.value(PTR)
        p.expect('(')
        args = [] if p.eat(')') else p.tvlist(')')
        ins.ty = rt
        ins.a = (callee, args)
    elif op == 'ret':
        t = p.type()
        if t == VOID:
            ins.a = (None, None)
        else:
            ins.a = (t, p.value(t))
    elif op == 'unreachable':
        ins.a = ()
    elif op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        tt = t
        for i in ix:
            tt = mod.body(tt)[2][i] if tt[0] in ('struct', 'lit') else tt[2]
        ins.ty = tt
        ins.a = (t, v, ix)
    elif op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        v2 = p.value(t2)
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        ins.ty = t
        ins.a = (t, v, t2, v2, ix)
    elif op == 'freeze':
        t = p.type()
        ins.ty = t
        ins.a = (p.value(t),)
    elif op in ('extractelement', 'insertelement', 'shufflevector'):
        # vectors are not modelled; result opaque
        t = p.type()
        v = p.value(t)
        if op == 'extractelement':
            ins.ty = t[2]
        elif op == 'insertelement':
            ins.ty = t
        else:
            ins.ty = t
        ins.a = (t, v)
    else:
        raise SyntaxError('unknown instruction: ' + line)
    return ins


def parse_module(text, name):
    mod = Module(name)
    lines = text.split('\n')
    i = 0
    n = len(lines)
    pending_globals = []
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';':
            continue
        c = ln[0]
        if c == '%':
            m = re.match(r'%("?[^"=]+?"?) = type (.*)$', ln)
            nm = m.group(1).strip('"')
            if m.group(2).startswith('opaque'):
                mod.structs[nm] = None
            else:
                mod.structs[nm] = P(tokenize(m.group(2)), mod).type()
        elif c == '!':
            m = re.match(r'(![\w.]+) = (.*)$', ln)
            if m:
                mod.md[m.group(1)] = m.group(2)
        elif c == '@':
            pending_globals.append(ln)
        elif ln.startswith('declare'):
            m = re.match(r'declare (.*)$', ln)
            f = parse_header(m.group(1), mod)
            f.declared_only = True
            mod.functions.setdefault(f.name, f)
        elif ln.startswith('define'):
            f = parse_header(ln[7:].rsplit('{', 1)[0], mod)
            mod.functions[f.name] = f
            cur = None
            while True:
                ln = lines[i]
                i += 1
                if ln == '}':
                    break
                if not ln.strip():
                    continue
                if ln[0] != ' ':
                    m = re.match(r'("?)([^"]+?)\1:', ln)
                    cur = Block(m.group(2))
                    f.blocks[cur.name] = cur
                    f.order.append(cur)
                    continue
                s = ln.strip()
                if '@llvm.dbg.' in s or '@llvm.lifetime' in s:
                    continue
                if cur is None:
                    cur = Block('__entry')
                    f.blocks[cur.name] = cur
                    f.order.append(cur)
                if s.startswith('switch') and not s.rstrip().endswith(']') and '], !dbg' not in s:
                    while True:
                        l2 = lines[i]
                        i += 1
                        s += ' ' + l2.strip()
                        if l2.strip().startswith(']'):
                            break
                ins = parse_inst(s, mod)
                ins.idx = len(cur.insts)
                ins.block = cur
                cur.insts.append(ins)
            for b in f.order:
                b.fn = f
                t = b.insts[-1]
                if t.op == 'br':
                    b.succs = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
                elif t.op == 'switch':
                    b.succs = [t.a[2]] + [x for _, x in t.a[3]]
                else:
                    b.succs = []
    for ln in pending_globals:
        parse_global(ln, mod)
    for g in mod.globals.values():
        sz = mod.sizeof(g.type)
        g.size = sz
        g.image = None
        g.relocs = {}
        if g.init is not None:
            buf = bytearray(sz)
            mod.flatten(g.type, g.init, buf, g.relocs, 0)
            g.image = bytes(buf)
    mod.build_fieldnames()
    return mod


def parse_global(ln, mod):
    k = ln.find(', !dbg')
    if k >= 0:
        ln = ln[:k]
    m = re.match(r'@("[^"]+"|[-\w$.]+) = (.*)$', ln)
    g = Global()
    g.module = mod
    g.name = m.group(1).strip('"')
    p = P(tokenize(m.group(2)), mod)
    g.internal = False
    while True:
        w = p.peek()
        if w in ('internal', 'private'):
            g.internal = True
            p.next()
        elif w in ('thread_local',):
            p.next()
        elif w in PARAM_ATTRS:
            p.next()
        else:
            break
    ext = 'external' in m.group(2).split()[:3]
    w = p.next()
    if w not in ('constant', 'global'):
        raise SyntaxError(ln[:200])
    g.const = (w == 'constant')
    g.type = p.type()
    g.init = None
    if not ext and p.peek() is not None and p.peek() != ',':
        g.init = p.value(g.type)
    mod.globals[g.name] = g


def parse_header(s, mod):
    dbg = None
    m = re.search(r'!dbg (!\d+)', s)
    if m:
        dbg = m.group(1)
        s = s[:m.start()]
    p = P(tokenize(s), mod)
    internal = False
    while p.peek() in PARAM_ATTRS:
        if p.peek() == 'internal':
            internal = True
        p.next()
    p.skip_attrs()
    # return type, careful: type() would eat "(" as function type only right after type; name comes between
    rt = p.type()
    nm = p.next()
    f = Function(nm[1:].strip('"'), mod)
    f.internal = internal
    f.dbg = dbg
    f.rettype = rt
    p.expect('(')
    if not p.eat(')'):
        i = 0
        while True:
            if p.eat('...'):
                f.vararg = True
                p.expect(')')
                break
            t = p.type()
            p.skip_attrs()
            name = str(i)
            if p.peek() not in (',', ')'):
                if t == ('opaque',):
                    while p.peek() not in (',', ')'):
                        p.next()
                else:
                    name = p.next()[1:].strip('"')
            f.params.append((t, name))
            i += 1
            if p.eat(')'):
                break
            p.expect(',')
    return f


if __name__ == '__main__':
    import time
    for fn in sys.argv[1:]:
        t0 = time.time()
        m = parse_module(open(fn).read(), fn)
        for f in m.functions.values():
            if not f.declared_only:
                f.analyze()
        print(fn, len(m.functions), time.time() - t0)
