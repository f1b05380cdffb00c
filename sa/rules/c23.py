"""C23: certificate and key readers, writers and accessors follow doc/noise-certificate.proto."""
import os, re
from ..absint import *
from .. import build
from ..libmodels import gf, ef, finfo
from ..prov import Prov
from .c19 import region
from ..run import Result, engine_result, V, Broken

RULES = [
    'writer: every successful path of Noise_M_write closes the element first and opens it last with the caller\'s tag, and in between emits exactly the fields that are present, each once with its declared tag and type and its own stored value and size, repeated ones element by element, in descending tag order because the encoder works backwards',
    'reader: Noise_M_read opens the element with the caller\'s tag, and for each tag met performs exactly one read of the declared type into the storage of that field (repeated ones appended), or exactly one skip if the schema has no such tag; success requires that the end of the same element was reached without error',
    'accessor: has, get, set, clear, count, get_at, get_new, add and insert of a field use the storage of that field and change no other; values set are copied in full',
    'top-level: the loaders and savers read and write a message without an enclosing tag, or as an element of the field that encloses it',
]
EXPLANATION = 'one analysis per function and message of the published schema, all paths, presence combinations and tags; loops over repeated fields by induction'
MIN = {'messages': 9, 'fields': 25, 'readers': 9, 'writers': 9, 'accessors': 120, 'obligations': 300, 'toplevel': 4}
ASSUMPTIONS = ['the protobuf primitives encode and decode one value as their names say (C21, C22)']
SCALAR = {'uint32': 4, 'int32': 4, 'uint64': 8, 'int64': 8, 'bool': 4}
PB, F = 'NoiseProtobuf', 'noise_protobuf_'


def schema():
    """{message: [(field, type, tag, repeated)]}"""
    p = os.path.join(build.REPO, 'doc/noise-certificate.proto')
    try:
        s = open(p).read()
    except OSError:
        raise Broken('the published schema doc/noise-certificate.proto is gone')
    s = re.sub(r'//[^\n]*', '', s)
    out = {}
    for m, body in re.findall(r'message\s+(\w+)\s*\{([^}]*)\}', s):
        fs = []
        for st in body.split(';'):
            st = st.strip()
            if not st or st.startswith('reserved'):
                continue
            g = re.fullmatch(r'(repeated\s+)?(\w+)\s+(\w+)\s*=\s*(\d+)', st)
            if not g:
                raise Broken('the schema has a declaration the rule does not know: %s' % st)
            fs.append((g.group(3), g.group(2), int(g.group(4)), bool(g.group(1))))
        out[m] = fs
    return out


def struct(m):
    return '_Noise_' + m


class Base:
    def __init__(self, fn, msg, fields):
        self.fn, self.msg, self.fields = fn, msg, fields
        self.S = struct(msg)
        self.ob = self.good = 0

    def bad(self, st, rule, msg, inst=None, fn=None):
        self.eng.report(st, rule, fn or self.fn, inst, msg)

    def eq(self, st, a, b):
        return isinstance(a, tuple) and isinstance(b, tuple) and self.eng.prove_eq(st, a, b)

    def off(self, f):
        return K(finfo(self.eng.prog, self.S, f)[0])

    def at(self, st, p, obj, f):
        """p points to field f of obj"""
        return self.eq(st, p, ladd(obj, self.off(f)))


class Writer(Base):
    def setup(self, eng, st, args):
        self.pbuf, self.tag, self.obj = args
        eng.add_ne(st, self.pbuf)
        eng.add_ne(st, self.obj)
        eng.add_eq(st, gf(eng, st, self.pbuf, PB, 'error'))
        self.cnt = {f: region(eng, st, 'n_' + f, [], const=False)[1][0][0] for f, t, n, r in self.fields if r}
        for b in self.cnt.values():
            eng.store_cell(st, b, ZERO, 8, ZERO)
        self.seen = {}
        st.g.update(stage=0, out=())
        return st

    def on_load(self, st, b, off, size, v, inst, fn):
        if b is not None and size == 8 and isinstance(v, tuple):
            self.seen[v] = (b, off)

    def on_call_done(self, st, c, ret):
        n, a, eng = c.name, c.args, self.eng
        ok = isinstance(ret, tuple) and eng.decide(st, Pred('eq', ret)) is True
        sub = re.fullmatch(r'Noise_(\w+)_write', n or '')
        if not (sub or (n or '').startswith(F + 'write_')) or c.fn.name != self.fn.name and not c.fn.internal:
            return
        if not self.eq(st, a[0], self.pbuf):
            return self.bad(st, 'writer', '%s writes to another buffer' % n, c.inst, c.fn)
        self.ob += 1
        if not ok:
            # the error sticks (C22) and the result is refused (C05): nothing more to check, but counting goes on
            st.g['failed'] = True
            if sub and isconst(eng.norm(st, a[1])):
                for f, t, num, rep in self.fields:
                    if rep and num == eng.norm(st, a[1])[0]:
                        i = eng.load_cell(st, self.cnt[f], ZERO, 8, False, 64, None)
                        eng.store_cell(st, self.cnt[f], ZERO, 8, ladd(i, ONE))
            return
        if n == F + 'write_end_element':
            if st.g['stage'] != 0:
                self.bad(st, 'writer', 'the element is ended twice or after a field', c.inst)
            b, off = eng.base(eng.norm(st, a[1]))
            st.g['end'] = eng.load_cell(st, b, off, 8, False, 64, None)
            st.g['stage'] = 1
            return
        if n == F + 'write_start_element':
            if st.g['stage'] != 1:
                self.bad(st, 'writer', 'the element is opened without having been ended', c.inst)
            elif not self.eq(st, a[2], st.g['end']):
                self.bad(st, 'writer', 'the element is opened with an end position that is not its own', c.inst)
            if not self.eq(st, a[1], self.tag):
                self.bad(st, 'writer', 'the element does not get the tag the caller asked for', c.inst)
            st.g['stage'] = 2
            return
        if st.g['stage'] != 1:
            self.bad(st, 'writer', 'a field is written outside the element', c.inst)
        tag = eng.norm(st, a[1])
        fd = [x for x in self.fields if isconst(tag) and x[2] == tag[0]]
        if not fd:
            return self.bad(st, 'writer', 'a field is written with a tag the schema does not give %s' % self.msg, c.inst)
        f, t, num, rep = fd[0]
        kind = sub.group(1) if sub else n[len(F + 'write_'):]
        if kind != t:
            return self.bad(st, 'writer', 'field %s is written as %s, the schema says %s' % (f, kind, t), c.inst)
        if rep:
            i = eng.load_cell(st, self.cnt[f], ZERO, 8, False, 64, None)
            arr, count = ef(eng, self.obj, self.S, f), ef(eng, self.obj, self.S, f + '_count_')
            src = self.seen.get(eng.norm(st, a[2])) or self.seen.get(a[2])
            want = ladd(arr, lscale(lsub(lsub(count, ONE), i), 8))
            if src is None or not self.eq(st, ladd((0, ((src[0], 1),)), src[1]), want):
                self.bad(st, 'writer', 'the element of %s that is written is not the next one from the end' % f, c.inst)
            eng.store_cell(st, self.cnt[f], ZERO, 8, ladd(i, ONE))
            if num not in st.g['out']:
                st.g['out'] += (num,)
            elif st.g['out'][-1] != num:
                self.bad(st, 'writer', 'elements of %s are not written one after another' % f, c.inst)
            return
        if num in st.g['out']:
            self.bad(st, 'writer', 'field %s may be written twice' % f, c.inst)
        st.g['out'] += (num,)
        v = ef(eng, self.obj, self.S, f)
        if not self.eq(st, a[2], v):
            self.bad(st, 'writer', 'what is written for field %s is not its value' % f, c.inst)
        if t in ('string', 'bytes') and not self.eq(st, a[3], ef(eng, self.obj, self.S, f + '_size_')):
            self.bad(st, 'writer', 'field %s is not written with its own size' % f, c.inst)

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            if not ok:
                if not s.g.get('failed'):
                    self.bad(s, 'writer', 'a message that can be written is refused')
                continue
            if s.g.get('failed'):
                continue                # C05
            self.good += 1
            if s.g['stage'] != 2:
                self.bad(s, 'writer', 'success without a complete element')
            if list(s.g['out']) != sorted(s.g['out'], reverse=True):
                self.bad(s, 'writer', 'the fields are not in the order of their tags')
            for f, t, num, rep in self.fields:
                if rep:
                    n = eng.load_cell(s, self.cnt[f], ZERO, 8, False, 64, None)
                    if not self.eq(s, n, ef(eng, self.obj, self.S, f + '_count_')):
                        self.bad(s, 'writer', 'not every element of %s is written' % f)
                    continue
                d = eng.decide(s, Pred('eq', ef(eng, self.obj, self.S, f)))
                if num in s.g['out']:
                    if d is not False:
                        self.bad(s, 'writer', 'field %s may be written although it is absent' % f)
                elif d is not True:
                    self.bad(s, 'writer', 'field %s may be present and yet not written' % f)


class Reader(Base):
    def setup(self, eng, st, args):
        self.pbuf, self.tag, self.out = args
        eng.add_ne(st, self.pbuf)
        eng.add_ne(st, self.out)
        eng.add_eq(st, gf(eng, st, self.pbuf, PB, 'error'))
        st.g.update(stage=0, tag=None, did=(), end=None)
        return st

    def obj(self, st):
        b, off = self.eng.base(self.eng.norm(st, self.out))
        return self.eng.norm(st, self.eng.load_cell(st, b, off, 8, True, 64, None))

    def settle(self, st, inst):
        """the tag met last has been dealt with"""
        t, did = st.g['tag'], st.g['did']
        if t is None:
            return
        self.ob += 1
        st.g['tag'], st.g['did'] = None, ()
        if st.g.get('failed'):
            return
        if t == 'other':
            if did != ('skip',):
                self.bad(st, 'reader', 'a tag unknown to the schema is not skipped exactly once', inst)
            return
        f, ty, num, rep = [x for x in self.fields if x[2] == t][0]
        want = ('read %s' % f, 'add %s' % f) if rep else ('read %s' % f,)
        if did != want:
            self.bad(st, 'reader', 'tag %d (%s %s) leads to %s' % (t, ty, f, ', '.join(did) or 'nothing'), inst)

    def did(self, st, x):
        if st.g['tag'] is None and not st.g.get('failed') and st.g['stage'] == 1:
            self.bad(st, 'reader', 'more than the field whose tag was met is consumed (%s)' % x)
        st.g['did'] = st.g['did'][:3] + (x,)

    def on_call(self, st, c):
        n = c.name or ''
        if n in (F + 'read_at_end_element', F + 'read_end_element') or n == F + 'peek_tag' and st.g['did']:
            self.settle(st, c.inst)

    def on_call_done(self, st, c, ret):
        n, a, eng = c.name or '', c.args, self.eng
        ok = isinstance(ret, tuple) and eng.decide(st, Pred('eq', ret)) is True
        if n == 'noise_protobuf_peek_tag':
            out = []
            rest = st
            if st.g['tag'] is not None:         # nothing consumed since the last look
                if st.g['tag'] == 'other':
                    for f, t, num, rep in self.fields:
                        eng.add_ne(st, lsub(ret, K(num)))
                    return
                eng.add_eq(st, lsub(ret, K(st.g['tag'])))
                return
            for f, t, num, rep in self.fields:
                nx = None
                for s, tv in eng.split(rest, Pred('eq', lsub(ret, K(num)))):
                    if tv:
                        s.g = dict(s.g, tag=num, did=())
                        out.append((s, ret))
                    else:
                        nx = s
                rest = nx
                if rest is None:
                    break
            if rest is not None:
                rest.g = dict(rest.g, tag='other', did=())
                out.append((rest, ret))
            return out
        if n == F + 'read_start_element':
            self.ob += 1
            if st.g['stage'] != 0 or not self.eq(st, a[0], self.pbuf):
                self.bad(st, 'reader', 'the element is not opened exactly once', c.inst)
            if not self.eq(st, a[1], self.tag):
                self.bad(st, 'reader', 'the element is not opened with the tag the caller asked for', c.inst)
            if not ok:
                st.g['failed'] = True
            st.g['stage'] = 1
            b, off = eng.base(eng.norm(st, a[2]))
            st.g['end'] = eng.load_cell(st, b, off, 8, False, 64, None)
            return
        if n in (F + 'read_at_end_element', F + 'read_end_element'):
            self.ob += 1
            if st.g['stage'] != 1 or not (st.g.get('failed') or self.eq(st, a[1], st.g['end'])):
                self.bad(st, 'reader', 'the end of the element is judged by another position', c.inst)
            if n == F + 'read_end_element':
                st.g['stage'] = 2 if ok else 3
            return
        if n == F + 'read_skip':
            self.did(st, 'skip')
            if not ok:
                st.g['failed'] = True
            return
        sub = re.fullmatch(r'Noise_(\w+)_read', n)
        if n in (F + 'add_to_array', F + 'insert_into_array'):
            self.ob += 1
            for f, t, num, rep in self.fields:
                if rep and self.at(st, a[0], self.obj(st), f):
                    if n.endswith('insert_into_array') or not self.at(st, a[1], self.obj(st), f + '_count_') or not self.at(st, a[2], self.obj(st), f + '_max_'):
                        self.bad(st, 'reader', 'an element is not appended to %s with its own count and capacity' % f, c.inst)
                    b, off = eng.base(eng.norm(st, a[3]))
                    v = eng.load_cell(st, b, off, 8, True, 64, None) if b is not None else None
                    if not st.g.get('failed') and (st.g.get('val') is None or not self.eq(st, v, st.g['val'])):
                        self.bad(st, 'reader', 'what is appended to %s is not the element just read' % f, c.inst)
                    st.g['val'] = None
                    self.did(st, 'add ' + f)
                    break
            else:
                self.bad(st, 'reader', 'an element is appended to something that is not a repeated field', c.inst)
            if not ok:
                st.g['failed'] = True
            return
        kind = sub.group(1) if sub else n[len(F + 'read_'):] if n.startswith(F + 'read_') else None
        if kind is None:
            return
        self.ob += 1
        kind = {'alloc_string': 'string', 'alloc_bytes': 'bytes'}.get(kind, kind)
        tag = eng.norm(st, a[1])
        fd = [x for x in self.fields if isconst(tag) and x[2] == tag[0]]
        if not fd or not self.eq(st, a[0], self.pbuf):
            return self.bad(st, 'reader', 'a field is read with a tag the schema does not give %s' % self.msg, c.inst)
        f, t, num, rep = fd[0]
        if kind != t:
            self.bad(st, 'reader', 'field %s is read as %s, the schema says %s' % (f, kind, t), c.inst)
        if not rep:
            if not self.at(st, a[2], self.obj(st), f):
                self.bad(st, 'reader', 'what is read for field %s is stored elsewhere' % f, c.inst)
            if t in ('string', 'bytes'):
                if not self.eq(st, a[3], ZERO):
                    self.bad(st, 'reader', 'the length of field %s is limited' % f, c.inst)
                if not self.at(st, a[4], self.obj(st), f + '_size_'):
                    self.bad(st, 'reader', 'the size of field %s is stored elsewhere' % f, c.inst)
        else:
            b, off = eng.base(eng.norm(st, a[2]))
            st.g['val'] = eng.norm(st, eng.load_cell(st, b, off, 8, True, 64, None)) if b is not None and ok else None
        self.did(st, 'read ' + f)
        if not ok:
            st.g['failed'] = True

    def on_back_edge(self, st, fn, header):
        if st.g.get('failed') and st.g['stage'] == 1:
            st.g['tag'], st.g['did'] = None, ()
        st.g['val'] = None

    def on_return(self, st, v, fn):
        eng = self.eng
        for s, ok in eng.split(st, Pred('eq', v)):
            self.ob += 1
            if not ok:
                continue
            self.good += 1
            if s.g['stage'] != 2:
                self.bad(s, 'reader', 'success without having reached the end of the element')
            if s.g.get('failed'):
                continue                # C05
            if eng.decide(s, Pred('eq', self.obj(s))) is not False:
                self.bad(s, 'reader', 'success without a message')


def elem(eng, st, obj, S, f, i):
    arr = ef(eng, obj, S, f)
    b, off = eng.base(eng.norm(st, ladd(arr, lscale(i, 8))))
    return eng.norm(st, eng.load_cell(st, b, off, 8, True, 64, None))


class Accessor(Prov):
    def __init__(self, fn, msg, fields, op, fd, size=None):
        super().__init__()
        self.fn, self.msg, self.fields, self.op, self.fd = fn, msg, fields, op, fd
        self.S = struct(msg)
        self.ob = self.good = 0

    at, off, eq, bad = Base.at, Base.off, Base.eq, Base.bad

    def slots(self):
        """(name of every storage of every field)"""
        for f, t, n, r in self.fields:
            yield f, f
            if r:
                yield f, f + '_count_'
                yield f, f + '_max_'
            elif t in ('string', 'bytes'):
                yield f, f + '_size_'

    def setup(self, eng, st, args):
        self.args = args
        for a, p in zip(args, self.fn.params):
            if p[0][0] == 'ptr':
                eng.add_ne(st, a)
        self.obj = args[0]
        return st

    def on_call_done(self, st, c, ret):
        res = super().on_call_done(st, c, ret)
        n = c.name or ''
        ok = isinstance(ret, tuple) and self.eng.decide(st, Pred('eq', ret)) is True
        if n == F + 'free_memory' or re.fullmatch(r'Noise_\w+_free', n):
            for s, _ in (res if res is not None else [(st, ret)]):
                if self.eq(s, c.args[0], ef(self.eng, self.obj, self.S, self.fd[0])):
                    s.g['freed'] = True
        elif n in (F + 'add_to_array', F + 'insert_into_array') and ok:
            self.array(st, c)
        return res

    def array(self, st, c):
        f = self.fd[0]
        a = c.args
        self.ob += 1
        ins = 'insert' in c.name
        if not (self.at(st, a[0], self.obj, f) and self.at(st, a[1], self.obj, f + '_count_') and self.at(st, a[2], self.obj, f + '_max_')):
            return self.bad(st, 'accessor', '%s works on the storage of another field' % self.fn.name, c.inst)
        b, off = self.eng.base(self.eng.norm(st, a[4 if ins else 3]))
        v = self.eng.load_cell(st, b, off, 8, True, 64, None) if b is not None else None
        st.g['added'] = self.eng.norm(st, v) if v is not None else None
        st.g['index'] = self.eng.norm(st, a[3]) if ins else None

    def word(self, st, p):
        b, off = self.eng.base(self.eng.norm(st, p))
        return self.eng.norm(st, self.eng.load_cell(st, b, off, 8, True, 64, None))

    def ret(self, s, v, want, what):
        self.ob += 1
        if not self.eq(s, v, want):
            self.bad(s, 'accessor', '%s does not return %s' % (self.fn.name, what))

    def on_return(self, st, v, fn):
        eng = self.eng
        f, t, num, rep = self.fd
        op = self.op
        own = {f, f + '_size_', f + '_count_', f + '_max_'}
        changes = op in ('set', 'clear', 'get_new', 'add', 'insert')
        entry = lambda x: ef(eng, self.obj, self.S, x)
        now = lambda s, x: gf(eng, s, self.obj, self.S, x)
        parts = eng.split(st, Pred('eq', v)) if changes else [(st, True)]
        for s, ok in parts:
            for fl, x in self.slots():
                self.ob += 1
                if (not changes or x not in own) and not self.eq(s, now(s, x), entry(x)):
                    self.bad(s, 'accessor', '%s may change %s' % (fn.name, x))
            if not ok:
                continue
            self.good += 1
            if op == 'has':
                p = entry(f + '_count_' if rep else f)
                for q, z in eng.split(s, Pred('eq', p)):
                    for r, w in eng.split(q, v if isinstance(v, Pred) else Pred('eq', v, True)):
                        self.ob += 1
                        if w == z:
                            self.bad(r, 'accessor', '%s is wrong about the presence of %s' % (fn.name, f))
            elif op == 'get':
                self.ret(s, v, entry(f), 'field ' + f)
            elif op == 'get_size':
                self.ret(s, v, entry(f + '_size_'), 'the size of ' + f)
            elif op == 'count':
                self.ret(s, v, entry(f + '_count_'), 'the number of elements of ' + f)
            elif op == 'get_at':
                i = self.args[1]
                for q, inside in eng.split(s, Pred('ge', lsub(lsub(entry(f + '_count_'), i), ONE))):
                    if inside:
                        self.ret(q, v, elem(eng, q, self.obj, self.S, f, i), 'the element asked for')
                    else:
                        self.ret(q, v, ZERO, 'null for an index past the last element')
            elif op == 'clear':
                for x in sorted(own):
                    if x in dict((y, 1) for _, y in self.slots()):
                        self.ret_field(s, now(s, x), ZERO, x)
                if t not in SCALAR and not rep and not self.released(s, entry(f)):
                    self.bad(s, 'accessor', '%s forgets the old value without releasing it' % fn.name)
            elif op == 'set':
                if t in SCALAR:
                    self.ret_field(s, now(s, f), self.args[1], f)
                else:
                    self.ob += 1
                    p, n = now(s, f), self.args[2]
                    self.ret_field(s, now(s, f + '_size_'), n, f + '_size_')
                    if not self.released(s, entry(f)):
                        self.bad(s, 'accessor', '%s forgets the old value without releasing it' % fn.name)
                    if not eng.prove_eq(s, n) and not self.same(s, self.content(s, p, n), ('in', eng.norm(s, self.args[1]), eng.norm(s, n))):
                        self.bad(s, 'accessor', '%s does not store a full copy of the value' % fn.name)
            elif op == 'get_new':
                self.ret_field(s, now(s, f), self.word(s, self.args[1]), f)
                if not self.released(s, entry(f)):
                    self.bad(s, 'accessor', '%s forgets the old value without releasing it' % fn.name)
            elif op in ('add', 'insert'):
                self.ob += 1
                want = self.word(s, self.args[1]) if op == 'add' else self.args[2]
                if s.g.get('added') is None or not self.eq(s, s.g['added'], want):
                    self.bad(s, 'accessor', '%s does not put the element into %s' % (fn.name, f))
                if op == 'insert' and not (s.g.get('index') is not None and self.eq(s, s.g['index'], self.args[1])):
                    self.bad(s, 'accessor', '%s does not use the index it is given' % fn.name)

    def ret_field(self, s, got, want, x):
        self.ob += 1
        if not self.eq(s, got, want):
            self.bad(s, 'accessor', '%s does not leave the right value in %s' % (self.fn.name, x))

    def released(self, s, p):
        return s.g.get('freed') or self.eng.decide(s, Pred('eq', p)) is True


def ops(fd):
    f, t, num, rep = fd
    if rep:
        return ['has', 'count', 'get_at', 'add', 'insert', 'clear']
    if t in SCALAR:
        return ['has', 'get', 'set', 'clear']
    if t in ('string', 'bytes'):
        return ['has', 'get', 'get_size', 'set', 'clear']
    return ['has', 'get', 'get_new', 'clear']


def job(item):
    lib, kind, f, msg, fields, op, fd = item
    cl = Writer(f, msg, fields) if kind == 'write' else Reader(f, msg, fields) if kind == 'read' else Accessor(f, msg, fields, op, fd)
    e = lib.engine([cl])
    e.models.pop(f.name, None)
    e.run(f, cl.setup)
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    r.count({'write': 'writers', 'read': 'readers'}.get(kind, 'accessors'))
    r.count('obligations', cl.ob)
    if not cl.good and not r.viol:
        raise Broken('%s never succeeds' % f.name)
    return r


def check(ctx):
    lib = ctx.lib('ref')
    sc = schema()
    items = []
    for m, fields in sorted(sc.items()):
        ctx.count('messages')
        ctx.count('fields', len(fields))
        if struct(m) not in lib.prog.fieldinfo:
            raise Broken('no storage for message %s' % m)
        items.append((lib, 'write', ctx.fn(lib, 'Noise_%s_write' % m), m, fields, None, None))
        items.append((lib, 'read', ctx.fn(lib, 'Noise_%s_read' % m), m, fields, None, None))
        for fd in fields:
            for op in ops(fd):
                items.append((lib, 'acc', ctx.fn(lib, 'Noise_%s_%s_%s' % (m, op, fd[0])), m, fields, op, fd))
    ctx.pmap(job, items)
    # calls from outside the generated code
    gen = {i[2].module for i in items}
    for f in lib.prog.functions():
        if f.module in gen:
            continue
        for b in f.order:
            for i in b.insts:
                if i.op == 'call' and i.a[0][0] == 'g' and re.fullmatch(r'Noise_\w+_(read|write)', i.a[0][1]):
                    ctx.count('toplevel')
                    ctx.count('obligations')
                    msg = re.fullmatch(r'Noise_(\w+)_(read|write)', i.a[0][1]).group(1)
                    t = i.a[1][1][1]
                    tags = {0} | {n for fs in sc.values() for _, ty, n, _ in fs if ty == msg}
                    if not (t[0] == 'c' and t[1] in tags):
                        ctx.violation('top-level', f.name, i, '%s uses %s with a tag that does not enclose it in the schema' % (f.name, i.a[0][1]))
