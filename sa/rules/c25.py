"""C25: saving and loading files tells the truth about I/O."""
from ..absint import *
from .. import models as M
from ..libmodels import gf
from .c19 import region
from ..run import Result, engine_result, V, Broken

RULES = [
    'closed: a file that was opened is closed exactly once on every path and never used after that; a failed open leads to an error',
    'saved: success after opening a file for writing implies that all bytes of the encoded object, and nothing else, were handed to the file in order, that each write reported that many bytes, and that the close reported no error',
    'loaded: success after opening a file for reading implies that the error state of the file was tested after the last read and was clear, that the end of the file was reached (its length, measured from the end, was read from the start, or the end was met), and that exactly the bytes read are parsed',
]
EXPLANATION = 'every path of every key-file function that opens a file, with its file-local helpers, and every outcome of every I/O call'
MIN = {'functions': 6, 'opens': 6, 'obligations': 20, 'success_paths': 6}
ASSUMPTIONS = ['the C library reports errors of the file as its interface says', 'the object is not modified while it is being written']
FILEFNS = {'fclose': 0, 'fread': 3, 'fwrite': 3, 'fgetc': 0, 'getc': 0, 'feof': 0, 'ferror': 0, 'fseek': 0, 'ftell': 0, 'fseeko': 0, 'ftello': 0, 'rewind': 0,
           'fflush': 0, 'fileno': 0, 'fputc': 1, 'fputs': 1, 'putc': 1, 'setvbuf': 0, 'clearerr': 0, 'fprintf': 0}
OPENERS = ('fopen', 'fdopen', 'freopen', 'open', 'creat', 'mmap', 'tmpfile', 'stat', 'fstat')


AT, TOTAL, ASKED, GOT, ERR, END, TELL = [8 * i for i in range(7)]


class Client:
    """st.g['f']: one (handle, mode, open?, ghost block) per opened file.  The running quantities live in the ghost block (a region of
    analysis memory), so that loops relate them to the program's own variables; st.g[(handle, x)] holds what kind of value is there"""

    def __init__(self):
        self.ob = self.opens = self.wins = 0

    def setup(self, eng, st, args):
        return st

    def file(self, st, p):
        b = self.eng.base(self.eng.norm(st, p))[0]
        for i, f in enumerate(st.g.get('f', ())):
            if f[0] == b:
                return i, f
        return None, None

    def text(self, st, p):
        b, off = self.eng.base(self.eng.norm(st, p))
        try:
            return bytes(self.eng.syms[b].extra.image[off[0]:off[0] + 3]).split(b'\0')[0].decode()
        except Exception:
            return '?'

    def get(self, st, f, k, ptr=False):
        return self.eng.load_cell(st, f[3], K(k), 8, ptr, 64, None)

    def put(self, st, f, k, v):
        self.eng.store_cell(st, f[3], K(k), 8, v)

    def on_call(self, st, c):
        eng = self.eng
        if c.name in FILEFNS and c.args:
            i, f = self.file(st, c.args[FILEFNS[c.name]])
            self.ob += 1
            if f is None:
                return eng.report(st, 'closed', c.fn, c.inst, '%s is given something that is not an open file' % c.name)
            if not f[2]:
                eng.report(st, 'closed', c.fn, c.inst, '%s is used on a file that is closed' % c.name)

    def asked(self, st, c):
        """(bytes asked for, bytes per item of the result)"""
        eng = self.eng
        a, b = eng.norm(st, c.args[1]), eng.norm(st, c.args[2])
        return (b, 1) if a == ONE else (a, a) if b == ONE else (None, None)

    def on_call_done(self, st, c, ret):
        eng = self.eng
        n = c.name
        if n in OPENERS:
            self.opens += 1
            if n != 'fopen':
                raise Broken('%s opens a file with %s, which the rule does not know' % (c.fn.name, n))
            if isinstance(ret, tuple) and ret != ZERO:
                y = region(eng, st, 'file', [], const=False)[1][0][0]
                for k in range(0, 56, 8):
                    eng.store_cell(st, y, K(k), 8, ZERO)
                st.g['f'] = st.g.get('f', ()) + ((eng.base(ret)[0], self.text(st, c.args[1])[:1], True, y),)
            else:
                st.g['openfail'] = True
            return None
        if n in FILEFNS:
            i, f = self.file(st, c.args[FILEFNS[n]])
            if f is None:
                return None
        h = lambda x: 'f%d:%s' % (f[0], x)
        g = st.g
        if n == 'fclose':
            t = list(g['f'])
            t[i] = (f[0], f[1], False, f[3])
            g['f'] = tuple(t)
            self.put(st, f, ERR, ret)
            g[h('closed')] = True
        elif n in ('fwrite', 'fread'):
            want, unit = self.asked(st, c)
            p = eng.norm(st, c.args[0])
            if n == 'fwrite':
                base = g['enc'][1] if 'enc' in g else None
            else:
                if not g.get(h('base')):
                    g[h('base')] = p
                base = g[h('base')]
            total = self.get(st, f, TOTAL)
            if want is None or base is None or not eng.prove_eq(st, p, ladd(base, total)):
                eng.report(st, 'saved' if n == 'fwrite' else 'loaded', c.fn, c.inst, 'bytes other than the next ones of the encoded object are written'
                           if n == 'fwrite' else 'a part of the file is stored in the wrong place')
            if want is None:
                g[h('wrong')] = 'an unknown amount is moved'
                return None
            if unit == 1:
                got = ret
            else:                       # one item of the whole size: all or nothing known
                out = []
                for s, one in eng.split(st, Pred('eq', lsub(ret, ONE))):
                    s.g = dict(s.g)
                    if not one:
                        s.g[h('wrong')] = 'a %s of unknown length happened' % ('write' if n == 'fwrite' else 'read')
                    self.put(s, f, TOTAL, ladd(total, want))
                    self.put(s, f, ASKED, want)
                    self.put(s, f, GOT, want)
                    s.g.pop(h('noerror'), None)
                    s.g.pop(h('end'), None)
                    s.g[h('moved')] = True
                    out.append((s, ret))
                return out
            self.put(st, f, TOTAL, ladd(total, got))
            self.put(st, f, ASKED, want)
            self.put(st, f, GOT, got)
            g.pop(h('noerror'), None)
            g.pop(h('end'), None)
            if g.get(h('moved')):
                g[h('parts')] = True
            g[h('moved')] = True
        elif n == 'ferror':
            out = []
            for s, clear in eng.split(st, Pred('eq', ret)):
                s.g = dict(s.g)
                s.g[h('noerror')] = clear
                out.append((s, ret))
            return out
        elif n in ('fgetc', 'getc', 'feof'):
            self.put(st, f, END, ret)
            g[h('end')] = n
            if n != 'feof':
                g.pop(h('noerror'), None)
        elif n in ('ftell', 'ftello'):
            if g.get(h('atend')) and not g.get(h('moved')):
                self.put(st, f, TELL, ret)
                g[h('tell')] = True
        elif n in ('fputc', 'fputs', 'putc', 'fprintf'):
            g[h('wrong')] = 'bytes other than the next ones of the encoded object are written'
        elif n in ('fseek', 'fseeko', 'rewind'):
            o, w = (ZERO, ZERO) if n == 'rewind' else (eng.norm(st, c.args[1]), eng.norm(st, c.args[2]))
            if f[1] == 'w' or g.get(h('moved')):
                g[h('wrong')] = 'the position of the file is changed after bytes were moved'
                return None
            out = []
            for s, good in eng.split(st, Pred('ge', ret)) if n != 'rewind' else ((st, True),):
                s.g = dict(s.g)
                if good:
                    s.g[h('atend')] = w == K(2) and o == ZERO
                    s.g[h('away')] = not (w == ZERO and o == ZERO)
                out.append((s, ret))
            return out
        elif n.startswith('noise_protobuf_finish_output') and ret == ZERO:
            v = [eng.load_cell(st, *eng.base(eng.norm(st, c.args[k])), 8, k == 1, 64, None) for k in (1, 2)]
            g['enc'] = ('fixed', v[0], v[1])
        elif n == 'noise_save_private_key_to_buffer' or n.startswith('Noise_') and n.endswith('_write'):
            d, s, p = [gf(eng, st, c.args[1 if n[0] == 'n' else 0], 'NoiseProtobuf', x) for x in ('data', 'size', 'posn')]
            g['enc'] = ('fixed', ladd(d, p), lsub(s, p))
        elif n.startswith('noise_protobuf_prepare_input') or n.endswith('_from_buffer') or n.startswith('Noise_') and n.endswith('_read'):
            if n.startswith('noise_protobuf'):
                d, s = c.args[1], c.args[2]
            else:
                d, s = [gf(eng, st, c.args[0 if n.endswith('_read') else 1], 'NoiseProtobuf', x) for x in ('data', 'size')]
            if 'parsed' not in g:
                g['parsed'] = (eng.norm(st, d), eng.norm(st, s))
        return None

    def on_return(self, st, v, fn):
        eng = self.eng
        fs = st.g.get('f', ())
        for f in fs:
            self.ob += 1
            if f[2]:
                eng.report(st, 'closed', fn, None, 'a file that was opened is not closed')
        if not isinstance(v, tuple):
            return
        for s, ok in eng.split(st, Pred('eq', v)):
            if not ok:
                continue
            if s.g.get('openfail'):
                self.ob += 1
                eng.report(s, 'closed', fn, None, 'success although the file could not be opened')
            for f in fs:
                self.ob += 1
                self.wins += 1
                m = self.saved(s, f) if f[1] == 'w' else self.loaded(s, f) if f[1] == 'r' else 'a file is opened in a mode other than plain reading or writing'
                if m:
                    eng.report(s, 'saved' if f[1] == 'w' else 'loaded', fn, None, m)

    def saved(self, st, f):
        eng, g = self.eng, st.g
        if g.get('f%d:wrong' % f[0]):
            return g['f%d:wrong' % f[0]]
        if 'enc' not in g:
            return 'success without an encoded object'
        if not eng.prove_eq(st, self.get(st, f, TOTAL), g['enc'][2]):
            return 'success although not all bytes of the encoded object are known to be written'
        if not g.get('f%d:closed' % f[0]) or not eng.prove_eq(st, self.get(st, f, ERR)):
            return 'success although closing the file may have failed'

    def loaded(self, st, f):
        eng, g = self.eng, st.g
        h = lambda x: g.get('f%d:%s' % (f[0], x))
        if h('wrong'):
            return h('wrong')
        if not h('moved'):
            return 'success without reading the file'
        if h('away'):
            return 'the file may not be read from its start'
        # the test of the error state comes after the last read; its cell is shared with the result of fclose
        if h('noerror') is not True:
            return 'success although reading may have failed'
        total = self.get(st, f, TOTAL)
        done = eng.prove_ge(st, lsub(self.get(st, f, ASKED), ladd(self.get(st, f, GOT), ONE)))
        e = self.get(st, f, END)
        if h('end') in ('fgetc', 'getc') and eng.prove_eq(st, e, K(-1)) or h('end') == 'feof' and eng.decide(st, Pred('eq', e)) is False:
            done = True
        if h('tell') and not h('parts') and eng.prove_eq(st, self.get(st, f, ASKED), self.get(st, f, TELL)):
            done = True
        if h('tell') and eng.prove_eq(st, total, self.get(st, f, TELL)):
            done = True
        if not done:
            return 'success although the file may be longer than what was read'
        ps = g.get('parsed')
        if ps is None:
            return 'success although nothing is parsed'
        if not eng.prove_eq(st, ps[0], h('base')) or not eng.prove_eq(st, ps[1], total):
            return 'the bytes parsed are not exactly the bytes read'


def opens(lib, f):
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g.name in seen:
            continue
        seen.add(g.name)
        g.analyze()
        for b in g.order:
            for i in b.insts:
                if i.op == 'call' and i.a[0][0] == 'g':
                    if i.a[0][1] in OPENERS:
                        return True
                    t = lib.prog.resolve(g.module, i.a[0][1])
                    if t is not None:
                        todo.append(t)
    return False


def job(item):
    lib, f = item
    cl = Client()
    e = lib.engine([cl], inline=[f.name])
    for n in FILEFNS:
        if n not in ('fread', 'fwrite', 'rewind'):
            e.models[n] = lambda en, s, c: [(s, en.retval(c))]
    e.merge_limit = 400
    e.run(f, cl.setup)
    r = engine_result(e, lambda rep: f.name, lib.prog.config)
    for k, v in (('obligations', cl.ob), ('opens', cl.opens), ('success_paths', cl.wins), ('functions', 1)):
        r.count(k, v)
    return r


def check(ctx):
    lib = ctx.lib('ref')
    fns = [f for f in lib.prog.functions() if not f.internal and '/keys/' in '/' + (f.module.loc(f.dbg)[0] if f.dbg else f.module.name) and opens(lib, f)]
    names = {f.name for f in fns}
    for n in ('noise_load_certificate_from_file', 'noise_load_certificate_chain_from_file', 'noise_load_private_key_from_file',
              'noise_save_certificate_to_file', 'noise_save_certificate_chain_to_file', 'noise_save_private_key_to_file'):
        if n not in names:
            raise Broken('anchor vanished: %s no longer opens a file' % n)
    ctx.pmap(job, [(lib, f) for f in fns])
