"""A virtual file system for the abstract interpreter: fopen/fseek/fread/fclose/malloc/free as operations on symbolic file contents, with fault points."""
from alg import *
import libmodel, absint
OK = 'ok'
class VFiles:
    """hooks for one Run. files: {name: Ptr to the contents (object of known size)}; fault=('fopen'|'fread'|'malloc', n): the n-th such call fails"""
    part = 0
    def __init__(self, r, files, fault=None):
        self.r, self.files, self.fault = r, files, fault
        self.count = dict(fopen=0, fread=0, malloc=0); self.open = {}; self.heap = {}; self.bad = []; self.reads = []
        H = r.I.hooks
        H.update(fopen=self.fopen, fclose=self.fclose, fseek=self.fseek, fread=self.fread, malloc=self.malloc, calloc=self.calloc, free=self.free, ftell=self.ftell, rewind=self.rewind)
    def hit(self, what):
        self.count[what] += 1
        return self.fault == (what, self.count[what])
    def handle(self, name):
        """a FILE * already open"""
        o = self.r.I.new_obj(self.r.st, None, 'arg', 'FILE ' + name); self.open[o.id] = [self.files[name], 0, name]; return Ptr(o.id, ZERO)
    def text(self, I, st, p):
        s = b''; o = p.off.c
        while True:
            c = I.load(st, Ptr(p.obj, K(o)), llir.I8, None, self.r.m)
            if c.c is None: raise Imprecise('file name not known')
            if c.c == 0: return s.decode('latin1')
            s += bytes([int(c.c) & 255]); o += 1
    def fopen(self, I, st, a, ins, m):
        name = self.text(I, st, a[0]).split('/')[-1]
        if self.hit('fopen') or name not in self.files: return st, NULL
        o = I.new_obj(st, None, 'heap', 'FILE ' + name); self.open[o.id] = [self.files[name], 0, name]
        return st, Ptr(o.id, ZERO)
    def f(self, p, what):
        if not isinstance(p, Ptr) or p.obj is None: self.bad.append(what + ' of a null file'); raise BadAccess(what + ' of a null file')
        if p.obj not in self.open: raise BadAccess(what + ' of a file that is not open')
        return self.open[p.obj]
    def fclose(self, I, st, a, ins, m):
        self.f(a[0], 'fclose'); del self.open[a[0].obj]; return st, ZERO
    def fseek(self, I, st, a, ins, m):
        f = self.f(a[0], 'fseek'); o, w = a[1].c, a[2].c
        if o is None or w is None: raise Imprecise('file position not known')
        size = st.mem[f[0].obj].size
        pos = o + (0 if w == 0 else f[1] if w == 1 else size)
        if pos < 0: return st, K(-1)
        f[1] = int(pos); return st, ZERO
    def ftell(self, I, st, a, ins, m): return st, K(self.f(a[0], 'ftell')[1])
    def rewind(self, I, st, a, ins, m): self.f(a[0], 'rewind')[1] = 0; return st, ZERO
    def fread(self, I, st, a, ins, m):
        f = self.f(a[3], 'fread'); sz, n = a[1].c, a[2].c
        if sz is None or n is None: raise Imprecise('length read not known')
        sz, n = int(sz), int(n)
        size = st.mem[f[0].obj].size
        k = max(0, min(sz * n, size - f[1]))
        if self.hit('fread'): k = int(k * self.part)        # only a part of what was asked for is there
        self.reads.append((f[1], k, a[0]))
        if k:
            dst = st.mem.get(a[0].obj)
            if dst is None or a[0].off.c is None: raise Imprecise('buffer read into not known')
            if dst.size is not None and (a[0].off.c < 0 or a[0].off.c + k > dst.size): raise BadAccess('fread writes %d bytes at offset %s of %s (%s bytes)' % (k, a[0].off, dst.name, dst.size))
            st, _ = libmodel.m_memcpy(I, st, [a[0], Ptr(f[0].obj, f[0].off + K(f[1])), K(k)], ins, m)
            f[1] += k
        return st, K(k // sz if sz else 0)
    def alloc(self, I, st, n, base):
        if n is None: raise Imprecise('size allocated not known')
        if self.hit('malloc'): return st, NULL
        o = I.new_obj(st, int(n), 'heap', 'allocated block %d' % self.count['malloc'], base); self.heap[o.id] = o.name
        return st, Ptr(o.id, ZERO)
    def malloc(self, I, st, a, ins, m): return self.alloc(I, st, a[0].c, 'undef')
    def calloc(self, I, st, a, ins, m): return self.alloc(I, st, None if a[0].c is None or a[1].c is None else a[0].c * a[1].c, 'zero')
    def free(self, I, st, a, ins, m):
        p = a[0]
        if isinstance(p, Ptr) and p.obj is None: return st, ZERO
        if not isinstance(p, Ptr): raise Imprecise('block freed not known')
        if p.obj not in self.heap or p.off.c != 0: raise BadAccess('free of something that is not an allocated block')
        del self.heap[p.obj]; o = st.wobj(p.obj); o.freed = True; o.size = 0; o.cells = {}
        return st, ZERO
    def leaks(self, keep=()):
        return ['file %s left open' % v[2] for k, v in self.open.items() if k not in keep] + ['%s never freed' % v for k, v in self.heap.items() if k not in keep]
