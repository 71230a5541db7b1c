"""P21: Earth orientation parameters: what the IERS file says, day by day; failures reported and nothing kept of them."""
import core, fmt, ident, llir
from alg import *
import poly as PL
from p20 import TextFiles, name_arg, limited
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR on virtual IERS files with a symbolic instant within sampled days; open, allocation and read faults and call histories enumerated'
RULE = ('each parameter must be the cubic through the values of the four days around the instant, in radians and seconds, leap seconds removed; outside the data the bit of the parameter is set and its value is 0 (Delta T: the default model); '
        'a file that is missing, malformed, too short or too big for memory is reported by its code and leaves no data, no open file and no memory behind.')
MJD0 = 41684
KB = [K(i if i < 128 else i - 256) for i in range(256)]
class Files(TextFiles):
    def __init__(self, r, texts, fault=None):
        TextFiles.__init__(self, r, {}, fault); self.texts = texts
        for n, t in texts.items(): self.files[n] = r.arr([], size=len(t), name=n)
    def fgets(self, I, st, a, ins, m):
        f = self.f(a[2], 'fgets'); t = self.texts[f[2]]; n = a[1].c; p = f[1]
        if n is None: raise Imprecise('length of a line not known')
        if self.hit('fread') or p >= len(t): return st, NULL
        e = t.find(b'\n', p, p + int(n) - 1); e = e + 1 if e >= 0 else min(len(t), p + int(n) - 1)
        s = t[p:e] + b'\0'; o = st.wobj(a[0].obj); b = int(a[0].off.c)
        if o.size is not None and b + len(s) > o.size: raise BadAccess('fgets writes %d bytes into %s (%s bytes)' % (len(s), o.name, o.size))
        I.kill(o, b, len(s))
        for i, c in enumerate(s): o.cells[b + i] = (1, KB[c])
        f[1] = e; return st, a[0]
PREC = dict(dX=6, dY=6, dt=7, dPsi=3, dEps=3)
class Eop:
    """a made-up file; the numbers are those written in its lines"""
    def __init__(self, total=16420, usable=16400, nut=16390, final=16380, mjd0=MJD0, leaps0=12, seed=0):
        self.total, self.usable, self.nut, self.final, self.mjd0, self.base = total, usable, nut, final, mjd0, Fr('32.184') + leaps0
        import random; R = random.Random(seed); out = []; leaps = 0; self.v = []; self.leap = []
        for i in range(total):
            if i >= usable: out.append('%2d%2d%2d %8.2f ' % (i // 365 % 100, i // 30 % 12 + 1, i % 28 + 1, mjd0 + i) + ' ' * 170 + ' \n'); continue
            x = R.randint(-150000, 250000); y = R.randint(50000, 500000); p = R.randint(-90000, 30000); e = R.randint(-12000, 5000)
            d = max(i - 3000, 0) * 8000 - min(i, 3000) * 9000 + R.randint(-20000, 20000)     # Delta T - base, in 1e-7 s: negative leap seconds, then positive ones
            while d - leaps * 10**7 > 5500000: leaps += 1; self.leap.append(i)
            while d - leaps * 10**7 < -8000000: leaps -= 1; self.leap.append(i)
            u = leaps * 10**7 - d
            self.v.append((Fr(x, 10**6), Fr(y, 10**6), self.base + Fr(d, 10**7), Fr(p, 10**3), Fr(e, 10**3)))
            l = '%2d%2d%2d %8.2f %c %9.6f %8.6f %9.6f %8.6f  %c%10.7f %9.7f %7.4f %6.4f  ' % (i // 365 % 100, i // 30 % 12 + 1, i % 28 + 1, mjd0 + i, 'I' if i < final else 'P', x / 1e6, .000123, y / 1e6, .000456, 'I' if i < final else 'P', u / 1e7, .0000123, 1.2345, .0123)
            l = l.ljust(95)
            if i < nut: l += '%c %9.3f %8.3f %9.3f %8.3f' % ('I' if i < final else 'P', p / 1e3, .234, e / 1e3, .345)
            l = l.ljust(134)
            if i < final - 40: l += '%10.6f%10.6f%11.7f%10.3f%10.3f' % (x / 1e6 + .1, y / 1e6 + .1, u / 1e7 + .2, p / 1e3 + 5, e / 1e3 + 5)
            out.append(l.ljust(187) + '\n'); assert len(out[-1]) == 188, len(out[-1])
        for i in range(usable, total): out[i] = out[i].rstrip('\n').ljust(187)[:187] + '\n'
        self.text = ''.join(out).encode()
    def want(self, i, x, k):
        """cubic through days i and i+1 with the mean slopes of their neighbours, x days after day i"""
        sc = lambda v: K(v).scale(Fr(PL.math.pi) / (180 * 3600)) if k < 2 else K(v) if k == 2 else K(v).scale(Fr(PL.math.pi) / (180 * 3600000))
        y = [self.v[i + j][k] for j in (-1, 0, 1, 2)]
        h00, h10, h01, h11 = (x * x * x).scale(2) - (x * x).scale(3) + K(1), x * x * x - (x * x).scale(2) + x, (x * x).scale(3) - (x * x * x).scale(2), x * x * x - x * x
        v = h00.scale(y[1]) + h01.scale(y[2]) + h10.scale((y[2] - y[0]) / 2) + h11.scale((y[3] - y[1]) / 2)
        return v * sc(Fr(1))
NAMES = ['dX', 'dY', 'tdt_minus_ut1', 'dPsi', 'dEps']; DEF = S('default delta t', 20, 90)
def run(rep):
    fmt.install(); P = core.units(['eop_prec.cpp', 'spline.cpp']); PL.EXPAND_TRIG[0] = False
    L, G_ = core.need(P, 'load_earth_orientation_params'), core.need(P, 'get_earth_orientation_params'); lay = core.layout(['watdefs.h', 'afuncs.h'], *NAMES)
    defs = dict(NOT=-1, FMT=-2, MEM=-3)
    A = Eop()
    def mk(texts, fault=None):
        r = Run(P); r.I.exact = True; r.I.fuel = 10**9; r.V = Files(r, texts, fault); r.utc = []; r.dflt = []; r.base = A.base
        def utc(I, st, a, ins, m): r.utc.append(a[0]); return st, K(r.base)
        def df(I, st, a, ins, m): r.dflt.append(a[0]); return st, DEF
        r.I.hooks.update(td_minus_utc=utc, default_td_minus_ut=df, _Z19default_td_minus_utd=df); return r
    def load(r, name, date=True):
        p = r.arr([], size=4, name='file date') if date else NULL
        v = limited(lambda: r.call(L, name_arg(r, name) if name else NULL, p), 300); rep.note_funcs(r.I)
        return v, r.get1(p, llir.I32) if date else None
    def info(r):
        p = r.arr([], size=12, name='dates'); v = r.call(L, NULL, p); return v, [r.out(Ptr(p.obj, K(4 * i)), llir.I32) for i in range(3)]
    def query(r, jd, mask):
        p = r.arr([], size=lay[''][0], name='parameters'); n = len(r.dflt); v = limited(lambda: r.call(G_, jd, p, K(mask)), 60); rep.note_funcs(r.I)
        return v, [r.out(Ptr(p.obj, K(lay[x][0])), D) for x in NAMES], r.dflt[n:]
    def one(r, G, key, E, jd, mask, day, x):
        """day: None (no data at all) or the day number of the instant; x: the fraction"""
        with guard(rep, G, key, where(G_)):
            v, g, df = query(r, jd, mask); w = 0
            for k in range(5):
                have = False
                if day is not None and mask >> k & 1:
                    have = 1 <= day <= (E.usable if k < 3 else E.nut) - 3
                    if not have: w |= 1 << k
                if have: want = E.want(day, x, k)
                elif k == 2 and mask & 4: want = DEF
                else: want = ZERO
                ok, why = ident.same(g[k], want, ntol=1e-12); rep.add(G, ok, '%s: %s' % (key, NAMES[k]), '%s; value %s; required %s' % (why, str(g[k])[:100], str(want)[:100]), where(G_))
            if day is None: w = -1
            rep.add(G, v.c == w if v.c is not None else None, key + ': return value', 'returns %s instead of %s' % (v, w), where(G_))
            if df: ok, why = ident.same(df[-1], jd); rep.add(G, ok, key + ': instant given to the default model', why, where(G_))
    def clean(r, G, key, keep=()):
        rep.add(G, not r.V.open, key + ': nothing left open', '; '.join(r.V.leaks()), where(L))
    def after(r, G, key):
        rep.add(G, not r.V.leaks(), key + ': nothing left open or allocated', '; '.join(r.V.leaks()), where(L))
        one(r, G, key + ', then a query', A, K(Fr('2451545.25')), 31, None, ZERO)
        with guard(rep, G, key, where(L)):
            v, d = info(r); rep.add(G, v.c == -1 and all(x.c == 0 for x in d), key + ': no data according to the library', '%s %s' % (v, [str(x) for x in d]), where(L))
    # ---- values
    G = 'values of the file'
    for nm, E in (('file', A), ('another file', Eop(17003, 16950, 16800, 16700, 45001, 20, 7))) if rep.tier != 'quick' else (('file', A),):
        with guard(rep, G, nm, where(L)):
            r = mk({'finals.all': E.text, 'empty': b'', 'short': E.text[:188 * 40], 'text': b'some other text\n' * 20}); r.base = E.base; v, d = load(r, 'finals.all')
            rep.add(G, v.c == E.mjd0 + E.usable - 1, nm + ': last day of the data', 'returns %s instead of %d' % (v, E.mjd0 + E.usable - 1), where(L))
            rep.add(G, d.c == E.mjd0 + E.final - 1, nm + ': last day that is not a prediction', '%s instead of %d' % (d, E.mjd0 + E.final - 1), where(L))
            rep.add(G, len(r.utc) >= 1 and all(x.c is not None and E.mjd0 + Fr('2400000.5') <= x.c < E.mjd0 + Fr('2400001.5') for x in r.utc), nm + ': TD-UTC taken on the first day', str(r.utc), where(L))
            clean(r, G, nm)
            v, dd = info(r); w = [E.mjd0, E.mjd0 + E.usable, E.mjd0 + E.nut]; rep.add(G, v.c == 0 and [x.c for x in dd] == w, nm + ': span of the data', '%s %s instead of %s' % (v, [str(x) for x in dd], w), where(L))
            base = r.st; jd0 = K(Fr('2400000.5') + E.mjd0)
            import random; R = random.Random(5)
            leap = [i - 1 for i in E.leap] + [i + 1 for i in E.leap]
            days = sorted({1, 2, 3, E.nut - 4, E.nut - 3, E.nut - 2, E.nut - 1, E.usable - 4, E.usable - 3, E.usable - 2, E.usable - 1, E.usable, E.usable + 5, E.total - 1, 0, -1, -2, -5000, E.usable + 4000, E.final - 1, E.final} | set(leap) | {R.randint(4, E.nut - 5) for _ in range(60 if rep.tier == 'quick' else 400)})
            for i in days:
                x = S('part of the day', Fr(1, 1000), Fr(999, 1000))
                for mask in ((31, 1, 2, 4, 8, 16, 24, 7) if i in (2, E.nut - 2, E.usable - 2, 0, E.usable + 5) else (31,)):
                    r.st = base.copy(); one(r, G, '%s, day %d, parameters %d' % (nm, i, mask), E, jd0 + K(i) + x, mask, i, x)
                r.st = base.copy(); one(r, G, '%s, day %d at 0h' % (nm, i), E, jd0 + K(i), 31, i, ZERO)
            r.st = base.copy(); one(r, G, nm + ', no parameter asked for', E, jd0 + K(5), 0, 5, ZERO)
            # histories on the loaded state
            H = 'call histories'
            r.st = base.copy(); v, _ = load(r, None, False); rep.add(H, v.c == 0, 'unloading', 'returns %s' % v, where(L)); after(r, H, 'unloading')
            v, _ = load(r, None, False); rep.add(H, v.c == 0, 'unloading twice', 'returns %s' % v, where(L)); after(r, H, 'unloading twice')
            for bad in ('missing', 'empty', 'short', 'text'):
                r.st = base.copy(); r.V.heap = {o.id: 'data' for o in base.mem.values() if getattr(o, 'name', '').startswith('allocated block')}
                v, _ = load(r, bad); w = {'missing': -1, 'empty': -1, 'short': -2, 'text': -2}[bad]
                rep.add(H, v.c == w, 'a good file, then %s' % bad, 'returns %s instead of %s' % (v, w), where(L)); after(r, H, 'a good file, then %s' % bad)
    # ---- failures
    G = 'failures'
    good = A.text; l0 = A.text[:188]
    def edit(i, c): return l0[:i] + c + l0[i + 1:] + A.text[188:188 * 30]
    cases = [('missing file', {}, None, -1), ('file that cannot be opened', {'f': good}, ('fopen', 1), -1), ('empty file', {'f': b''}, None, -1), ('allocation fails', {'f': good}, ('malloc', 1), -3), ('unreadable file', {'f': good}, ('fread', 1), -1), ('one line only', {'f': l0}, None, -2), ('one line without its end', {'f': l0[:-1]}, None, -2)]
    cases += [('first line: character %d is %s' % (i, c.decode()), {'f': edit(i, c)}, None, -2) for i, c in ((12, b','), (27, b'1'), (20, b','), (13, b'5'), (14, b'5'), (16, b'P'), (16, b' '))]
    cases += [('first line longer', {'f': l0[:-1] + b' \n' + A.text[188:188 * 30]}, None, -2), ('first line shorter', {'f': l0[:-2] + b'\n' + A.text[188:188 * 30]}, None, -2), ('40 days', {'f': A.text[:188 * 40]}, None, -2), ('40 days, then predictions without values', {'f': A.text[:188 * 40] + A.text[-188 * 10:]}, None, -2), ('reading fails after 20 lines', {'f': good}, ('fread', 21), -2)]
    for nm, texts, fault, w in cases:
        with guard(rep, G, nm, where(L)):
            r = mk(texts, fault); v, _ = load(r, 'f'); rep.add(G, v.c == w if v.c is not None else None, nm + ': reported', 'returns %s instead of %d' % (v, w), where(L)); after(r, G, nm)
    G = 'ends of the data'
    for nm, E, text in (('no line without values at the end', Eop(16390, 16390, 16390, 16385), None), ('16371 days', Eop(16380, 16371, 16371, 16371), None), ('16370 days', Eop(16380, 16370, 16370, 16370), 0)) if rep.tier != 'quick' else (('no line without values at the end', Eop(16372, 16372, 16372, 16371), None),):
        with guard(rep, G, nm, where(L)):
            r = mk({'f': E.text}); r.base = E.base; v, d = load(r, 'f'); w = E.mjd0 + E.usable - 1 if text is None else -2
            rep.add(G, v.c == w, nm + ': return value', 'returns %s instead of %d' % (v, w), where(L)); clean(r, G, nm)
            if text is None:
                for i in (1, E.usable - 3, E.usable - 2): one(r, G, '%s, day %d' % (nm, i), E, K(Fr('2400000.5') + E.mjd0 + i), 31, i, ZERO)
            else: after(r, G, nm)
    rep.minimum = 150
