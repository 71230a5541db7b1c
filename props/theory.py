"""Published theories used as oracles by P18 (each line of a table: coefficient, argument).

E5: Galilean satellites, J. Lieske's E5 as printed in Meeus, Astronomical Algorithms (2nd ed.), ch. 44.
Earth: VSOP87 (J2000 ecliptic), truncated as in Meeus appendix III.
Dourneau: satellites of Saturn.  Triton: Explanatory Supplement, p. 373."""
from fractions import Fraction as Fr
from poly import Poly, K, ONE, ZERO, PI_A, sincos
PIp = Poly.var(PI_A); RAD = PIp.scale(Fr(1, 180))
def num(s): return Fr(s)
def deg(*c):
    """polynomial in degrees (decimal strings) -> function of a Poly, in radians"""
    def f(t):
        v = ZERO
        for x in reversed(c): v = v * t + K(Fr(x))
        return v * RAD
    return f
def table(text, env, fn):
    """sum of coef * fn(arg) over the lines of a table"""
    v = ZERO
    for ln in text.strip().splitlines():
        c, a = ln.split(None, 1)
        v = v + (fn(eval(a, {}, env))).scale(Fr(c))
    return v
sin = lambda p: sincos(p)[0]
cos = lambda p: sincos(p)[1]

E5 = {
 1: ('''47259 2*l1-2*l2
-3478 p3-p4
1081 l2-2*l3+p3
738 ph
713 l2-2*l3+p2
-674 p1+p3-2*P-2*G
666 l2-2*l3+p4
445 l1-p3
-354 l1-l2
-317 2*psi-2*P
265 l1-p4
-186 G
162 p2-p3
158 4*l1-4*l2
-155 l1-l3''',
 '''6393 L-o1
1825 L-o2
329 L-o3
-311 L-psi
93 L-o4''',
 '''-41339 2*l1-2*l2
-387 l1-p3
-214 l1-p4
170 l1-l2
-131 4*l1-4*l2
106 l1-l3'''),
 2: ('''106476 2*l2-2*l3
4256 l1-2*l2+p3
3581 l2-p3
2395 l1-2*l2+p4
1984 l2-p4
-1778 ph
1654 l2-p2
1334 l2-2*l3+p2
1294 p3-p4
-1142 l2-l3
-1057 G
-775 2*psi-2*P
524 2*l1-2*l2
-460 l1-l3
316 psi+o3-2*P-2*G
-203 p1+p3-2*P-2*G
146 psi-o3
-145 2*G
125 psi-o4
-115 l1-2*l3+p3
-94 2*l2-2*o2''',
 '''81004 L-o2
4512 L-o3
-3284 L-psi
1160 L-o4
272 l1-2*l3+1.0146*dl+o2
-144 L-o1
143 L+psi-2*P-2*G''',
 '''93848 l1-l2
-3116 l2-p3
-1744 l2-p4
-1442 l2-p2
553 l2-l3
523 l1-l3
-290 2*l1-2*l2
164 2*l2-2*o2
107 l1-2*l3+p3
-102 l2-p1
-91 2*l1-2*l3'''),
 3: ('''16490 l3-p3
9081 l3-p4
-6907 l2-l3
3784 p3-p4
1846 2*l3-2*l4
-1340 G
-1014 2*psi-2*P
704 l2-2*l3+p3
-620 l2-2*l3+p2
-541 l3-l4
381 l2-2*l3+p4
235 psi-o3
198 psi-o4
176 ph
130 3*l3-3*l4
125 l1-l3
-119 5*Gs-2*G+a5
109 l1-l2
-100 3*l3-7*l4+4*p4
91 o3-o4
80 3*l3-7*l4+p3+3*p4
-75 2*l2-3*l3+p3
72 p1+p3-2*P-2*G
69 p4-P
-58 2*l3-3*l4+p4
-57 l3-2*l4+p4
56 l3+p3-2*P-2*G
-52 l2-2*l3+p1
-50 p2-p3''',
 '''32402 L-o3
-16911 L-psi
6847 L-o4
-2797 L-o2
321 L+psi-2*P-2*G
51 L-psi+G
-45 L-psi-G
-45 L+psi-2*P''',
 '''-14388 l3-p3
-7919 l3-p4
6342 l2-l3
-1761 2*l3-2*l4
294 l3-l4
-156 3*l3-3*l4
156 l1-l3
-153 l1-l2
-70 2*l2-3*l3+p3'''),
 4: ('''84287 l4-p4
3431 p4-p3
-3305 2*psi-2*P
-3211 G
-1862 l4-p3
1186 psi-o4
623 l4+p4-2*G-2*P
387 2*l4-2*p4
-284 5*Gs-2*G+a5
-234 2*psi-2*p4
-223 l3-l4
-208 l4-P
178 psi+o4-2*p4
134 p4-P
125 2*l4-2*G-2*P
-117 2*G
-112 2*l3-2*l4''',
 '''-76579 L-psi
44134 L-o4
-5112 L-o3
773 L+psi-2*P-2*G
104 L-psi+G
-102 L-psi-G
88 L+psi-2*P-3*G
-38 L+psi-2*P-G''',
 '''-73546 l4-p4
1621 l4-p3
974 l3-l4
-543 l4+p4-2*P-2*G
-271 2*l4-2*p4
182 l4-P
177 2*l3-2*l4
-167 2*l4-psi-o4
167 psi-o4
-155 2*l4-2*P-2*G
142 2*l4-2*psi
105 l1-l4
92 l2-l4
-89 l4-P-G
-62 l4+p4-2*P-3*G
48 2*l4-2*o4''')}
E5R = {1: '5.90569', 2: '9.39657', 3: '14.98832', 4: '26.36273'}

def e5_args(jd):
    t = jd - K(Fr('2443000.5'))
    e = {'l1': deg('106.07719', '203.488955790')(t), 'l2': deg('175.73161', '101.374724735')(t), 'l3': deg('120.55883', '50.317609209')(t), 'l4': deg('84.44459', '21.571071177')(t),
         'p1': deg('97.0881', '0.16138586')(t), 'p2': deg('154.8663', '0.04726307')(t), 'p3': deg('188.1840', '0.00712734')(t), 'p4': deg('335.2868', '0.00184000')(t),
         'o1': deg('312.3346', '-0.13279386')(t), 'o2': deg('100.4411', '-0.03263064')(t), 'o3': deg('119.1942', '-0.00717703')(t), 'o4': deg('322.6168', '-0.00175934')(t),
         'ph': deg('199.6766', '0.17379190')(t), 'psi': deg('316.5182', '-0.00000208')(t), 'P': deg('13.469942')(t), 'a5': deg('52.225')(t)}
    gam = sin(deg('163.679', '0.0010512')(t)) * K(Fr('0.33033')) * RAD + sin(deg('34.486', '-0.0161731')(t)) * K(Fr('0.03439')) * RAD
    e['G'] = deg('30.23756', '0.0830925701')(t) + gam
    e['Gs'] = deg('31.97853', '0.0334597339')(t)
    class M(int): pass
    e = {k: Lin(v) for k, v in e.items()}
    return e
class Lin:
    """a Poly that can be multiplied by the numbers written in the tables"""
    def __init__(s, p): s.p = p
    def __rmul__(s, k): return Lin(s.p.scale(Fr(str(k))))
    def __add__(s, o): return Lin(s.p + o.p)
    def __sub__(s, o): return Lin(s.p - o.p)
def tsum(text, env, fn):
    v = ZERO
    for ln in text.strip().splitlines():
        c, a = ln.split(None, 1)
        v = v + fn(eval(a, {}, env).p).scale(Fr(c))
    return v
def e5(jd, sat):
    """ecliptic-of-date rectangular coordinates, Jovian radii; sat 5: the pole of Jupiter's equator"""
    import alg
    env = e5_args(jd); psi = env['psi'].p
    if sat == 5: v = [ZERO, ZERO, ONE]
    else:
        tl, tb, tr = E5[sat]
        l0 = env['l%d' % sat].p
        dl = tsum(tl, env, sin) * RAD.scale(Fr(1, 10**5))
        L = l0 + dl; env['L'] = Lin(L); env['dl'] = Lin(dl)
        tanb = tsum(tb, env, sin).scale(Fr(1, 10**7))
        r = (K(1) + tsum(tr, env, cos).scale(Fr(1, 10**7))).scale(Fr(E5R[sat]))
        s, c = sincos(L - psi)
        ic = alg.inv(alg.sqrt_(K(1) + tanb * tanb))
        v = [r * c * ic, r * s * ic, r * tanb * ic]
    T0 = (jd - K(Fr('2433282.423'))).scale(Fr(1, 36525)); T2 = (jd - K(2451545)).scale(Fr(1, 36525)); T1 = (jd - K(2451545 - 36525)).scale(Fr(1, 36525))
    prec = deg('0', '1.3966626', '0.0003088')(T0)
    I = deg('3.120262', '0.0006')(T1)
    Om = deg('100.464407', '1.0209774', '0.00040315', '4.04e-7')(T2)
    i = deg('1.303267', '-0.0054965', '4.66e-6', '-2e-9')(T2)
    for M in (alg.Rx(I), alg.Rz(psi + prec - Om), alg.Rx(i), alg.Rz(Om)): v = alg.mv(M, v)
    return v

# VSOP87 Earth, J2000 ecliptic: (variable, power of the time in millennia): amplitude/1e8 rad|AU, phase, frequency rad/millennium
VSOP_E = {
 ('L', 0): '''175347046 0.000000000 0.000000000
3341656 4.669256804 6283.075849991
34894 4.626102422 12566.151699983
3497 2.744117834 5753.384884897
3418 2.828865798 3.523118349
3136 3.627670418 77713.771468121
2676 4.418083454 7860.419392439
2343 6.135162144 3930.209696220
1324 0.742463417 11506.769769794
1273 2.037096579 529.690965095
1199 1.109629462 1577.343542448
990 5.232680721 5884.926846583
902 2.045054465 26.298319800
857 3.508491523 398.149003408
780 1.178826820 5223.693919802
753 2.533390528 5507.553238667
505 4.582926000 18849.227549974
492 4.205057118 775.522611324
357 2.919541145 0.067310303
317 5.849019485 11790.629088659
284 1.898692409 796.298006816
271 0.314862554 10977.078804699
243 0.344814459 5486.777843175
206 4.806466315 2544.314419883
205 1.869537703 5573.142801433
202 2.457677902 6069.776754553
156 0.833060846 213.299095438
132 3.411182927 2942.463423292
126 1.082954595 20.775395492
115 0.645449117 0.980321068
103 0.635998456 4694.002954708
102 0.975692803 15720.838784878
102 4.266798020 7.113547001
99 6.209929269 2146.165416475
98 0.681013424 155.420399434
86 5.983226313 161000.685737674
85 1.298707648 6275.962302991
85 3.670800930 71430.695618129
80 1.807912871 17260.154654690
79 3.036974587 12036.460734888
75 1.755089133 5088.628839767
74 3.503194150 3154.687084896
74 4.679266339 801.820931124
70 0.832976214 9437.762934887
62 3.977639128 8827.390269875
61 1.818398930 7084.896781115
57 2.784304586 6286.598968340
56 4.386948654 14143.495242431
56 3.470060599 6279.552731642
52 0.189149472 12139.553509107
52 1.332827399 1748.016413067
51 0.283068329 5856.477659115
49 0.487350142 1194.447010225
41 5.368175929 8429.241266467
41 2.398509387 19651.048481098
39 6.168330210 10447.387839604
37 6.041338632 10213.285546211
37 2.569574818 1059.381930189
36 1.708758088 2352.866153772
36 1.775968892 6812.766815086
33 0.593102786 17789.845619785
30 0.442944642 83996.847318112
30 2.739751241 1349.867409659
25 3.164708917 4690.479836359''',
 ('L', 1): '''628307584999 0.000000000 0.000000000
206059 2.678234558 6283.075849991
4303 2.635122335 12566.151699983
425 1.590469820 3.523118349
119 5.795557656 26.298319800
109 2.966310107 1577.343542448
93 2.592111095 18849.227549974
72 1.138405812 529.690965095
68 1.874533003 398.149003408
67 4.409328320 5507.553238667
59 2.888157906 5223.693919802
56 2.174717400 155.420399434
45 0.397995029 796.298006816
36 0.468754372 775.522611324
29 2.647322546 7.113547001
21 5.341382751 0.980321068
19 1.846283760 5486.777843175
19 4.968551795 213.299095438
17 2.991167606 6275.962302991
16 0.032165873 2544.314419883
16 1.430493013 2146.165416475
15 1.204697937 10977.078804699
12 2.834322821 1748.016413067
12 3.258050820 5088.628839767
12 5.273797604 1194.447010225
12 2.075020801 4694.002954708
11 0.766147230 553.569402842
10 1.302634234 6286.598968340
10 4.239258653 1349.867409659
9 2.699568270 242.728603974
9 5.644760860 951.718406251
8 5.300561729 2352.866153772
6 2.650345140 9437.762934887
6 4.666337263 4690.479836359''',
 ('L', 2): '''8722 1.072536356 6283.075849991
991 3.141592654 0.000000000
295 0.437173503 12566.151699983
27 0.052956361 3.523118349
16 5.188202157 26.298319800
16 3.685047122 155.420399434
9 0.296671147 18849.227549974
9 2.057063196 77713.771468121
7 0.826915410 775.522611324
5 4.662432317 1577.343542448
4 1.030670323 7.113547001
4 3.440433695 5573.142801433
3 5.140212246 796.298006816
3 6.054793185 5507.553238667
3 1.192400085 242.728603974
3 6.117058654 529.690965095
3 0.303632482 398.149003408
3 2.279664343 553.569402842
2 4.376661180 5223.693919802
2 3.754350955 0.980321068''',
 ('L', 3): '''289 5.841731497 6283.075849991
21 6.049839390 12566.151699983
3 5.195605796 155.420399434
3 3.141592654 0.000000000
1 4.721976120 3.523118349
1 5.969048992 242.728603974
1 5.541829032 18849.227549974''',
 ('L', 4): '''8 4.141173214 6283.075849991
1 3.275736442 12566.151699983''',
 ('B', 0): '''280 3.198701560 84334.661581308
102 5.422486193 5507.553238667
80 3.880132045 5223.693919802
44 3.704446898 2352.866153772
32 4.000263698 1577.343542448''',
 ('B', 1): '''227778 3.413766205 6283.075849991
3806 3.370634238 12566.151699983
3620 0.000000000 0.000000000
72 3.327775497 18849.227549974
8 3.891904036 5507.553238667
8 1.794896072 5223.693919802
6 5.197894248 2352.866153772''',
 ('B', 2): '''9721 5.151928099 6283.075849991
233 3.141592654 0.000000000
134 0.644062130 12566.151699983
7 1.073333978 18849.227549974''',
 ('B', 3): '''276 0.594800971 6283.075849991
17 3.141592654 0.000000000
4 0.117505753 12566.151699983''',
 ('B', 4): '''6 2.267340298 6283.075849991
1 0.000000000 0.000000000''',
 ('R', 0): '''100013989 0.000000000 0.000000000
1670700 3.098463503 6283.075849991
13956 3.055246095 12566.151699983
3084 5.198466744 77713.771468121
1628 1.173875581 5753.384884897
1576 2.846852149 7860.419392439
925 5.452922367 11506.769769794
542 4.564091515 3930.209696220
472 3.661000221 5884.926846583
346 0.963686273 5507.553238667
329 5.899836861 5223.693919802
307 0.298671395 5573.142801433
243 4.273495308 11790.629088659
212 5.847144613 1577.343542448
186 5.021997107 10977.078804699
175 3.011936367 18849.227549974
110 5.055106359 5486.777843175
98 0.886813113 6069.776754553
87 5.689564189 15720.838784878
86 1.270791253 161000.685737674
65 0.272513414 17260.154654690
63 0.921770540 529.690965095
57 2.013742922 83996.847318112
56 5.241597992 71430.695618129
49 3.245012404 2544.314419883
47 2.577998532 775.522611324
45 5.537156638 9437.762934887
43 6.011102580 6275.962302991
39 5.360638329 4694.002954708
38 2.392553440 8827.390269875
37 0.829612818 19651.048481098
37 4.901075873 12139.553509107
36 1.674471358 12036.460734888
35 1.842706933 2942.463423292
33 0.243702217 7084.896781115
32 0.183682999 5088.628839767
32 1.777756421 398.149003408
28 1.213448875 6286.598968340
28 1.899344278 6279.552731642
26 4.588968631 10447.387839604''',
 ('R', 1): '''103019 1.107489682 6283.075849991
1721 1.064423004 12566.151699983
702 3.141592654 0.000000000
32 1.021685833 18849.227549974
31 2.843584440 5507.553238667
25 1.319065703 5223.693919802
18 1.424287091 1577.343542448
10 5.913852484 10977.078804699
9 1.420468544 6275.962302991
9 0.271581929 5486.777843175''',
 ('R', 2): '''4359 5.784551338 6283.075849991
124 5.579354280 12566.151699983
12 3.141592654 0.000000000
9 3.627778931 77713.771468121
6 1.869589051 5573.142801433
3 5.470348797 18849.227549974''',
 ('R', 3): '''145 4.273194339 6283.075849991
7 3.917062617 12566.151699983''',
 ('R', 4): '''4 2.563890163 6283.075849991''',
}
def earth(t):
    """heliocentric longitude, latitude (radians), distance (AU); t in millennia from J2000"""
    v = {}
    for q in 'LBR':
        s = ZERO
        for k in range(6):
            for ln in VSOP_E.get((q, k), '').splitlines():
                a, b, c = map(Fr, ln.split())
                s = s + (t ** k * cos(K(b) + t.scale(c))).scale(a / 10**8)
        v[q] = s
    return v['L'], v['B'], v['R']

# ---- G. Dourneau's theory of the satellites of Saturn (degrees; years = 365.25 d), as printed in Meeus ch. 46, with the constants the source uses
# where those are more precise.  sat: epoch (JD-2400000), a in arcsec at 9.538937 AU, lambda0, n (deg/day), N0, N', P0, P' (deg, deg/yr), e, gamma
DOUR = {
 0: ('11093', '26.8180', '127.6400', '381.994497', '54.5', '-365.072', '106.1', '365.549', '0.019050', '1.5630'),
 1: ('11093', '34.4301', '200.3170', '262.7319002', '348', '-151.95', '309.107', '123.44121', '0.004850', '0.0262'),
 2: ('11093', '42.6393', '285.3060', '190.69791226', '111.33', '-72.2441', '0', '0', '0', '1.0976'),
 3: ('11093', '54.5876', '254.7120', '131.53493193', '232', '-30.27', '174.8', '30.82', '0.002157', '0.0139'),
 4: ('11093', '76.2277', '359.2440', '79.6900472', '345', '-10.057', '276.59', '0.5118', None, None),
 5: ('11368', '176.6041', '261.1582', '22.57697855', '42', '-0.5118', '276.59', '0.5118', '0.029092', None),
 6: ('15020', '214.0790', '177.0470', '16.91993829', '94.9', '-2.292', '69.898', '-18.67088', None, None),
 7: ('9786', '514.8431', '76.3852', '4.53795125', '143.198', '-0.03919', '352.91', '0.1171', '0.028298', None),
}
INCL0, NODE0 = K(Fr('28.0817')), K(Fr('168.8112'))      # Saturn's equator on the ecliptic of B1950
AU1 = Fr('9.538937') / 3600
def dourneau(jd, sat):
    """(a, e, inclination, node, longitude of pericentre, mean longitude); AU and radians, ecliptic of B1950 (sat < 4: equator of Saturn, node counted from Saturn's node)"""
    import alg
    ep, a, l0, n, N0, N1, P0, P1, e, g = DOUR[sat]
    k = lambda s: K(Fr(s))
    td = jd - k(2400000 + int(ep)); t = td.scale(Fr(100, 36525)); T = t.scale(Fr(1, 100))
    r = lambda p: p * RAD                    # degrees -> radians
    si = lambda p: sin(r(p)); co = lambda p: cos(r(p))
    A = k(a).scale(AU1) * RAD
    L = k(l0) + td.scale(Fr(n)); N = k(N0) + t.scale(Fr(N1)); W = k(P0) + t.scale(Fr(P1))
    e = None if e is None else k(e)
    d = lambda s: k(s) * RAD                 # a number of degrees, as a pure number
    if sat in (0, 2):
        w = k('5.095') * ((jd - K(2451545)).scale(Fr(100, 36525)) + k(2000) - k('1866.39'))
        dl = -(k('43.57') * si(w) + k('0.7209') * si(w.scale(3)) + k('0.0205') * si(w.scale(5)))
        L = L + (dl if sat == 0 else dl.scale(-1 / Fr('21.12')))
    elif sat in (1, 3):
        dl = k('15.4').scale(Fr(1, 60)) * si(k('74.4') + t.scale(Fr('32.39'))) + k('12.59').scale(Fr(1, 60)) * si(k('134.3') + t.scale(Fr('92.62')))
        L = L + (dl if sat == 1 else dl.scale(Fr(-1, 12)))
    if sat < 4: return A, e, r(k(g)), r(N - NODE0), r(W - NODE0), r(L - NODE0)
    if sat == 4:
        p = k('342.7') + t.scale(Fr('10.057')); Nt = k('42.02') - t.scale(Fr('0.5118'))
        x, y = k('.000265') * si(p) + k('.001') * si(W), k('.000265') * co(p) + k('.001') * co(W)
        s0 = k('.0060545')                   # sin(0.3469 deg)
        I = r(INCL0 - k('.0455')) + s0 * co(N) + d('.0193') * co(Nt)
        Om = r(NODE0 - k('.0078')) + (s0 * si(N) + d('.0193') * si(Nt)).scale(1 / Fr('.470730'))
        w = Poly.var(alg.atom(('atan2', x, y), Fr(-3142, 1000), Fr(3142, 1000)))
        return A, alg.sqrt_(x * x + y * y), I, Om, w, r(L) + k('.00151337') * si(N)
    if sat == 5:                             # gamma0 = 0.2960 deg
        s0 = k('.00516615')
        I = r(INCL0 - k('.6303')) + s0 * co(N)
        Om = r(NODE0 - k('.1420')) + (s0 * si(N)).scale(1 / Fr('.470730'))
        g = r(W) - Om - d('4.6'); g0 = d('103.199')
        b = d('.3752')
        e2 = e + b * e * (cos(g.scale(2)) - cos(g0.scale(2)))
        return A, e2, I, Om, r(W) + b * (sin(g.scale(2)) - sin(g0.scale(2))), r(L) + k('.00129198') * si(N)
    if sat == 6:
        ta = k('92.39') + td.scale(Fr('.5621071')); z = k('148.19') - t.scale(Fr('19.18')); ph = k('-34.7') - t.scale(Fr('61.7840'))
        Ty = (jd - k('2442000.5')).scale(Fr(100, 36525)); tT = (jd - k(2411368)).scale(Fr(100, 36525))
        th = k('184.8') - Ty.scale(Fr('35.41')); th2 = k('177.3') - Ty.scale(Fr('35.41')); Nt = k('42.02') - tT.scale(Fr('.5118'))
        ls = k(176) + t.scale(Fr('12.22')); bs = k(8) + t.scale(Fr('24.44')); ds = bs + k(5)
        E = k('.103458') - k('.004099') * co(ta) - k('.000167') * co(z + ta) + k('.000235') * co(z - ta) + k('.02303') * co(z) - k('.00212') * co(z.scale(2)) + k('.000151') * co(z.scale(3)) + k('.00013') * co(ph)
        A = A - k('.00003509') * co(ta) - k('.00000067') * co(z + ta) + k('.00000071') * co(z - ta)
        s0 = k('.011231')
        I = r(INCL0 - k('.747')) + s0 * co(N) + d('.315') * co(Nt) - d('.018') * co(ds) + d('.0180') * co(th)
        Om = r(NODE0 - k('.13')) + (s0 * si(N) + d('.315') * si(Nt) - d('.018') * si(ds) + d('.0168') * si(th2)).scale(1 / Fr('0.459188'))
        x = d('.6435').scale(Fr('0.243170')) * si(N)
        Lm = r(L) + x + r(k('9.142') * si(ta) + k('.007') * si(ta.scale(2)) - k('.014') * si(ta.scale(3)) - k('.013') * si(ls) + k('.017') * si(bs) - k('.0303') * si(ph)
                          + k('.2275') * si(z + ta) + k('.2112') * si(z - ta) - k('.260') * si(z) - k('.0098') * si(z.scale(2)))
        Wm = r(W) + x + r(-k('.4457') * si(ta) - k('.2419') * si(z.scale(3)) - k('.2657') * si(z + ta) - k('.3573') * si(z - ta) - k('12.872') * si(z) + k('1.668') * si(z.scale(2)))
        return A, E, I, Om, Wm, Lm
    if sat == 7:
        B = (jd - k(2415020)).scale(Fr(1, 36525)); q = jd - k(2411368)
        I = k('18.4602') - T.scale(Fr('.9518')) - (T * T).scale(Fr('.072')) + (T ** 3).scale(Fr('.0054'))
        Om = N + (T * T).scale(Fr('.116')) + (T ** 3).scale(Fr('.008'))
        E = e + T.scale(Fr('.001156'))
        lin = lambda a, b, v: k(a) + v.scale(Fr(b))
        lam_s = lin('267.263', '1222.114', B); ws = lin('91.796', '.562', B); psi = lin('4.367', '-.195', B); th = lin('146.819', '-3.918', B)
        lam_t = lin('261.319', '22.576974', q); wt = lin('277.102', '.001389', q); phi = lin('60.470', '1.521', B); Phi = lin('205.055', '-2.091', B)
        l = L - W; g = W - Om - psi; g1 = W - Om - phi; ls = lam_s - ws; gs = ws - th; lt = lam_t - wt; gt = wt - Phi
        u1 = (l + g - ls - gs).scale(2); u2 = l + g1 - lt - gt; u3 = l + (g - ls - gs).scale(2); u4 = lt + gt - g1; u5 = (ls + gs).scale(2)
        A2 = A * (K(1) + k('7.87e-5') * co(u1) + k('98.79e-5') * co(u2))
        E2 = E + (-k('140.97') * co(g1 - gt) + k('37.33') * co(u5 - g.scale(2)) + k('11.80') * co(u3) + k('24.08') * co(l) + k('28.49') * co(l + u2) + k('61.90') * co(u4)).scale(Fr(1, 10**5))
        w = k('.08077') * si(g1 - gt) + k('.02139') * si(u5 - g.scale(2)) - k('.00676') * si(u3) + k('.01380') * si(l) + k('.01632') * si(l + u2) + k('.03547') * si(u4)
        Lm = L - k('.04299') * si(u2) - k('.00789') * si(u1) - k('.06312') * si(ls) - k('.00295') * si(ls.scale(2)) - k('.02231') * si(u5) + k('.00650') * si(u5 + psi)
        x = l + g1 + lt + gt + phi
        I2 = I + k('.04204') * co(u5 + psi) + k('.00235') * co(x) + k('.00360') * co(u2 + phi)
        dO = k('.04204') * si(u5 + psi) + k('.00235') * si(x) + k('.00358') * si(u2 + phi)
        return A2, E2, r(I2), r(Om) + r(dO) * alg.inv(sin(r(I))), r(W) + r(w) * alg.inv(E), r(Lm)
