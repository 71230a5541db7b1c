"""Calendar oracles (published arithmetic rules), independent of the analysed code."""
from fractions import Fraction
GREG, JUL, HEB, ISL, REV, PER, JG, CHI, MPER = 0, 1, 2, 3, 4, 5, 6, 7, 8
NAMES = {}
ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 0]

def greg(y):
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    s = 1721060 + 365 * y + (y + 3) // 4 - (y + 99) // 100 + (y + 399) // 400
    m = list(ML); m[1] += leap
    return s, m
def jul(y):
    m = list(ML); m[1] += (y % 4 == 0)
    return 1721058 + 365 * y + (y + 3) // 4, m
def isl(y):
    # tabular Islamic calendar: leap years 2 5 7 10 13 16 18 21 24 26 29 of each 30; 1 Muharram 1 AH = JD 1948440 (noon)
    leap = (11 * y + 14) % 30 < 11
    s = 1948440 + 354 * (y - 1) + (3 + 11 * y) // 30
    return s, [30, 29] * 5 + [30, 29 + leap] + [0]
def heb_leap(y): return (7 * y + 1) % 19 < 7
def heb_start(y):
    months = (235 * y - 234) // 19
    parts = 12084 + 13753 * months
    day = 29 * months + parts // 25920
    if (3 * (day + 1)) % 7 < 3: day += 1
    return day
def heb_new_year(y):
    # Dershowitz & Reingold, Calendrical Calculations: elapsed days + year length correction
    a, b, c = heb_start(y - 1), heb_start(y), heb_start(y + 1)
    cor = 2 if c - b == 356 else (1 if b - a == 382 else 0)
    return 347998 + b - heb_start(1) + cor - heb_cor1
def _cor(y):
    a, b, c = heb_start(y - 1), heb_start(y), heb_start(y + 1)
    return 2 if c - b == 356 else (1 if b - a == 382 else 0)
heb_cor1 = _cor(1)
def heb(y):
    s, e = heb_new_year(y), heb_new_year(y + 1)
    n = e - s
    lp = heb_leap(y)
    m = [30, 29, 30, 29, 30, 30 if lp else 29, 29 if lp else 0, 30, 29, 30, 29, 30, 29]
    if n in (355, 385): m[1] = 30
    if n in (353, 383): m[2] = 29
    return s, m
def mper_leap(y):
    return (((y - 474) % 2820) + 474 + 38) * 682 % 2816 < 682
def mper(y):
    # Birashk's 2820-year rule
    e = 474 + (y - 474) % 2820
    s = 1948320 + (e * 682 - 110) // 2816 + (e - 1) * 365 + (y - e) // 2820 * 1029983 + 1
    return s, [31] * 6 + [30] * 5 + [30 if mper_leap(y) else 29, 0]

# French Revolutionary: 2820-year rule with the documented block table (683 leap days per 2820 years)
REV_BLOCKS = [(-814, 405, 1), (-492, 439, 1), (-331, 498, 1), (-108, 469, 1), (0, 419, 1), (144, 393, 0), (301, 322, 0), (487, 184, 0), (None, 92, 0)]
def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q
def rev_start(y):
    for lim, d, drop in REV_BLOCKS:
        if lim is None or y < lim: return 2375475 + 365 * y + tdiv(d + 683 * y, 2820) - drop
def rev(y):
    s, e = rev_start(y), rev_start(y + 1)
    return s, [30] * 12 + [e - s - 360]

PER_BLOCKS = [(-708, 1108), (-221, 1047), (-3, 984), (6, 1249), (394, 952), (720, 891), (786, 930), (1145, 866), (1635, 869), (1701, 844), (1866, 848), (2329, 852)]
PER_LO, PER_HI = -1096, 2327
def per_start(y):
    for i, (lim, d) in enumerate(PER_BLOCKS):
        if y < lim: return 1947955 + 365 * y + tdiv(d + 303 * y, 1250) - (1 if i < 3 else 0)
def per(y):
    s, e = per_start(y), per_start(y + 1)
    return s, [31] * 6 + [30] * 5 + [e - s - 336, 0]
_br = [-61, 9, 38, 199, 426, 686, 756, 818, 1111, 1181, 1210, 1635, 2060, 2097, 2192, 2262, 2324, 2394, 2456, 3178]
def borkowski(jy):
    """K. M. Borkowski, 'The Persian calendar for 3000 years' (1996): JD of 1 Farvardin"""
    gy = jy + 621; leapJ = -14; jp = _br[0]
    for jm in _br[1:]:
        jump = jm - jp
        if jy < jm: break
        leapJ += jump // 33 * 8 + jump % 33 // 4; jp = jm
    n = jy - jp
    leapJ += n // 33 * 8 + (n % 33 + 3) // 4
    if jump % 33 == 4 and jump - n == 4: leapJ += 1
    leapG = gy // 4 - (gy // 100 + 1) * 3 // 4 - 150
    s, m = greg(gy)
    return s + sum(m[:2]) + 20 + leapJ - leapG - 1

def chinese(raw):
    """decode of the shipped chinese.dat: {year: (start, months, intercalary)}"""
    import struct
    n, y0 = struct.unpack('<hh', raw[:4])
    r = {}
    for i in range(n):
        v = int.from_bytes(raw[4 + 3 * i:7 + 3 * i], 'little')
        y = y0 + i
        ic = (v >> 13) % 14
        m = [30 if v >> j & 1 else 29 for j in range(13)]
        if not ic: m[12] = 0
        r[y] = (y * 365 + tdiv(y, 4) + 757862 + (v >> 13) // 14, m, ic + 1 if ic else 0)
    return r
