"""C16 integer texts, C17 floating point texts, C18 reading numbers."""
import struct
from core import *
import hard

TR = '''SPECIFICATION TraceSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
'''
RESET = {'op': 'reset'}


def ch(v, n):
    return [v >> (16 * (n - 1 - i)) & 65535 for i in range(n)]


def codes(s):
    return [ord(c) for c in s]


def validate(ctx, exe, events, module='ConvertTrace', par=NCPU, size=1500, label=''):
    """Independent requests: split into runs of a few hundred."""
    ctx.rng('order').shuffle(events)
    scripts = chunks(events, max(par, (len(events) + size - 1) // size))
    for i in range(0, len(scripts), par * 4):
        validate_runs(ctx, exe, scripts[i:i + par * 4], module, TR, RESET, par=par * 4, label=label)
    ctx.samples[:] = [dict(kind='requests', events=events[:5])]


def c16(ctx):
    ctx.tlc_model('Itoa', 'CONSTANTS W = %d Cap = %d\nSPECIFICATION Spec\nINVARIANTS InBuffer Correct\nPROPERTIES Finishes\n' % ctx.pick((10, 5), (14, 6)))
    exe = ctx.build('conv.cc')
    rng = ctx.rng('v')
    ev = []
    for op, n, lo, hi in (('i32', 2, -2**31, 2**31 - 1), ('u32', 2, 0, 2**32 - 1), ('i64', 4, -2**63, 2**63 - 1), ('u64', 4, 0, 2**64 - 1)):
        vs = set()
        for k in range(0, 20):
            for d in (-2, -1, 0, 1, 2):
                for c in range(1, 10):
                    vs.add(c * 10**k + d); vs.add(-(c * 10**k + d))
                vs.add(10**k * 1111111111111111111 // 10**18 + d)
        for k in range(0, 65):
            for d in (-2, -1, 0, 1, 2):
                vs.add(2**k + d); vs.add(-2**k + d)
        for d in range(0, 4):
            vs.update((lo + d, hi - d))
        for b in range(1, 65):
            for _ in range(ctx.pick(8, 200)):
                v = rng.getrandbits(b)
                vs.update((v, -v, lo + v))
        for d in range(1, 20):      # repeated digits and interior zeros
            for c in '123456789':
                vs.update((int(c * d), -int(c * d), int(c + '0' * d), int(c + '0' * (d - 1) + '7')))
        for v in vs:
            if lo <= v <= hi:
                ev.append(dict(op=op, w=ch(v & (2**(16 * n) - 1), n)))
    validate(ctx, exe, ev)
    ctx.assumptions += ['values: powers of two and ten and their neighbours, type extremes, random values of every bit length; not all 2^64']


def fpats(rng, p, eb, per):
    """Patterns for every exponent: structured and random fractions."""
    top = 2**eb - 1
    for ef in range(0, top + 1):
        fr = [0, 1, 2**p - 1, 2**(p - 1)]
        while len(fr) < per:
            k = rng.random()
            if k < .5:
                fr.append(rng.getrandbits(p))
            elif k < .7:
                fr.append((1 << rng.randrange(p)) + rng.choice([-1, 0, 1]))
            elif k < .85:
                fr.append(rng.getrandbits(p) & ~((1 << rng.randrange(p)) - 1))
            else:
                fr.append((2**p - 1) ^ rng.getrandbits(rng.randrange(1, p)))
        for i, f in enumerate(fr[:per] if per >= 4 else rng.sample(fr, per)):
            f %= 2**p
            s = rng.getrandbits(1) if f or ef not in (0, top) else i & 1
            yield s << (p + eb) | ef << p | f
    for s in (0, 1):
        for ef in (0, top):
            yield s << (p + eb) | ef << p


def exactpats(rng, double, n):
    """Mantissas that make the scaled value or an end of its interval an exact decimal: 4m, 4m+2, 4m-2, 4m-1
    divisible by the power of five (binary exponent >= 0) or of two (below) the conversion divides by."""
    p, bias, top = (52, 1075, 2046) if double else (23, 150, 254)
    r = set()
    e2 = -140 if double else -70
    while e2 + 2 + bias <= top and e2 < (90 if double else 45):
        ef = e2 + 2 + bias
        if ef > 0:
            if e2 >= 0:
                q = e2 * 78913 >> 18
                for t in (q - 1, q, q + 1, rng.randint(0, 23)):
                    f = 5**max(t, 0)
                    if f >= 2**p:
                        continue
                    for off in (0, 2, -2, -1):
                        for _ in range(n):
                            m = rng.randrange(2**p, 2**(p + 1))
                            x = 4 * m - off
                            x -= x % f                     # a multiple of f near 4m - off
                            for _ in range(16):
                                if (x + off) % 4 == 0:
                                    break
                                x += f
                            m = (x + off) >> 2
                            if (x + off) % 4 == 0 and 2**p <= m < 2**(p + 1):
                                r.add(ef << p | m & (2**p - 1))
                    if t < q:                              # powers of two next to a power of five
                        r.add(ef << p)
            else:
                q = -e2 * 732923 >> 20
                for z in range(max(q - 5, 0), q + 1):
                    if z < p:
                        for _ in range(n):
                            r.add(ef << p | (rng.getrandbits(p) >> z << z | 1 << z))
        e2 += 1
    return r


def decfloats(rng, double, n):
    """Patterns of numbers with short decimal texts, integers, powers of ten and their neighbours."""
    r = set()
    for k in range(n):
        d = rng.randint(1, 10**rng.randint(1, 17 if double else 9))
        e = rng.choice([rng.randint(-330, 310) if double else rng.randint(-50, 39), rng.randint(-25, 25), 0])
        try:
            x = float('%de%d' % (d, e))
            if double:
                b = struct.unpack('>Q', struct.pack('>d', x))[0]
            else:
                b = struct.unpack('>I', struct.pack('>f', x))[0]
        except (OverflowError, ValueError):
            continue
        r.add(max(0, b + rng.choice([0, 0, 0, -1, 1])))
    return r


def hardpats(rng, dbl, every):
    """Patterns next to a decimal number of about as many digits as the shortest text has."""
    r = set()
    for _ in range(2):
        for e, m, k, q in hard.pairs(rng, dbl, (16, 16, 16, 16, 17, 15) if dbl else (8, 8, 8, 7, 9), every): r.update((hard.pattern(dbl, e, m), hard.pattern(dbl, e, m + 1)))
    for e, m, k, q in hard.pairs(rng, dbl, (17, 16, 16, 15) if dbl else (9, 8, 7), every, True): r.add(hard.pattern(dbl, e, m))
    return r


def hardtexts(rng, dbl, digits, every):
    """Decimal numbers next to a point half way between two floating point numbers."""
    for k, q in [x[2:] for x in hard.pairs(rng, dbl, digits, every)] + [x for _ in range(1 + dbl) for x in hard.scaled(rng, dbl, digits[0])]:
        s, j = str(k), rng.random()
        if j < .5: t = '%se%d' % (s, q)
        elif j < .9 or abs(q) > 25: t = '%s.%se%d' % (s[0], s[1:], q + len(s) - 1)
        elif q >= 0: t = s + '0' * q
        else: s = s.rjust(1 - q, '0'); t = s[:q] + '.' + s[q:]
        yield t if len(s) <= max(digits) else '%de%d' % (k, q)


def ties(rng, dbl, digits, n):
    """Texts (with their exponents) exactly half way, w * 10^q or w * 5^-q * 10^-q, all q for which there are any."""
    p = 52 if dbl else 23
    for q in range(-25, 25):
        lo, hi = (1 << p + 1) + 1, (1 << p + 2) - 1
        f = 5**abs(q)
        for _ in range(n):
            if q >= 0:
                if f > hi: continue
                w = rng.randint(-(-lo // f), hi // f) | 1
                w = (w << rng.choice((0, 0, 1, 2, 5, 12)))
            else: w = (rng.randint(lo, hi) | 1) * f
            if len(str(w)) <= digits: yield w, q


def c17(ctx):
    ctx.tlc_model('RoundModel', 'CONSTANTS P = %d Eb = 3 MaxD = %d NegE = 3 MaxE = 1\nINIT Init\nNEXT Next\nINVARIANTS Unique Monotone\nCHECK_DEADLOCK FALSE\n' % ctx.pick((2, 120), (3, 400)))
    exe = ctx.build('conv.cc')
    rng = ctx.rng('f')
    f = set(fpats(rng, 23, 8, ctx.pick(8, 80))) | decfloats(rng, False, ctx.pick(500, 8000)) | exactpats(rng, False, ctx.pick(2, 20))
    d = set(fpats(rng, 52, 11, ctx.pick(2, 12))) | decfloats(rng, True, ctx.pick(700, 10000)) | exactpats(rng, True, ctx.pick(2, 20))
    f |= hardpats(rng, False, 1) | (hardpats(rng, False, 1) if ctx.pick(0, 1) else set())
    for _ in range(ctx.pick(1, 8)): d |= hardpats(rng, True, 1)
    ev = [dict(op='f2s', w=ch(v, 2)) for v in f] + [dict(op='d2s', w=ch(v, 4)) for v in d]
    validate(ctx, exe, ev)
    ctx.assumptions += ['every exponent of float and double is covered with structured and random fractions; not all fractions']


def texts(rng, double, n):
    p, lim = (52, 17) if double else (23, 9)
    r = set()
    emax = 330 if double else 60

    def sci(d, e):
        """write digits d * 10^e in one of many ways"""
        sign = rng.choice(['', '', '', '-'])
        k = rng.random()
        lead = '0' * rng.choice([0, 0, 0, 1, 3, 20])
        pos = rng.randint(0, len(d))
        mark = rng.choice('eE')
        es = lambda v: rng.choice(['', '+'] if v >= 0 else ['-']) + '0' * rng.choice([0, 0, 1, 4]) + str(abs(v))
        if k < .35:
            return sign + lead + d[:pos] + '.' + d[pos:] + mark + es(e + len(d) - pos) if pos or lead else sign + '.' + d + mark + es(e + len(d))
        if k < .6:
            return sign + lead + d + mark + es(e)
        if k < .8 and -25 < e < 0 and len(d) > -e:
            return sign + lead + d[:e] + '.' + d[e:]
        if k < .9 and -40 < e <= 0:
            z = max(0, -e - len(d) + 1)
            s = '0' * z + d
            return sign + s[:len(s) + e] + '.' + s[len(s) + e:]
        if e == 0:
            return sign + lead + d
        return sign + d + mark + es(e)
    for _ in range(n):
        nd = rng.choice([1, 2, 3, rng.randint(1, lim), lim, lim - 1])
        d = str(rng.randint(1, 9)) + ''.join(rng.choice('0123456789') for _ in range(nd - 1))
        if rng.random() < .1:
            d = rng.choice('19') + rng.choice('09') * (nd - 1)
        e = rng.choice([rng.randint(-emax - 20, emax), rng.randint(-25, 25), 0, -nd, rng.randint(-emax - 20, emax) - nd])
        r.add(sci(d, e))
    # exactly half way between two numbers, and one unit to either side, with at most lim digits
    for k in range(p + 1, p + (4 if double else 8)):
        for _ in range(max(6, n // 100)):
            m = rng.getrandbits(p) | 1 << p
            h = (2 * m + 1) << (k - p - 1)
            for v in (h - 1, h, h + 1, h * 10 + 1, h * 10 - 1):
                s = str(v)
                e = 0
                while s.endswith('0'):
                    s = s[:-1]; e += 1
                if len(s) <= lim:
                    r.add(sci(s, e))
    for k in range(1, 12):       # halves of short fractions: (2m+1)/2^k with few digits
        for _ in range(max(3, n // 200)):
            m = rng.getrandbits(p + 1 - k) if p + 1 - k > 0 else 0
            v = (2 * ((1 << p) + rng.getrandbits(p)) + 1)
            s = str(v * 5**k)
            if len(s) <= lim:
                r.add(sci(s, -k))
    # neighbours of powers of two, limits, subnormal boundaries
    for e2 in range(-(1080 if double else 155), 1030 if double else 132):
        from fractions import Fraction
        x = Fraction(2)**e2
        e10 = 0
        k = lim
        # lim-digit approximations of 2^e2
        import math
        e10 = math.floor(e2 * 0.30102999566398120) - (lim - 1)
        v = x / Fraction(10)**e10
        w = int(v)
        if n < 3000 and e2 % (16 if double else 1):
            continue
        for u in (w, w + 1):
            if len(str(u)) <= lim:
                r.add(sci(str(u), e10))
    r.update(['0', '-0', '0.0', '0e5', '-0.0e-7', '00', '.0', '0.', '1.', '-1.', '.5', '-.5', '1e0', '1E+5', '1e-0', '1e00005', '0e9999', '1e9999', '1e-9999', '9e309', '9e-330'])
    lims = (['1.7976931348623157e308', '1.7976931348623158e308', '1.7976931348623159e308', '1.797693134862316e308', '2.2250738585072014e-308', '2.2250738585072011e-308', '2.2250738585072012e-308',
             '4.9406564584124654e-324', '5e-324', '3e-324', '2e-324', '2.4703282292062327e-324', '2.4703282292062328e-324', '7.4109846876186981e-324', '7.4109846876186982e-324',
             '9007199254740993', '9007199254740992', '9007199254740991', '9007199254740995', '18014398509481990', '36028797018963972', '1e308', '1e309', '17976931348623157e292', '17976931348623159e292'] if double else
            ['3.4028235e38', '3.4028236e38', '3.40282356e38', '3.40282357e38', '3.402823567e38', '3.402823669e38', '3.40282367e38', '1.17549435e-38', '1.17549421e-38', '1.1754942e-38', '1.17549428e-38', '1.40129846e-45', '1e-45', '7.00649232e-46',
             '7.00649231e-46', '7e-46', '8e-46', '16777217', '16777219', '33554434', '33554438', '1e38', '1e39', '9.9e38', '2.1e-45', '2.10194770e-45'])
    for t in lims:
        r.update([t, '-' + t])
    return r


BAD = ['', '-', '.', '-.', 'e5', '.e5', '-e', 'abc', 'x1', '1x', '1.2.3', '--1', '1-', '1e5x', '1e+-5', '1..', '1.e5.', ' ', '1 ', '1e5.0', '1ee5', 'nan', 'inf', '0x10', '1,5', 'E', '-.e1', '1e5e5', '1/', '1:', '/1', ':1', '1e/', '1e5:']


def c18(ctx):
    ctx.tlc_model('RoundModel', 'CONSTANTS P = %d Eb = 3 MaxD = %d NegE = 3 MaxE = 1\nINIT Init\nNEXT Next\nINVARIANTS Unique Monotone\nCHECK_DEADLOCK FALSE\n' % ctx.pick((2, 120), (3, 400)))
    exe = ctx.build('conv.cc')
    rng = ctx.rng('t')
    ev = []
    for op, dbl in (('s2f', False), ('s2d', True)):
        for t in texts(rng, dbl, ctx.pick(1200, 16000)):
            ev.append(dict(op=op, q=codes(t)))
        for _ in range(ctx.pick(1, 10)):
            for t in hardtexts(rng, dbl, (17, 17, 16, 15) if dbl else (9, 9, 8, 7), 1): ev.append(dict(op=op, q=codes(t)))
        for w, q in ties(rng, dbl, 17 if dbl else 9, ctx.pick(4, 60)): ev.append(dict(op=op, q=codes('%de%d' % (w, q) if q or rng.random() < .5 else str(w))))
        for t in BAD:
            ev.append(dict(op=op, q=codes(t)))
        for _ in range(ctx.pick(200, 3000)):
            t = ''.join(rng.choice('0123456789..--+eE xX/:') for _ in range(rng.randint(1, 7)))
            ev.append(dict(op=op, q=codes(t)))
    fin = lambda v, p, eb: (v >> p & (2**eb - 1)) != 2**eb - 1
    ev += [dict(op='rtf', w=ch(v, 2)) for v in set(fpats(rng, 23, 8, ctx.pick(16, 300))) if fin(v, 23, 8)]
    ev += [dict(op='rtd', w=ch(v, 4)) for v in set(fpats(rng, 52, 11, ctx.pick(4, 60))) if fin(v, 52, 11)]
    validate(ctx, exe, ev)
    ctx.assumptions += ['texts of at most 9 (float) and 17 (double) significant digits and exponents of at most four digits must be read correctly; longer ones may be refused with NaN',
                        'a leading plus sign is refused, as the library documents no grammar; an exponent mark without digits may be read or refused']


# ---------------------------------------------------------------- fast_float::from_chars
def longtexts(rng, dbl, n):
    """Texts of any length around the points where rounding is decided."""
    from fractions import Fraction
    p, emin, emax = (52, -1074, 971) if dbl else (23, -149, 104)
    most = 790 if dbl else 130
    r = []

    def write(v, e):
        """v * 10^e, written in some way"""
        s, k = str(v), rng.random()
        if k < .3 and e < 0 and len(s) - e < 900:
            s = s.rjust(-e + rng.choice([0, 1, 1, 5]), '0')
            s = s[:len(s) + e] + '.' + s[len(s) + e:]
        elif k < .45 and 0 <= e < 60: s += '0' * e + rng.choice(['', '.', '.0', '.00000000', '.000000000000000000000'])
        else:
            pos = rng.choice([1, 1, 0, len(s), rng.randint(0, len(s))])
            x = e + len(s) - pos
            s = s[:pos] + rng.choice(['.', '.', '.' if pos < len(s) else '']) + s[pos:] if pos < len(s) else s
            if pos == len(s): x = e
            if s.startswith('.') and rng.random() < .5: s = '0' * rng.choice([1, 8, 20]) + s
            if x or rng.random() < .3: s += rng.choice('eE') + ('-' if x < 0 else rng.choice(['', '+'])) + '0' * rng.choice([0, 0, 1, 12]) + str(abs(x))
        return rng.choice(['', '', '-']) + s

    def dec(num, den2):
        """num / 2^den2 exactly: digits and exponent"""
        if den2 <= 0: return num << -den2, 0
        return num * 5**den2, -den2
    while len(r) < n:
        e2 = rng.choice([rng.randint(emin, emax), rng.randint(-p - 20, 20), emin, emin + rng.randint(0, p), emax, rng.randint(-80, 80)])
        m = rng.choice([rng.getrandbits(p) | 1 << p, (1 << p) + rng.randint(0, 3), (1 << p + 1) - 1 - rng.randint(0, 3), rng.getrandbits(rng.randint(1, p)) if e2 == emin else rng.getrandbits(p) | 1 << p])
        if e2 != emin: m |= 1 << p
        num, den = rng.choice([(2 * m + 1, -(e2 - 1)), (2 * m + 1, -(e2 - 1)), (m, -e2), (2 * m - 1, -(e2 - 1)), (4 * m - 1, -(e2 - 2))])
        d, e = dec(num, den)
        while d % 10 == 0 and d: d //= 10; e += 1
        k = rng.random()
        s = str(d)
        if k < .2: pass                                                    # exactly there
        elif k < .25: z = max(0, most - 24 + rng.randint(0, 50) - len(s)); d, e = d * 10**z, e - z      # with zeros up to where digits are no longer kept
        elif k < .5:                                                       # a little to one side, at some digit
            z = rng.choice([0, 1, 2, 18, 19, 20, 40, 300, max(0, most - len(s))])
            if len(s) + z > 1200: z = 0
            d, e = d * 10**(z + 1) + rng.choice([1, -1, 9]), e - z - 1
        else:                                                              # cut to some number of digits
            c = rng.choice([17, 18, 19, 20, 21, 8, 9, 16, 38, 39, 100, rng.randint(1, 60)])
            if len(s) > c:
                e += len(s) - c
                d = int(s[:c]) + rng.choice([0, 0, 1])
        r.append(write(d, e))
    for z in (0, 1, 7, 8, 9, 15, 16, 17, 18, 19, 20, 21, 24, 30, 64, 350):       # zeros on every side, eight at a time
        for core in ('1', '17', '123456789', '1234567890123456789', '12345678901234567891', '9007199254740993', '99999999'):
            r += ['0' * z + core, '0.' + '0' * z + core, core + '0' * z, core + '.' + '0' * z, '0' * z + '.' + core + '0' * z, core + 'e' + '0' * z + '5', '0' * z + '.' + '0' * z + core + 'e' + str(z)]
        r += ['0' * z + '.', '.' + '0' * z, '-0.' + '0' * z + 'e9']
    r += ['1e%d' % e for e in (-400, -330, -46, -45, 38, 39, 308, 309, 400, 99999, -99999)] + ['0e999999', '1e0000000000000000000005', '0.1e-00000000000000000000003']
    return r


def cutoffs(rng, dbl, n):
    """Ties with one more digit, somewhere beyond the digits that are kept, all others being zeros."""
    p, emin, emax, most = (52, -1074, 971, 769) if dbl else (23, -149, 104, 114)
    r = []
    for i in range(n):
        e2 = rng.choice([rng.randint(emin, emax), rng.randint(-p - 20, 20), emin])
        m = rng.getrandbits(p) & -2 | 1 << p
        num, den = 2 * m + 1, -(e2 - 1)
        d, e = (num << -den, 0) if den <= 0 else (num * 5**den, -den)
        while d % 10 == 0: d //= 10; e += 1
        s = str(d)
        tail = '0' * max(0, most - len(s) + i % 18 - 1) + rng.choice('1239')
        pos = rng.choice([len(s + tail), len(s + tail), 1, 0, len(s), most, most - 1, rng.randint(1, len(s))])
        t = s + tail
        x = e + len(s) - pos
        r.append(rng.choice(['', '-']) + t[:pos] + ('.' + t[pos:] if pos < len(t) else '') + 'e%d' % x)
    return r


SPECIALS = ['nan', 'NaN', 'NAN', 'nAn', 'inf', 'INF', 'Inf', 'infinity', 'INFINITY', 'iNfInItY', 'infinit', 'infinite', 'nan()', 'nan(1)', 'nan(ab_9Z)', 'nan(', 'nan(a', 'nan(a b)', 'nan(a(b)', 'nan)', 'na', 'in', 'n', 'i', 'nam', 'ing', 'nan nan', 'infinityy', 'nan(%)', 'nan(@)', 'nan([)', 'nan(`)', 'nan({)', 'nan(/)', 'nan(:)', 'nan(A)', 'nan(Z)', 'nan(a)', 'nan(z)', 'nan(0)', 'nan(9)', 'nan(_)', 'nanx)', 'nan_)', 'nan1)', 'nan((a)', 'nan()x', 'nan(aZ09_zA)b']


def c38(ctx):
    emitted = ctx.tlc_model('FromCharsModel', 'CONSTANTS Chars = {48, 53, 46, 45, 43, 101, 44, 120}\n MaxLen = %d\nINIT Init\nNEXT Next\nINVARIANTS Longest Apart Prefix General\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
                            % ctx.pick(4, 5), edges=True)
    exe = ctx.build('ffloat.cc')
    rng = ctx.rng('ff')
    ev = []

    def ask(t, op=None, how=None):
        q = t if isinstance(t, list) else codes(t)
        op = op or rng.choice(('ff', 'fd'))
        how = rng.choice((0, 0, 0, 1, 2, 3)) if how is None else how
        if how == 3 and not isinstance(t, list): q = [44 if c == 46 else c for c in q]
        ev.append(dict(op=op, how=how, q=q, b=ch(rng.getrandbits(32 if op == 'ff' else 64) & 0x7fefffffffffffff, 2 if op == 'ff' else 4)))
    for e in emitted:
        for how in ctx.pick((rng.choice((0, 1, 2)),), (0, 1, 2, 3)): ask(e['q'], how=how)
    ask([]); ask([], 'fd', 2)
    tails = ['', '', '', ' ', 'x', '.', '.5', 'e', 'e+', 'E-', 'e5', '-', ',', ',5', 'f', '\0', '1', '\xff', 'e.', 'e 5']
    for op, dbl in (('ff', False), ('fd', True)):
        for t in texts(rng, dbl, ctx.pick(600, 8000)): ask(t + rng.choice(tails), op, rng.choice((0, 0, 0, 1, 2, 3)))
        for _ in range(ctx.pick(1, 10)):
            for t in hardtexts(rng, dbl, (19, 19, 18, 17, 20, 21) if dbl else (19, 19, 18, 17, 20, 10), ctx.pick(2, 1) if dbl else 1): ask(t + rng.choice(tails), op, rng.choice((0, 0, 0, 2, 3)))
        for w, q in ties(rng, dbl, 800, ctx.pick(10, 60)):
            z = rng.choice((0, 0, 0, 0, 0, 0, 1, 19, 120, 800))
            ask('%de%d' % (w, q) if not z else '%d.%se%d' % (w, '0' * z + rng.choice(('', '1', '0')), q), op, rng.choice((0, 0, 2)))
        for t in longtexts(rng, dbl, ctx.pick(900, 12000)): ask(t + rng.choice(tails), op, rng.choice((0, 0, 0, 0, 1, 2, 3)))
        for t in cutoffs(rng, dbl, ctx.pick(54, 540)): ask(t, op, rng.choice((0, 2)))
        for t in BAD + SPECIALS + ['-' + s for s in SPECIALS] + ['+' + s for s in SPECIALS[:9]] + [' 1', '+1']:
            for how in (0, 1, 2): ask(t, op, how)
        for _ in range(ctx.pick(300, 4000)):
            ask(''.join(rng.choice('0123456789..--+eE xX/:,') for _ in range(rng.randint(1, 9))), op)
            ask(''.join(rng.choice('nNaAiIfFtTyY()_1-') for _ in range(rng.randint(1, 9))), op)
    validate(ctx, exe, ev, 'FromCharsTrace', size=700)
    ctx.cov['texts_from_the_model'] = len(emitted)
    ctx.assumptions += ['all texts of at most %d characters over { 0 5 . - + e , x } in the accepted formats, and sampled texts of up to 1200 digits around the points where rounding is decided' % ctx.pick(4, 5),
                        'the default rounding mode; hexadecimal format is not provided']
