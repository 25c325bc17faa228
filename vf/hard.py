"""Numbers that are hard to convert: binary and decimal numbers that almost meet.  Finding them is number
theory (it decides nothing: the specification judges whatever the code answers)."""


def first_in(a, m, lo, hi):
    """The least x >= 0 with lo <= a*x mod m <= hi, for 0 <= lo <= hi < m; None if there is none."""
    flips = []
    a %= m
    st = []
    while True:
        if lo == 0:
            x = 0
            break
        if a == 0:
            return None
        if 2 * a > m:
            a, lo, hi = m - a, m - hi, m - lo
            continue
        x = -(-lo // a)
        if a * x <= hi:
            break
        st.append((a, m, lo))
        a, m, lo, hi = -m % a, a, lo % a, hi % a
    while st:
        a, m, lo = st.pop()
        x = -(-(lo + m * x) // a)
    return x


def meet(num, den, j0, step, n, off_num, off_den, width_num, width_den, below):
    """j = j0 + step*x, x < n, such that j*num/den lies within width above (or below) an integer plus off."""
    d = den * off_den * width_den
    a = num * step * off_den * width_den % d
    s = (num * j0 * off_den - off_num * den) * width_den % d
    w = width_num * d // width_den
    if w < 1: return None
    lo, hi = (1, w) if not below else (d - w, d - 1)
    lo, hi = (lo - s) % d, (hi - s) % d
    x = 0 if lo > hi else first_in(a, d, lo, hi)
    return None if x is None or x >= n else j0 + step * x


def pairs(rng, dbl, digits, every, middle=False):
    """Yields (e, m, k, q): the point half way between m*2^e and (m+1)*2^e almost equals k*10^q, where k has a number
    of digits out of digits; with middle, m*2^e almost equals (k+1/2)*10^q."""
    p, emin, emax = (52, -1074, 971) if dbl else (23, -149, 104)
    for e in range(emin, emax + 1):
        if every > 1 and rng.randrange(every): continue
        nd = rng.choice(digits)
        lowm, highm = (1 << p, (1 << p + 1) - 1) if e > emin or rng.random() < .5 else (1, (1 << p) - 1)
        if e == emin and lowm == 1:
            lowm = 1 << rng.randint(p // 2, p - 1); highm = 2 * lowm - 1
        # q: k has nd digits for the middle of the range
        top = highm << e if e >= 0 else 0
        l10 = (e + highm.bit_length()) * 0.30102999566398120
        q = int(l10 // 1) - nd + rng.choice((0, 1))
        num, den = 1, 1
        e1 = e if middle else e - 1
        if e1 >= 0: num <<= e1
        else: den <<= -e1
        if q >= 0: den *= 10**q
        else: num *= 10**-q
        n = highm - lowm
        j0, step = (lowm, 1) if middle else (2 * lowm + 1, 2)
        k = rng.random()
        if k < .75: wn, wd = 3, n                                    # about the closest
        else:
            wn, wd = 1, 1 << rng.randint(8, max(9, n.bit_length() - 4))
            x = rng.randrange(n)
            j0 += step * x; n -= x
        j = meet(num, den, j0, step, n, 1 if middle else 0, 2, wn, wd, rng.random() < .5)
        if j is None: continue
        t = 2 * j * num + (den if not middle else 0)
        kk = t // (2 * den) if not middle else j * num // den
        if len(str(kk)) > max(digits) or kk == 0: continue
        yield (e, j if middle else j >> 1, kk, q)


def scaled(rng, dbl, nd):
    """The same for every power of ten: yields (k, q), k of nd digits (any q at which k * 10^q is in range), on both sides."""
    p, emin, emax = (52, -1074, 971) if dbl else (23, -149, 104)
    for q in range(-345 if dbl else -66, 309 if dbl else 39):
        for below in (False, True):
            for attempt in range(6):
                lead = rng.randrange(10**17, 10**18)
                e = (lead * 10**q if q >= 0 else lead // 10**-q).bit_length() if q > -17 else -(10**-q // lead).bit_length() + 1
                e += ((10**(nd - 1)).bit_length() - 60) - p - 1 + rng.choice((0, 1, 2))
                if not emin <= e <= emax: continue
                lo, hi = 10**(nd - 1), 10**nd - 1
                # k with k * 10^q / 2^(e-1) close to an odd number: k * 10^q / 2^e close to an integer and a half
                num, den = (10**q, 1) if q >= 0 else (1, 10**-q)
                if e >= 0: den <<= e
                else: num <<= -e
                least, most = (1 << p if e > emin else 1) * den // num + 1, ((1 << p + 1) - 1) * den // num
                lo, hi = max(lo, least), min(hi, most)
                if hi - lo < 10: continue
                k = meet(num, den, lo, 1, hi - lo, 1, 2, 3, min(hi - lo, 1 << 62) if rng.random() < .85 else 1 << rng.randint(8, 50), below)
                if k is None: continue
                yield k, q
                break


def pattern(dbl, e, m):
    p, emin = (52, -1074) if dbl else (23, -149)
    if m >> (p + 1): m >>= 1; e += 1
    return (e - emin + 1) << p | m & (1 << p) - 1 if m >> p else m
