"""C36 accuracy of the elementary functions."""
import math, struct
from decimal import Decimal, getcontext
from core import *
from c_num import ch, validate

getcontext().prec = 40
RESET = {'op': 'reset'}
FNS = ['exp', 'log', 'log10', 'sqrt', 'cbrt', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'erf', 'erfc', 'ierf']
POS = {'log', 'log10', 'sqrt'}
# exponent fields worth scanning densely, and the largest one in the domain
TOP = {'exp': 133, 'log': 254, 'log10': 254, 'sqrt': 254, 'cbrt': 254, 'sin': 143, 'cos': 143, 'tan': 139, 'sinh': 133, 'cosh': 133,
       'tanh': 254, 'erf': 254, 'erfc': 128, 'ierf': 126}
LOW = {'exp': 100, 'log': 1, 'log10': 1, 'sqrt': 1, 'cbrt': 0, 'sin': 100, 'cos': 100, 'tan': 100, 'sinh': 100, 'cosh': 100, 'tanh': 100,
       'erf': 100, 'erfc': 100, 'ierf': 100}


def fl(b):
    return struct.unpack('>f', struct.pack('>I', b))[0]


def fb(x):
    return struct.unpack('>I', struct.pack('>f', x))[0]


def limbs(d):
    """|d| in units of 10^-20, base 10000, least significant first, after the sign."""
    n = int(abs(d) * Decimal(10)**20)
    r = []
    while n:
        r.append(n % 10000)
        n //= 10000
    return [1 if d < 0 else 0] + r


def witness(b):
    x = fl(b & 0x7fffffff)
    return limbs(Decimal(x).ln())


def fn(f, *q):
    e = dict(op='fn', f=f, q=[ch(v, 2) for v in q])
    if f == 'pow' and 1 <= (q[0] >> 23 & 255) <= 254:
        e['_w'] = witness(q[0])
    return e


def specials(f):
    """Arguments at which the definition of f does something."""
    xs = [0.0, 1.0, 2.0, .5, 1e-3, 1e-7, 1.19e-7, 1.2e-7, 1e-20, 1e-38, 1.1754944e-38, 3.4e38, 87.33, 87.3, 86.5, 88.0, 4.0, 3.9, .99, .9999, .99999994, 9.99999935e-39, 1e-45, 1.0000001,
          .6931472, .6931471, 1.3862944, .34657359, 2.3025851, 10.0, 100.0, 1000.0, 8192.0, 8191.5, 2e5, 2e9, 3.0, 5.0, 6.0, 7.5, 8.0, 27.0, 64.0, 1e10, 1e30]
    for k in range(0, 9):
        xs += [k * math.pi / 4, k * math.pi / 2, k * math.pi, k * math.pi / 8]
    for k in (11, 12, 13, 100, 1000, 2000, 2607, 5214, 5217, 20001, 83440):
        xs += [k * math.pi / 2, (k + .5) * math.pi / 2]
    for k in range(-126, 127, 9):
        xs += [k * math.log(2), (k + .5) * math.log(2)]
    out = set()
    for x in xs:
        if abs(x) > 3.4e38: continue
        b = fb(abs(x))
        for d in (-2, -1, 0, 1, 2):
            if b + d >= 0:
                out.add(b + d)
    out |= {v | 0x80000000 for v in out}
    return out | {0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001}


def pows(rng, per):
    out = []
    bases = [fb(x) for x in (2.0, 3.0, .5, 10.0, 1.5, .1, 1.0, 1.0000001, .9999999, 1e-7, 1e-8, 1e-30, 1.2e-38, 1e30, 3.4e38, 7.25, 100.0)]
    bases += [b | 0x80000000 for b in bases]
    exps = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 7.0, 8.0, 15.0, 16.0, 17.0, 63.0, 64.0, 65.0, 100.0, 127.0, 128.0, 255.0, 256.0, .5, .25, 1.5, 2.5, 3.25, 1 / 3, .1, 1e-3, 1e-6, 1e-8, 1.0000001, .9999999, 2.0000002,
            1.9999999, 16777215.0, 16777216.0, 16777217.0, 8388607.0, 8388607.5, 33554433.0, 127.5, 254.5, 255.5, 3.0000002, 64.00001,
            8388609.0, 8388608.0, 12582913.0, 16777214.0, 9.0, 33.0, 1025.0, 65537.0, 4194304.5, 4194305.0, 1e10, 3.4e38]
    exps = [fb(x) for x in exps]
    exps += [b | 0x80000000 for b in exps]
    for b in bases + [0, 0x80000000, 1, 0x7f800000, 0x7fc00000]:
        for p in exps:
            out.append((b, p))
    for e in range(1, 255):
        for _ in range(per):
            b = rng.getrandbits(1) << 31 | e << 23 | rng.getrandbits(23)
            lim = 86 / max(1e-7, abs(math.log(fl(b & 0x7fffffff))))
            p = fb(rng.choice([1, -1]) * rng.random() * min(lim, 256))
            out.append((b, p))
            k = int(min(lim, 256))
            if k: out.append((b, fb(float(rng.randint(-k, k)))))
            out.append((b, fb(2.0)))
    return out


def c36(ctx):
    ctx.tlc_model('ElemModel', 'CONSTANTS K = %d\nINIT Init\nNEXT Next\nINVARIANTS Laws\nCHECK_DEADLOCK FALSE\n' % ctx.pick(24, 80))
    rng = ctx.rng('elem')
    ref = [os.path.join(HARN, 'elem_ref.cc')]
    exe, o0, o2 = ctx.build_all([('elem.cc', dict(extra_src=ref, flags=['-fno-sanitize=float-cast-overflow'])),
                                 ('elem.cc', dict(extra_src=ref, san=False, flags=['-O0'], out=ctx.path('o0'))),
                                 ('elem.cc', dict(extra_src=ref, san=False, flags=['-O2'], out=ctx.path('o2')))])
    # candidates: for every function, sign and exponent the arguments that look worst
    step = ctx.pick(199, 7)
    asks = []
    for f in FNS:
        for s in (0, 1):
            if s and f in POS: continue
            for e in range(LOW[f], TOP[f] + 1):
                if f in ('cbrt', 'tanh', 'erf', 'sqrt', 'log', 'log10') and e % 3 and ctx.tier == 'quick' and not 100 <= e <= 140: continue
                asks.append(dict(op='scan', f=f, s=s, n=e, x=rng.randrange(step), y=step))
    rng.shuffle(asks)
    asks += [dict(op='powscan', s=rng.getrandbits(30), n=ctx.pick(20000, 200000)) for _ in range(ctx.pick(64, 256))]
    parts = [p for p in chunks(asks, NCPU * 2) if p]
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        got = list(ex.map(lambda p: ctx.run_script(o2, p, timeout=600), parts))
    ev = []
    for part, es in zip(parts, got):
        for ask, e in zip(part, es):
            if e.get('op') == 'Crash':
                raise Violation('evaluating a function crashes', {'request': ask, 'event': e})
            for r in e['res']:
                if ask['op'] == 'scan': ev.append(fn(ask['f'], r[0] << 16 | r[1]))
                elif any(r[0]): ev.append(fn('pow', *(c[0] << 16 | c[1] for c in r)))
    per = ctx.pick(2, 24)
    for f in FNS:
        for b in specials(f):
            ev.append(fn(f, b))
        for e in range(0, 256):
            for s in (0, 1):
                for _ in range(per if LOW[f] <= e <= TOP[f] else 1):
                    ev.append(fn(f, s << 31 | e << 23 | rng.getrandbits(23)))
    ev += [fn('pow', *p) for p in pows(rng, ctx.pick(2, 20))]
    ctx.rng('cut').shuffle(ev)
    a = len(ev) // 3
    for x, part, lab in ((exe, ev[:a], 'sanitized'), (o0, ev[a:2 * a], 'O0'), (o2, ev[2 * a:], 'O2')):
        validate(ctx, x, part, 'ElemTrace', size=ctx.pick(600, 1500), label=lab)
    ctx.assumptions += ['for every exponent: the arguments a native scan (every %d-th pattern) finds worst, random and special ones; the specification alone judges the answers' % step,
                        'bounds: those stated in nanomath.h plus half an ulp of the answer; where none is stated those in properties.jsonl']
