"""C22 classification, C23 exact functions, C24 numeric limits."""
from core import *
from c_num import ch, fpats, decfloats, validate

RESET = {'op': 'reset'}
FM = 'CONSTANTS P = %d Eb = %d\nINIT Init\nNEXT Next\nINVARIANTS OneClass FloorCeil OrderRight MinMax\nCHECK_DEADLOCK FALSE\n'
FMT = (('float', 2, 23, 8), ('double', 4, 52, 11))


def model(ctx):
    ctx.tlc_model('FloatModel', FM % ctx.pick((2, 3), (3, 4)))


def c22(ctx):
    model(ctx)
    exe = ctx.build('math.cc')
    fast = ctx.build('math.cc', san=False, flags=['-O2'], out=ctx.path('fast'))
    rng = ctx.rng('cls')
    ev = []
    for ty, c, p, eb in FMT:
        pats = set(fpats(rng, p, eb, ctx.pick(12, 60)))
        for s in (0, 1):
            for ef in list(range(0, 4)) + list(range(2**eb - 4, 2**eb)) + [2**k for k in range(eb)] + [2**k - 1 for k in range(1, eb)]:
                for fr in [0, 2**p - 1] + [1 << k for k in range(p)] + [(2**p - 1) ^ (1 << k) for k in range(p)]:
                    pats.add(s << (p + eb) | (ef % 2**eb) << p | fr)
        ev += [dict(op='class', ty=ty, q=[ch(v, c)]) for v in pats]
    validate(ctx, exe, ev, 'FloatTrace')
    # every pattern of float: 512 sweeps over 2^23 fractions each
    sw = [dict(op='sweep', s=s, n=e) for s in (0, 1) for e in range(256)]
    validate(ctx, fast, sw, 'FloatTrace', size=16)
    ctx.assumptions += ['float: all 2^32 patterns; double: every exponent with structured and random fractions']


def c23(ctx):
    model(ctx)
    exe = ctx.build('math.cc', flags=['-fno-sanitize=float-cast-overflow'])
    rng = ctx.rng('exact')
    ev = []
    for ty, c, p, eb in FMT:
        bias = 2**(eb - 1) - 1
        top = 2**eb - 1
        fin = lambda v: (v >> p & top) != top
        pats = [v for v in set(fpats(rng, p, eb, ctx.pick(4 if p == 23 else 1, 40 if p == 23 else 8))) | decfloats(rng, p == 52, ctx.pick(300, 4000))]
        near = set()
        for e in range(-3, p + 12):           # integers and their neighbours, halves, every size of integer part
            for _ in range(ctx.pick(6, 60)):
                keep = max(0, min(p, e))       # bits of the fraction that belong to the integer part
                m = rng.getrandbits(p) & ~((1 << (p - keep)) - 1)
                for d in (0, 1, -1, 1 << max(0, p - keep - 1), (1 << max(0, p - keep)) - 1):
                    near.add((rng.getrandbits(1) << (p + eb)) + (((e + bias) << p | m) + d))
        for k in (2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**53, 2**63, 2**62 + 1, 1, 0, 2, 3, 2**24, 2**24 - 1, 2**52 - 1, 2**52 + 1, 2**23 - 1, 2**23 + 1):
            import struct
            for x in (float(k), k + .5, k - .5, k + 1e-9, k - 1e-9, k + 1e-7, k - 1e-7, k + 1e-16, k * (1 + 2**-50)):
                for s in (1, -1):
                    try: near.add(struct.unpack('>Q', struct.pack('>d', s * x))[0] if p == 52 else struct.unpack('>I', struct.pack('>f', s * x))[0])
                    except OverflowError: pass
        both = [v for v in set(pats) | near]
        for op in ('floor', 'ceil'):
            ev += [dict(op=op, ty=ty, q=[ch(v, c)]) for v in both if fin(v)]
        ev += [dict(op='fabs', ty=ty, q=[ch(v, c)]) for v in both]
        spec = [0, 1, 1 << p, bias << p, top << p, (top << p) - 1, top << p | 1, top << p | 1 << (p - 1)]
        spec += [v | 1 << (p + eb) for v in spec]
        pairs = [(a, b) for a in spec for b in spec] + [(rng.choice(both), rng.choice(both + spec)) for _ in range(ctx.pick(800, 8000))]
        pairs += [(v, v + rng.choice([1, -1, 2**p, 1 << (p + eb)]) & (2**(p + eb + 1) - 1)) for v in rng.sample(both, min(len(both), ctx.pick(300, 3000)))]
        for op in ('fmin', 'fmax') + (('copysign',) if p == 23 else ()):
            ev += [dict(op=op, ty=ty, q=[ch(a, c), ch(b, c)]) for a, b in pairs]
        val = lambda v: struct.unpack('>d', struct.pack('>Q', v))[0] if p == 52 else struct.unpack('>f', struct.pack('>I', v))[0]
        num = [v for v in spec + rng.sample(both, 200) if val(v) == val(v)]
        for _ in range(ctx.pick(1200, 12000)):
            x, a, b = rng.choice(num), rng.choice(num), rng.choice(num)
            if rng.random() < .2: x = rng.choice([a, b])
            lo, hi = (a, b) if val(a) <= val(b) else (b, a)
            ev.append(dict(op='clamp', ty=ty, q=[ch(x, c), ch(lo, c), ch(hi, c)]))
    validate(ctx, exe, ev, 'FloatTrace')
    ctx.assumptions += ['every exponent with structured and random fractions, integers of every size and their neighbours; which zero is returned is free except for fabs and copysign; clamp with lo <= hi and no NaN',
                        'copysign is provided for float only']


def c24(ctx):
    model(ctx)
    jobs = []
    ev = [dict(op='limits', ty=t) for t in ('bool', 'char', 'uchar', 'short', 'ushort', 'int', 'uint', 'llong', 'ullong', 'float', 'double')]
    for i, f in enumerate((['-O0'], ['-O2'], ['-std=c++14', '-O1'], ['-std=c++17', '-O2'])):
        jobs.append(('math.cc', dict(flags=f + ['-DLIMITS'], out=ctx.path('l%d' % i))))
    for exe in ctx.build_all(jobs):
        validate(ctx, exe, [dict(e) for e in ev], 'FloatTrace', par=1)
    ctx.assumptions += ['the table is finite and checked completely, in four build modes']
