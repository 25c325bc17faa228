"""C19 siphash, C20 hash and less, C21 algorithms, C37 memcpy."""
from core import *
from c_num import ch, validate

RESET = {'op': 'reset'}


def c19(ctx):
    ctx.tlc_model('SipHashModel', 'CONSTANT MaxLen = %d\nINIT Init\nNEXT Next\nINVARIANTS Vectors Bytes\nCHECK_DEADLOCK FALSE\n' % ctx.pick(40, 300))
    exe = ctx.build('sip.cc', extra_src=[REPO + '/src/hash.cc'])
    rng = ctx.rng('sip')
    ev = []
    by = lambda n, k: [[0] * n, [255] * n, [rng.getrandbits(8) for _ in range(n)], [rng.choice([0, 127, 128, 255]) for _ in range(n)], list(range(n))][k] if k < 4 else [x & 255 for x in range(n)]
    def add(n, msg, key=None):
        ev.append(dict(op='sip', i=rng.randrange(8), j=rng.randrange(8), m=rng.randrange(8), k=key or by(16, 2), n=n, q=msg))
    for n in (8, 16):
        for ln in list(range(0, 73)) + [127, 128, 129, 255, 256, 257, 263, 511, 512, 520]:
            for k in (range(5) if ln < 40 or ctx.thorough else (0, 1, 2)):
                add(n, by(ln, k), by(16, rng.randrange(5)))
        for ln in range(1, 17):                       # every single bit of message and key matters
            for bit in range(ln * 8) if ctx.thorough else rng.sample(range(ln * 8), min(8, ln * 8)):
                m = [0] * ln; m[bit // 8] = 1 << bit % 8
                add(n, m)
        for bit in range(128):
            k = [0] * 16; k[bit // 8] = 1 << bit % 8
            add(n, by(rng.randrange(20), 2), k)
        for _ in range(ctx.pick(200, 4000)):
            add(n, by(rng.randrange(120), rng.choice([2, 3])), by(16, rng.choice([2, 3])))
        for ln in ctx.pick([2049, 4095, 32768 + rng.randrange(8), 65536 + rng.randrange(8), 131072 + rng.randrange(8)], [2049, 4103, 65536, 65543, 131072, 131079, 262147, 524293]):
            add(n, by(ln, 2))
    validate(ctx, exe, ev, 'SipHashTrace', size=400)
    ctx.assumptions += ['message lengths up to 128 KiB (512 KiB thorough); little-endian host']


KINDS = {'bool': (1, 0, 1), 'schar': (1, -128, 127), 'uchar': (1, 0, 255), 'short': (1, -32768, 32767), 'ushort': (1, 0, 65535),
         'int': (2, -2**31, 2**31 - 1), 'uint': (2, 0, 2**32 - 1), 'long': (4, -2**63, 2**63 - 1), 'ulong': (4, 0, 2**64 - 1),
         'llong': (4, -2**63, 2**63 - 1), 'ullong': (4, 0, 2**64 - 1)}


def c20(ctx):
    from c_num import fpats, decfloats
    exe = ctx.build('hash.cc')
    rng = ctx.rng('hash')
    ev = []
    n = ctx.pick(4000, 60000)
    sets = {}
    for ty, (c, lo, hi) in KINDS.items():
        bits = 16 * c
        if hi - lo < 70000:
            vs = list(range(lo, hi + 1))
        else:
            s = {lo, hi, 0, -1 if lo else 1}
            for k in range(bits):
                s.update([2**k, 2**k - 1, 2**k + 1, -2**k, 2**bits - 2**k, -2**k - 1])
                s.update((1 << k | 1 << rng.randrange(bits)) for _ in range(8))
            b = rng.getrandbits(bits)
            s.update(b ^ 1 << k for k in range(bits)); s.update(b ^ (1 << k | 1 << j) for k in range(bits) for j in range(k) if rng.random() < .2)
            s.update(x << (bits // 2) for x in range(200)); s.update(range(-300, 300)); s.update(x * 2**32 + 5 for x in range(300)); s.update(x * (2**32 + 1) for x in range(300))
            while len(s) < n:
                s.add(rng.getrandbits(rng.randint(1, bits)))
            vs = sorted({v for v in s if lo <= v <= hi} | {v - 2**bits for v in s if lo < 0 and lo <= v - 2**bits <= hi and v > hi})
        sets[ty] = (c, [ch(v & (2**(16 * c) - 1), c) for v in vs])
    f = sorted(set(fpats(rng, 23, 8, ctx.pick(16, 200))) | decfloats(rng, False, n // 4) | {0, 1 << 31} | {1 << k for k in range(32)} | {1 << 31 | 1 << k for k in range(31)})
    d = sorted(set(fpats(rng, 52, 11, ctx.pick(2, 16))) | decfloats(rng, True, n // 4) | {0, 1 << 63} | {1 << k for k in range(64)} | {1 << 63 | 1 << k for k in range(63)} | {v << 32 for v in range(300)} | {0x3ff00000 << 32 | v for v in range(300)})
    sets['float'] = (2, [ch(v, 2) for v in f])
    sets['double'] = (4, [ch(v, 4) for v in d])
    sets['nullptr'] = (1, [[0]])
    for ty, (c, vs) in sets.items():
        vs = vs + rng.sample(vs, min(len(vs), 300))     # repeated calls
        rng.shuffle(vs)
        ev.append(dict(op='hash', ty=ty, q=vs))
    for ty in list(KINDS) + ['float', 'double', 'rev']:
        c, vs = sets['int' if ty == 'rev' else ty]
        vs.sort()
        prs = [[a, b] for a in vs[:40] + vs[-40:] for b in rng.sample(vs, min(len(vs), 8))]
        prs += [[a, b] for a, b in zip(vs, vs[1:])][:4000] + [[b, a] for a, b in zip(vs, vs[1:])][:1500]
        prs += [[a, a] for a in rng.sample(vs, min(len(vs), 100))]
        z = [x for x in vs if all(y == 0 for y in x) or x[0] in (32767, 32768, 65535, 0x7f80, 0xff80, 0x7ff0, 0xfff0) ][:60]
        prs += [[a, b] for a in z for b in z]
        prs += [[rng.choice(vs), rng.choice(vs)] for _ in range(ctx.pick(1500, 20000))]
        for i in range(0, len(prs), 2000):
            ev.append(dict(op='less', ty=ty, q=prs[i:i + 2000]))
    validate(ctx, exe, ev, 'HashTrace', size=20)
    ctx.samples[:] = [dict(kind='requests', events=[dict(e, q=e['q'][:20]) for e in ev[:5]])]
    ctx.assumptions += ['8 and 16 bit types exhaustively; wider types on boundary, single-bit, two-bit and random values; NaN excluded from equality']


ALGO = """CONSTANTS N = %d Values = {%s} Tag = %d Hows = {%s}
INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK LoopsRight
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
ALGOT = """CONSTANTS N = %d Values = {0} Tag = %d Hows = {0}
SPECIFICATION TraceSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
"""


def gen_algo(rng, n, length, vals, hows):
    out = []
    for _ in range(length):
        i, j = sorted((rng.randint(1, n + 1), rng.randint(1, n + 1)))
        p, q = rng.randint(1, n), rng.randint(1, n)
        how = rng.choice(hows)
        k = rng.random()
        if k < .10: out.append(dict(op='min', i=p, j=q))
        elif k < .20: out.append(dict(op='max', i=p, j=q))
        elif k < .40: out.append(dict(op='maxel', i=i, j=j, how=how))
        elif k < .46: out.append(dict(op='fill', i=i, j=min(j, i + rng.choice([rng.randint(0, 6), n if n > 99 else 0])), x=vals(rng), how=how if how != 3 else 0))
        elif k < .50: out.append(dict(op='fillown', i=i, j=min(j, i + rng.choice([rng.randint(0, 6), n if n > 99 else 0])), k=p, how=how if how != 3 else 0))
        elif k < .56: out.append(dict(op='dist', i=rng.choice([i, j]), j=rng.choice([i, j]), how=how if how not in (2, 4) else 0))
        elif k < .60: out.append(dict(op='far', i=rng.choice([0, 0, 1, 2, 3, 4, 7, 8, rng.randrange(2**14)]), j=rng.choice([0, 1, 2**15, 2**16, 2**29, 2**30 - 1, rng.randrange(2**30)]), d=rng.randint(0, 1), how=rng.randint(0, 3)))
        elif k < .70: out.append(dict(op='swap', i=p, j=q))
        else: out.append(dict(op='write', i=p, x=vals(rng)))
    return out


def c21(ctx):
    from c_str import wrap
    exe, exe17 = ctx.build_all([('algo.cc', dict(out=ctx.path('a11'))), ('algo.cc', dict(flags=['-std=c++17', '-DPSTL'], out=ctx.path('a17')))])
    for kind, tag, vals, x, hows in (('pk', 10, '10, 11, 20', exe, '0, 1, 2, 3'), ('int', 1, '1, 2', exe17, '0, 2, 3, 4')):
        n = ctx.pick(3, 4)
        edges = ctx.tlc_model('Algo', ALGO % (n, vals, tag, hows), edges=True)
        edges = [e for e in edges if not (e['ev'].get('how') == 4 and e['ev']['op'] in ('maxel', 'dist'))]
        replay_graph(ctx, wrap(ctx, x, kind, n), edges, dict(v=[0] * n, guard=[0, 0], live=0, bad=0), RESET, max_len=300, limit=ctx.pick(60000, 500000), label=kind + ' ')
    rng = ctx.rng('algo')
    for kind, tag, x, hows, f in (('pk', 10, exe, (0, 1, 2, 3), lambda r: r.randint(0, 79)), ('int', 1, exe, (0, 1, 2, 3), lambda r: r.choice([-2**31, 2**31 - 1, r.randint(-5, 5), r.randint(-10**9, 10**9)])),
                                  ('schar', 1, exe, (0, 1, 2, 3), lambda r: r.randint(-128, 127)), ('double', 1, exe17, (0, 2, 4), lambda r: r.randint(-9, 9))):
        for n, cnt, lens in ((24, ctx.pick(40, 500), [30, 100]), (300, ctx.pick(8, 60), [25]), (5000, ctx.pick(2, 8), [12])):
            if n > 999 and kind not in ('int', 'double'): continue
            runs = [gen_algo(rng, n, rng.choice(lens), f, hows) for _ in range(cnt)]
            for r in runs:
                if n > 999:     # one extreme among equals, at many places
                    hows_ = [h for h in hows if h < 3]
                    for i in [1, 2, 1024, 1025, 1026, 2048, 2049, 4096, 4097, n - 1, n] + [rng.randint(1, n) for _ in range(ctx.pick(2, 20))]:
                        lo, hi = sorted((f(rng), f(rng)))
                        r += [dict(op='fill', i=1, j=n + 1, x=lo, how=rng.choice(hows_)), dict(op='write', i=i, x=hi), dict(op='maxel', i=1, j=n + 1, how=rng.choice(hows_))]
                elif n > 99:      # a varied array first
                    r[:0] = [dict(op='write', i=rng.randint(1, n), x=f(rng)) for _ in range(30)]
                for e in r:
                    if e.get('how') == 4 and e['op'] in ('maxel', 'dist', 'far'): e['how'] = 0
            validate_runs(ctx, wrap(ctx, x, kind, n), runs, 'AlgoTrace', ALGOT % (n, tag), RESET, label='%s %d ' % (kind, n), par=2)


MEM = """CONSTANTS Size = %d Values = {%s}
INIT Init
NEXT Next
VIEW View
INVARIANTS Normal
PROPERTIES CopyRight
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
MEMT = """CONSTANTS Size = %d Values = {}
SPECIFICATION TraceSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
"""


def gen_mem(rng, size, length, runs):
    out = []
    for _ in range(length):
        if rng.random() < .4:
            k = rng.randint(1, runs)
            cut = sorted(rng.randint(0, min(size, runs * 8)) for _ in range(k))
            q = [[rng.choice([0, 1, 127, 128, 255, rng.getrandbits(8)]), b - a] for a, b in zip([0] + cut, cut) if b > a]
            n = sum(c for _, c in q)
            out.append(dict(op='put', i=rng.randint(0, size - n), q=q))
        else:
            n = rng.choice([rng.randint(0, 17), rng.randint(0, size // 2), rng.choice([1, 2, 4, 8, 16, 32, 64])])
            al = rng.random() < .5
            if al: n = max(0, n // 8 * 8 + rng.choice([0, 0, 1, 7, -1, 2]))
            n = min(n, size // 2)
            lo = rng.randint(0, size - 2 * n)
            hi = rng.choice([lo + n, size - n, rng.randint(lo + n, size - n)])
            if al and hi // 8 * 8 - lo // 8 * 8 >= n: lo, hi = lo // 8 * 8, hi // 8 * 8      # both word-aligned
            out.append(dict(op='copy', i=lo, j=hi, n=n) if rng.random() < .5 else dict(op='copy', i=hi, j=lo, n=n))
    return out


def c37(ctx):
    from c_str import wrap
    exe, big = ctx.build_all([('mem.cc', dict(out=ctx.path('m'))), ('mem.cc', dict(out=ctx.path('mh'), san=False, flags=['-O2']))])
    n = ctx.pick(6, 7)
    edges = ctx.tlc_model('Mem', MEM % (n, ctx.pick('1, 2', '1, 2, 3')), edges=True)
    replay_graph(ctx, wrap(ctx, exe, n), edges, [[0, n]], RESET, max_len=400, limit=ctx.pick(100000, 1000000))
    rng = ctx.rng('mem')
    for size, ln, runs, k in ((64, 60, 12, ctx.pick(60, 800)), (300, 60, 30, ctx.pick(40, 500)), (70001, 30, 60, ctx.pick(8, 80)), (140001, 30, 60, ctx.pick(4, 40))):
        validate_runs(ctx, wrap(ctx, exe, size), [gen_mem(rng, size, ln, runs) for _ in range(k)], 'MemTrace', MEMT % size, RESET, label='%d bytes ' % size, par=2)
    validate_runs(ctx, wrap(ctx, big, 'huge'), [[dict(op='huge', q=[[1, 3], [2, 1], [255, 40], [7, rng.randint(1, 99)]])]], 'MemTrace', MEMT % 8, RESET, label='4 GiB ', par=1)
    ctx.assumptions += ['non-overlapping buffers, as the interface requires; every size and offset pair of a small arena, random sizes up to 70000 bytes and one copy of more than 4 GiB']
