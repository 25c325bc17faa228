"""C04 string content, C05 string order."""
from core import *
MC = '''CONSTANTS N = %d Chars = {0, 97, 200} MaxLen = %d
INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
PROPERTY Independent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
'''
TR = '''CONSTANTS N = %d Chars = {97} MaxLen = 1
SPECIFICATION TraceSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
'''
ORD = '''CONSTANTS N = 1 Chars = {%s} MaxLen = %d
INIT OInit
NEXT ONext
CHECK_DEADLOCK FALSE
'''
RESET = {'op': 'reset'}
DEAD = dict(a=0, c=[], n=0, z=0, e=0, vw=0)


def chars(rng, n, nul=False):
    m = rng.choice([(0, 97), (0, 0, 97, 200), tuple(range(256))]) if nul and rng.random() < .4 else rng.choice([(97, 98), (1, 127, 128, 255), (32, 65, 97, 200), tuple(range(1, 256))])
    return [rng.choice(m) for _ in range(n)]


def gen(rng, n, length, cmp_weight, caps=(3, 9, 40, 140), top=300, nul=False):
    cs = lambda q: q.index(0) if 0 in q else len(q)
    any0 = [False] * (n + 1)             # may hold a NUL
    lens = [None] * (n + 1)
    out = []
    cap = rng.choice(caps)

    def put(s, n, z): lens[s] = n; any0[s] = z
    while len(out) < length:
        s, t, u = rng.randint(1, n), rng.randint(1, n), rng.randint(1, n)
        k = rng.random()
        L = lens[s]
        q = chars(rng, rng.choice([0, 1, 2, 3, min(cap, 17), cap]), nul)
        if L is None:
            c = rng.randint(0, 5)
            if c == 0: out.append(dict(op='new', s=s)); put(s, 0, False)
            elif c == 1: out.append(dict(op='newc', s=s, q=q)); put(s, cs(q), False)
            elif c == 2:
                z = rng.randint(0, len(q)); out.append(dict(op='newn', s=s, q=q, k=z)); put(s, z, 0 in q)
            elif c == 3:
                j = rng.randint(0, len(q)); i = rng.randint(0, j)
                out.append(dict(op='newr', s=s, q=q, i=i, j=j)); put(s, j - i, 0 in q)
            elif lens[t] is not None:
                out.append(dict(op='newcopy' if c == 4 else 'newtake', s=s, t=t)); put(s, lens[t], any0[t])
                if c == 5: put(t, None, False)
            continue
        if rng.random() < cmp_weight:
            if lens[t] is not None and rng.random() < .6:
                if not any0[s] and not any0[t]: out.append(dict(op='compare', s=s, t=t))
            elif not any0[s] and 0 not in q:
                out.append(dict(op='comparec', s=s, q=q))
            continue
        if k < .1: out.append(dict(op='assignc', s=s, q=q)); put(s, cs(q), False)
        elif k < .3:
            if L + len(q) <= top: out.append(dict(op='appendc', s=s, q=q)); lens[s] += cs(q)
        elif k < .45:
            if lens[t] is not None and L + lens[t] <= top: out.append(dict(op='append', s=s, t=t)); put(s, L + lens[t], any0[s] or any0[t])
        elif k < .55:
            if lens[t] is not None and lens[u] is not None and lens[t] + lens[u] <= top:
                out.append(dict(op='concat', s=s, t=t, u=u)); put(s, lens[t] + lens[u], any0[t] or any0[u])
        elif k < .63:
            if lens[t] is not None:
                c = s != t and rng.random() < .3
                out.append(dict(op='takeassign' if c else 'copyassign', s=s, t=t)); put(s, lens[t], any0[t])
                if c: put(t, None, False)
        elif k < .75:
            if L:
                x = chars(rng, 1, nul)[0]; any0[s] |= x == 0
                out.append(dict(op='write', s=s, i=rng.choice([0, L - 1, rng.randrange(L)]), x=x, how=rng.randint(0, 1)))
        elif k < .9:
            if L: out.append(dict(op='erase', s=s, i=rng.choice([0, L - 1, rng.randrange(L)]))); lens[s] -= 1
        elif k < .93: out.append(dict(op='clear', s=s)); put(s, 0, False)
        elif k > .97: out.append(dict(op='del', s=s)); put(s, None, False)
    for s in range(1, n + 1):
        if lens[s] is not None:
            out.append(dict(op='del', s=s))
    return out


def gen_runs(rng):
    """a long string as runs of equal characters, and a nearly equal one"""
    total = rng.choice([255, 256, 257, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 65600, 70000, 131072, rng.randint(1, 200000)])
    m = rng.choice([(97, 98), (1, 127, 128, 255), (65, 200)])
    cut = sorted({0, total} | {rng.randint(0, total) for _ in range(rng.randint(0, 5))})
    p = [[rng.choice(m), b - a] for a, b in zip(cut, cut[1:]) if b > a]
    flat = lambda r: sum(n for _, n in r)
    q = [list(x) for x in p]
    c = rng.randint(0, 5)
    if c == 0 and q: q[-1][1] -= 1                                   # one shorter
    elif c == 1: q.append([rng.choice(m), rng.choice([1, 2, 65536])])          # longer
    elif c >= 2 and q:                                              # one character changed, mostly far behind
        i = rng.choice([total - 1, total - 2, rng.randrange(total), max(0, total // 65536 * 65536 + rng.randint(-1, 1))])
        i = min(max(i, 0), total - 1)
        r, at = [], 0
        for ch, n in q:
            if at <= i < at + n:
                r += [[ch, i - at], [rng.choice([1, 99, 255, max(1, ch - 1)]), 1], [ch, at + n - i - 1]]
            else: r.append([ch, n])
            at += n
        q = r
    q = [x for x in q if x[1] > 0]
    return dict(op='runpair', p=p, q=q)


def wrap(ctx, exe, *args):
    w = ctx.path('w.sh')
    open(w, 'w').write('#!/bin/sh\nexec %s %s\n' % (exe, ' '.join(map(str, args))))
    os.chmod(w, 0o755)
    return w


def c04(ctx):
    exe = ctx.build('str.cc')
    edges = ctx.tlc_model('String', MC % (2, ctx.pick(2, 3)), edges=True)
    replay_graph(ctx, wrap(ctx, exe, 2), edges, dict(v=[DEAD] * 2, bad=0, lk=0), RESET, max_len=200)
    rng = ctx.rng()
    runs = [gen(rng, 3, rng.choice([30, 80, 200]), .03, nul=True) for _ in range(ctx.pick(100, 1500))]
    runs += [gen(rng, 3, 20, .1, (150, 260, 520, 1100, 4100), 9000, nul=True) for _ in range(ctx.pick(24, 200))]
    runs += [gen(rng, 2, 10, .1, (32768, 65500, 65536, 66000), 140000, nul=True) for _ in range(ctx.pick(4, 40))]
    validate_runs(ctx, wrap(ctx, exe, 3), runs, 'StringTrace', TR % 3, RESET, par=8)
    ctx.assumptions += ['characters 0..255 (C strings end at a NUL); strings up to 140000 characters in random runs']


def c05(ctx):
    exe = ctx.build('str.cc')
    w = wrap(ctx, exe, 2)
    n = 0
    for cs, ml in ctx.pick([('97, 98', 3), ('1, 127, 128, 255', 2)], [('97, 98', 4), ('1, 127, 128, 255', 3), ('1, 65, 97, 200, 255', 2)]):
        ps = ctx.tlc_model('StringOrder', ORD % (cs, ml), edges=True)
        got = ctx.run_script(w, [dict(op='pair', s=x['p'], t=x['q']) for x in ps])
        for x, g in zip(ps, got):
            if g['op'] == 'Crash':
                raise Violation('comparison crashed', dict(event=g))
            if g['res'] != x['res'] or g['rc'] != x['res']:
                raise Violation('comparison differs from the specification', dict(a=x['p'], b=x['q'], expected=x['res'], observed=g['res'], observed_cstr=g['rc']))
            n += 1
        ctx.sample(dict(kind='pair', a=ps[-1]['p'], b=ps[-1]['q'], res=ps[-1]['res']))
    ctx.add('pairs_compared', n)
    rng = ctx.rng()
    runs = [gen(rng, 3, rng.choice([30, 80]), .6) for _ in range(ctx.pick(100, 1500))]
    # nearly equal strings: copies with one change
    for _ in range(ctx.pick(60, 800)):
        q = chars(rng, rng.choice([1, 4, 9, 33, 120, 300, 1030]))
        r = list(q)
        i = rng.randrange(len(r))
        c = rng.randint(0, 3)
        if c == 0: r[i] = rng.choice([1, 127, 128, 255, max(1, r[i] - 1)])
        elif c == 1: r = r[:i]
        elif c == 2: r = r + chars(rng, 1)
        runs.append([dict(op='newc', s=1, q=q), dict(op='newc', s=2, q=r), dict(op='compare', s=1, t=2), dict(op='compare', s=2, t=1),
                     dict(op='comparec', s=1, q=r), dict(op='comparec', s=2, q=q), dict(op='compare', s=1, t=1), dict(op='del', s=1), dict(op='del', s=2)])
    runs.append([gen_runs(rng) for _ in range(ctx.pick(120, 3000))])
    validate_runs(ctx, wrap(ctx, exe, 3), runs, 'StringTrace', TR % 3, RESET, par=8)
