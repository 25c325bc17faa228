"""C06 map dictionary, C07 iteration and reference stability, C08 ownership, C09 cost."""
from core import *
from c_str import wrap
MC = '''CONSTANTS N = %d R = %d Keys = {%s} Values = {%s} MaxSize = %d
INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK AlwaysSorted RefsLive
PROPERTIES NothingVanishes InsertKeepsRefs Independent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
'''
TR = '''CONSTANTS N = %d R = %d Keys = {0} Values = {0} MaxSize = 1
SPECIFICATION TraceSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
'''
TREAP = '''CONSTANTS Keys = {%s} Pris = {%s}
INIT Init
NEXT Next
INVARIANTS SortedDictionary HeapOrder Lookups OrderIndependent
CHECK_DEADLOCK FALSE
'''
RESET = {'op': 'reset'}


def init(n, r):
    return dict(v=[dict(a=0, c=[], e=0, vw=0)] * n, r=[[]] * r, bad=0, lk=0)


def treap(ctx):
    k = ctx.pick(5, 6)
    s = ', '.join(map(str, range(1, k + 1)))
    ctx.tlc_model('Treap', TREAP % (s, s))


def order(rng, n, maxkey):
    ks = list(range(maxkey + 1))
    c = rng.randint(0, 4)
    if c == 0: ks.sort()
    elif c == 1: ks.sort(reverse=True)
    elif c == 2:
        z = []
        while ks:
            z.append(ks.pop(0))
            if ks: z.append(ks.pop())
        ks = z
    else: rng.shuffle(ks)
    return ks[:n]


def gen(rng, n, nr, length, maxkey, copies, saves):
    has = [None] * (n + 1)
    refs = [None] * (nr + 1)     # [slot, key or None for end]
    out = []
    pend = {}
    last = [0] * (n + 1)         # the key looked up most recently
    def again(s):                # after the tree has been replaced
        if rng.random() > .6: return
        op, k = rng.choice(['find', 'find', 'upper', 'index', 'insert']), last[s]
        out.append(dict(op=op, s=s, k=k, x=5) if op == 'insert' else dict(op=op, s=s, k=k))
        if op in ('index', 'insert'): has[s].add(k)
    while len(out) < length:
        s, t = rng.randint(1, n), rng.randint(1, n)
        if has[s] is None:
            if copies and has[t] is not None and s != t and rng.random() < .6:
                c = rng.random() < .4
                out.append(dict(op='newtake' if c else 'newcopy', s=s, t=t)); has[s] = set(has[t])
                if c: has[t] = None; refs = [None if z and z[0] == t else z for z in refs]
            else:
                out.append(dict(op='new', s=s)); has[s] = set()
            pend[s] = order(rng, rng.randint(0, maxkey + 1), maxkey)
            continue
        q = rng.random()
        k = last[s] if rng.random() < .15 else rng.randint(0, maxkey)
        x = rng.randint(-9, 99)
        if q < .35:
            if pend[s] and rng.random() < .8:
                k = pend[s].pop(0)
            out.append(dict(op='insert', s=s, k=k, x=x)); has[s].add(k)
        elif q < .42: out.append(dict(op='index', s=s, k=k)); has[s].add(k)
        elif q < .5: out.append(dict(op='setidx', s=s, k=k, x=x)); has[s].add(k)
        elif q < .58: out.append(dict(op='find', s=s, k=k))
        elif q < .68: k = rng.choice([k, maxkey, 0]); out.append(dict(op='upper', s=s, k=k))
        elif q < .9 and saves and nr:
            r, r2 = rng.randint(1, nr), rng.randint(1, nr)
            c = rng.randint(0, 8)
            if c <= 2 and has[s]:
                k = rng.choice(sorted(has[s])); out.append(dict(op='save', r=r, s=s, k=k, how=rng.randint(0, 2))); refs[r] = [s, k]
            elif c == 3:
                out.append(dict(op='savebegin', r=r, s=s)); refs[r] = [s, min(has[s]) if has[s] else None]
            elif c == 4 and rng.random() < .3:
                out.append(dict(op='saveend', r=r, s=s)); refs[r] = [s, None]
            elif c in (5, 6) and refs[r] and refs[r][1] is not None:
                out.append(dict(op='advance', r=r)); a, b = refs[r]
                up = [z for z in has[a] if z > b]; refs[r] = [a, min(up) if up else None]
            elif c == 7 and refs[r] and refs[r][1] is not None:
                out.append(dict(op='writeref', r=r, x=x))
            elif c == 8 and refs[r] and refs[r2] and refs[r][0] == refs[r2][0]:
                out.append(dict(op='equal', r=r, t=r2))
        elif q < .95 and copies:
            if has[t] is not None:
                c = s != t and rng.random() < .3
                out.append(dict(op='takeassign' if c else 'copyassign', s=s, t=t))
                if s != t:
                    has[s] = set(has[t]); refs = [None if z and z[0] in ((s, t) if c else (s,)) else z for z in refs]
                    if c: has[t] = None
                again(s)
        elif q > .985 or (copies and q > .96):
            out.append(dict(op='del', s=s)); has[s] = None; refs = [None if z and z[0] == s else z for z in refs]
        if q < .68: last[s] = k
    for s in range(1, n + 1):
        if has[s] is not None:
            out.append(dict(op='del', s=s))
    return out


def run(ctx, kinds, mode, n, nr, mc, copies, saves, nruns):
    exe = ctx.build('map.cc')
    treap(ctx)
    keys, vals, size, mn, mr = mc
    edges = ctx.tlc_model('Map', MC % (mn, mr, keys, vals, size), edges=True)
    for kind in kinds:
        replay_graph(ctx, wrap(ctx, exe, kind, mn, mr, mode, 9), edges, init(mn, mr), RESET, max_len=200, limit=ctx.pick(40000, None), label=kind + ' ')
        rng = ctx.rng(kind)
        for maxkey, share in ((6, .4), (25, .4), (60, .2), (300, .1)):
            runs = [gen(rng, n, nr, rng.choice([20, 60, 150] if maxkey < 99 else [350]), maxkey, copies, saves) for _ in range(int(nruns * share))]
            # The state is read by find() in half of the runs and by iteration in the other half:
            # reading by find() after every step would keep any cached lookup fresh.
            for m, part in (('find', runs[::2]), ('iter', runs[1::2])):
                validate_runs(ctx, wrap(ctx, exe, kind, n, nr, m, maxkey), part, 'MapTrace', TR % (n, nr), RESET, label='%s keys<=%d by %s ' % (kind, maxkey, m), par=4)


def perms(ctx, kinds, mode):
    """Every insertion order of 5 (6) keys on the real map, with lookups after each insertion."""
    import itertools
    exe = os.path.join(ctx.dir, '001-h')
    n = ctx.pick(5, 6)
    runs = []
    for p in itertools.permutations(range(n)):
        sc = [dict(op='new', s=1)]
        for i, k in enumerate(p):
            sc.append(dict(op='insert', s=1, k=2 * k, x=i + 1))
            if i >= 2:
                sc.append(dict(op='insert', s=1, k=2 * p[i // 2], x=77))
        for k in range(2 * n):
            sc.append(dict(op='upper', s=1, k=k))
        sc.append(dict(op='del', s=1))
        runs.append(sc)
    for kind in kinds:
        validate_runs(ctx, wrap(ctx, exe, kind, 1, 0, mode, 2 * n), runs, 'MapTrace', TR % (1, 0), RESET, label='%s all orders ' % kind, par=8)


def c06(ctx):
    run(ctx, ['int', 'str'], 'find', 2, 0, ('0, 1, 2', '0, 5', 3, 1, 0), True, False, ctx.pick(60, 600))
    perms(ctx, ['int', 'el'], 'find')


def c07(ctx):
    run(ctx, ['int', 'el', 'str'], 'iter', 2, 4, ('0, 1, 2' if not ctx.thorough else '0, 1, 2, 3', '5', 3 if not ctx.thorough else 4, 1, 2), False, True, ctx.pick(60, 600))
    perms(ctx, ['int'], 'iter')


def c08(ctx):
    run(ctx, ['el', 'str'], 'find', 3, 2, ('0, 1', '0, 5', 2, 2, 1) if not ctx.thorough else ('0, 1, 2', '0, 5', 3, 2, 1), True, True, ctx.pick(60, 600))


def c09(ctx):
    exe = ctx.build('map.cc', san=False, flags=['-O2'])
    treap(ctx)
    rng = ctx.rng()
    seqs = []
    sizes = ctx.pick([1, 2, 3, 7, 16, 33, 100, 500, 2000, 20000], [1, 2, 3, 5, 9, 17, 33, 64, 200, 1000, 5000, 30000, 200000])
    for n in sizes:
        asc = list(range(n))
        zig = [(i // 2 if i % 2 == 0 else n - 1 - i // 2) for i in range(n)]
        inner = list(reversed(zig))
        rnd = asc[:]
        rng.shuffle(rnd)
        b = max(1, n.bit_length())
        rev = sorted(asc, key=lambda i: int(bin(i)[2:].zfill(b)[::-1], 2))
        half = [i for i in asc if i % 2 == 0] + [i for i in asc if i % 2]
        blocks = [i for j in range(0, n, 50) for i in reversed(asc[j:j + 50])]
        for name, o in (('ascending', asc), ('descending', asc[::-1]), ('zigzag', zig), ('inside-out', inner), ('random', rnd), ('bit-reversed', rev), ('even-odd', half), ('reversed blocks', blocks)):
            seqs.append((name, o))
    def one(ss):
        text = ''.join('build %d %s\n' % (len(o), ' '.join(map(str, o))) for _, o in ss)
        return ctx.run_raw(exe, text, timeout=300, args=['cost'])
    groups = [seqs[i::NCPU] for i in range(NCPU)]
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(one, groups))
    evs = []
    for g, (rc, o, er) in zip(groups, rs):
        lines = o.splitlines()
        if rc != 0 or len(lines) != len(g):
            bad = g[min(len(lines), len(g) - 1)]
            raise Violation('building a map of %d keys in %s order crashed or did not finish' % (len(bad[1]), bad[0]), dict(rc=str(rc), err=er[-300:]))
        for (name, _), l in zip(g, lines):
            for r in json.loads(l)['r']:
                r['order'] = name
                evs.append(r)
    ok, k, out = ctx.tlc_trace('MapCostTrace', 'SPECIFICATION Spec\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n', evs)
    if not ok:
        raise Violation('number of key comparisons outside the logarithmic bound', dict(event=evs[k]))
    ctx.add('traces_validated_against_impl', len(seqs))
    ctx.add('cost_measurements', len(evs))
    ctx.sample(max(evs, key=lambda e: e['max']))
