"""C12 optional, C13 variant, C14 any, C15 expected."""
from core import *
from c_str import wrap
RESET = {'op': 'reset'}
T = lambda b: 'TRUE' if b else 'FALSE'
EXC = ['-DNANOSTL_ENABLE_EXCEPTION']
GRAPH = '''INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
PROPERTIES Independent ReadsDoNotWrite
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
'''
TRACE = '''SPECIFICATION TraceSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
'''
# ---------------------------------------------------------------- optional
OPT = 'CONSTANTS N = %d Values = {%s} MoveMarks = %s Throws = %s Counted = %s\n'


def gen_opt(rng, n, length, kind, throws):
    a = [None] * (n + 1)         # None dead, else [engaged]
    out = []
    while len(out) < length:
        s, t = rng.randint(1, n), rng.randint(1, n)
        x = rng.randint(0, 99)
        th = 1 if throws and rng.random() < .15 else 0
        how = rng.randint(0, 1)
        if a[s] is None:
            c = rng.randint(0, 4)
            if c == 0: out.append(dict(op='new', s=s, t=s, how=how)); a[s] = 0
            elif c == 1:
                how = rng.randint(0, 4)
                if how in (1, 4): th = 0
                out.append(dict(op='newval', s=s, x=x, how=how, th=th))
                if not th: a[s] = 1
            elif c == 2:
                k = rng.randint(0, 1); th &= k
                out.append(dict(op='newconv', s=s, k=k, x=x, how=how, th=th))
                if not th: a[s] = k
            elif a[t] is not None and s != t:
                if c == 3:
                    th &= a[t]; out.append(dict(op='newcopy', s=s, t=t, th=th))
                    if not th: a[s] = a[t]
                else: out.append(dict(op='newmove', s=s, t=t)); a[s] = a[t]
            continue
        q = rng.random()
        if q < .06: out.append(dict(op=rng.choice(['null', 'clear']), s=s)); a[s] = 0
        elif q < .16:
            how = rng.randint(0, 2)
            if how == 1: th = 0
            out.append(dict(op='setval', s=s, x=x, how=how, th=th))
            if not th: a[s] = 1
        elif q < .26 and a[t] is not None:
            th &= a[t]; out.append(dict(op='setcopy', s=s, t=t, th=th))
            if not th: a[s] = a[t]
        elif q < .36 and a[t] is not None and s != t: out.append(dict(op='setmove', s=s, t=t)); a[s] = a[t]
        elif q < .43:
            k = rng.randint(0, 1); th &= k
            out.append(dict(op='setconv', s=s, k=k, x=x, how=how, th=th))
            if not th: a[s] = k
        elif q < .50:
            out.append(dict(op='emplace', s=s, x=x, y=rng.randint(0, 9), th=th)); a[s] = 0 if th else 1
        elif q < .58 and a[t] is not None: out.append(dict(op='swap', s=s, t=t, how=how)); a[s], a[t] = a[t], a[s]
        elif q < .64 and a[s]: out.append(dict(op='write', s=s, x=x, how=how))
        elif q < .68: out.append(dict(op='del', s=s)); a[s] = None
        elif q < .73: out.append(dict(op='value', s=s, how=rng.randint(0, 3)))
        elif q < .78 and a[s]: out.append(dict(op='deref', s=s, how=rng.randint(0, 3)))
        elif q < .83: out.append(dict(op='valueor', s=s, x=x, how=how))
        elif q < .90 and a[t] is not None: out.append(dict(op='cmp', s=s, t=t))
        elif q < .94: out.append(dict(op='cmpnull', s=s))
        elif kind != 'str': out.append(dict(op='cmpval', s=s, x=x))
    for s in range(1, n + 1):
        if a[s] is not None: out.append(dict(op='del', s=s))
    return out


def c12(ctx):
    exe = ctx.build('opt.cc', flags=EXC)
    n = ctx.pick(2, 3)
    for kind in ('ob', 'obt', 'int', 'double', 'str'):
        ob = kind.startswith('ob')
        consts = lambda m, vals: OPT % (m, vals, T(ob), T(ob), T(ob))
        if kind in ('ob', 'int'):            # 'obt' replays the graph of 'ob'
            edges = ctx.tlc_model('Optional', consts(n, '1, 2') + GRAPH, edges=True)
        if kind in ('ob', 'obt', 'int'):
            replay_graph(ctx, wrap(ctx, exe, kind, n), edges, dict(v=[[0, 0, 0, 0]] * n, live=0, bad=0), RESET,
                         max_len=200, limit=ctx.pick(40000, 400000), label=kind + ' ')
        rng = ctx.rng(kind)
        runs = [gen_opt(rng, 4, rng.choice([20, 60, 150]), kind, ob) for _ in range(ctx.pick(80, 800))]
        validate_runs(ctx, wrap(ctx, exe, kind, 4), runs, 'OptionalTrace', consts(4, '0') + TRACE, RESET, label=kind + ' ', par=4)


# ---------------------------------------------------------------- variant
VAR = 'CONSTANTS N = %d K = %d Values = {%s} MarkAlts = {%s} CountAlts = {%s} UnitAlts = {%s} Throws = %s Lean = %s\n'
VKINDS = {  # kind: (KIND, alternatives, alternatives marked by moves, alternatives counted)
    'ob': (0, 16, range(1, 17), range(1, 17)), 'obt': (1, 16, range(1, 17), range(1, 17)),
    'mix': (2, 11, (4, 9), (4, 9)), 'three': (3, 3, (1,), (1,)),
    'mono': (4, 3, (2,), (2,))}   # the first alternative is monostate
seq = lambda xs: ', '.join(map(str, xs))


def gen_var(rng, n, length, kmax, throwing):
    """throwing: alternatives whose copies can be made to throw.  The generator does not know
    whether a throwing operation leaves a value, so from then on it treats the slot as unsure (-1)."""
    a = [None] * (n + 1)
    out = []
    hot = rng.sample(range(1, kmax + 1), min(kmax, rng.choice([2, 3, 16])))
    while len(out) < length:
        s, t = rng.randint(1, n), rng.randint(1, n)
        k, x, how = rng.choice(hot), rng.randint(0, 99), rng.randint(0, 1)
        want = rng.random() < .15
        th = 1 if want and k in throwing else 0
        if a[s] is None:
            c = rng.randint(0, 3)
            if c == 0: out.append(dict(op='new', s=s)); a[s] = 1
            elif c == 1:
                how = rng.randint(0, 3); th &= how != 1
                out.append(dict(op='newval', s=s, k=k, x=x, how=how, th=int(th)))
                if not th: a[s] = k
            elif a[t] is not None and s != t:
                if c == 2:
                    th = int(want and a[t] in throwing)
                    out.append(dict(op='newcopy', s=s, t=t, th=th))
                    if not th: a[s] = a[t]
                else: out.append(dict(op='newmove', s=s, t=t)); a[s] = a[t]
            continue
        q = rng.random()
        if q < .18:
            th &= how != 1
            out.append(dict(op='setval', s=s, k=k, x=x, how=how, th=int(th)))
            a[s] = k if not th or a[s] == k else -1
        elif q < .30 and a[t] is not None:
            th = int(want and a[t] in throwing and s != t)
            out.append(dict(op='setcopy', s=s, t=t, th=th))
            a[s] = a[t] if not th or a[s] == a[t] else -1
        elif q < .40 and a[t] is not None: out.append(dict(op='setmove', s=s, t=t)); a[s] = a[t]
        elif q < .52:
            out.append(dict(op='emplace', s=s, k=k, x=x, how=how, th=th)); a[s] = -1 if th else k
        elif q < .62 and a[t] is not None: out.append(dict(op='swap', s=s, t=t, how=how)); a[s], a[t] = a[t], a[s]
        elif q < .66 and a[s] > 0: out.append(dict(op='write', s=s, k=a[s], x=x))
        elif q < .72: out.append(dict(op='del', s=s)); a[s] = None
        elif q < .80: out.append(dict(op='get', s=s, k=a[s] if a[s] > 0 and how else k))
        elif q < .86 and a[s] > 0: out.append(dict(op='visit1', s=s))
        elif q < .92 and a[s] > 0 and a[t] and a[t] > 0: out.append(dict(op='visit2', s=s, t=t))
        elif a[t] is not None: out.append(dict(op='cmp', s=s, t=t))
    for s in range(1, n + 1):
        if a[s] is not None: out.append(dict(op='del', s=s))
    return out


def c13(ctx):
    exes = ctx.build_all([('var.cc', dict(flags=EXC + ['-DKIND=%d' % k[0]], out=ctx.path('v%d' % k[0]))) for k in VKINDS.values()])
    graph = GRAPH.replace('TypeOK', 'TypeOK AlwaysOne')
    for kind, exe in zip(VKINDS, exes):
        _, k, mark, count = VKINDS[kind]
        unit = '1' if kind == 'mono' else ''
        n, vals = (2, '1' if k > 4 and not ctx.thorough else '1, 2') if kind not in ('three', 'mono') else (2, ctx.pick('1, 2', '1, 2, 3'))
        if kind != 'obt':                       # 'obt' replays the graph of 'ob'
            edges = ctx.tlc_model('Variant', VAR % (n, k, vals, seq(mark), seq(count), unit, 'FALSE', T(not ctx.thorough)) + graph, edges=True)
        if kind != 'obt' or ctx.thorough:
          replay_graph(ctx, wrap(ctx, exe, kind, n), edges, dict(v=[[0] * 5] * n, live=0, bad=0), RESET,
                     max_len=300, limit=ctx.pick(120000, 700000), label=kind + ' ')
        rng = ctx.rng(kind)
        runs = [gen_var(rng, 4, rng.choice([20, 60, 150]), k, count) for _ in range(ctx.pick(80, 1000))]
        validate_runs(ctx, wrap(ctx, exe, kind, 4), runs, 'VariantTrace',
                      VAR % (4, k, '0', seq(mark), seq(count), unit, 'TRUE', 'FALSE') + TRACE, RESET, label=kind + ' ', par=4)


# ---------------------------------------------------------------- any
ANY = 'CONSTANTS N = %d K = %d Values = {%s} CountTypes = {2, 3} Throws = %s\n'


def gen_any(rng, n, length, kmax):
    a = [None] * (n + 1)
    out = []
    hot = rng.sample(range(1, kmax + 1), min(kmax, rng.choice([2, 3, 16])))
    while len(out) < length:
        s, t = rng.randint(1, n), rng.randint(1, n)
        k, x, how = rng.choice(hot), rng.randint(0, 99), rng.randint(0, 1)
        want = rng.random() < .15
        th = int(want and k in (2, 3))
        if a[s] is None:
            c = rng.randint(0, 3)
            if c == 0: out.append(dict(op='new', s=s)); a[s] = 0
            elif c == 1:
                how = rng.randint(0, 3); th &= how != 1
                out.append(dict(op='newval', s=s, k=k, x=x, how=how, th=int(th)))
                if not th: a[s] = k
            elif a[t] is not None and s != t:
                if c == 2:
                    th = int(want and a[t] in (2, 3))
                    out.append(dict(op='newcopy', s=s, t=t, th=th))
                    if not th: a[s] = a[t]
                else: out.append(dict(op='newmove', s=s, t=t)); a[s], a[t] = a[t], 0
            continue
        q = rng.random()
        if q < .18:
            th &= how != 1
            out.append(dict(op='setval', s=s, k=k, x=x, how=how, th=int(th)))
            if not th: a[s] = k
        elif q < .32 and a[t] is not None:
            th = int(want and a[t] in (2, 3) and s != t)
            out.append(dict(op='setcopy', s=s, t=t, th=th))
            if not th: a[s] = a[t]
        elif q < .42 and a[t] is not None:
            out.append(dict(op='setmove', s=s, t=t))
            if s != t: a[s], a[t] = a[t], 0
        elif q < .54: out.append(dict(op='emplace', s=s, k=k, x=x, th=th)); a[s] = -1 if th else k
        elif q < .60: out.append(dict(op='clear', s=s)); a[s] = 0
        elif q < .72 and a[t] is not None: out.append(dict(op='swap', s=s, t=t, how=how)); a[s], a[t] = a[t], a[s]
        elif q < .77 and a[s] > 0: out.append(dict(op='write', s=s, k=a[s], x=x, how=how))
        elif q < .83: out.append(dict(op='del', s=s)); a[s] = None
        else: out.append(dict(op='cast', s=s, k=a[s] if a[s] > 0 and how else k))
    for s in range(1, n + 1):
        if a[s] is not None: out.append(dict(op='del', s=s))
    return out


def c14(ctx):
    exe = ctx.build('any.cc', flags=EXC, extra_src=[os.path.join(HARN, 'any2.cc')])
    n, k = 2, 12
    edges = ctx.tlc_model('Any', ANY % (n, k, ctx.pick('1', '1, 2'), 'FALSE') + GRAPH, edges=True)
    replay_graph(ctx, wrap(ctx, exe, n), edges, dict(v=[[0] * 5] * n, live=0, bad=0), RESET, max_len=300, limit=ctx.pick(100000, 1000000))
    if ctx.thorough:
        edges = ctx.tlc_model('Any', ANY % (3, 3, '1', 'FALSE') + GRAPH, edges=True)
        replay_graph(ctx, wrap(ctx, exe, 3), edges, dict(v=[[0] * 5] * 3, live=0, bad=0), RESET, max_len=300, limit=1000000, label='three ')
    rng = ctx.rng()
    runs = [gen_any(rng, 4, rng.choice([20, 60, 150]), k) for _ in range(ctx.pick(150, 2000))]
    validate_runs(ctx, wrap(ctx, exe, 4), runs, 'AnyTrace', ANY % (4, k, '0', 'TRUE') + TRACE, RESET, par=4)


# ---------------------------------------------------------------- expected
EXP = 'CONSTANTS N = %d Values = {%s} IsVoid = %s MoveMarks = %s Counted = %s Throws = %s\n'


def gen_exp(rng, n, length, void, throws, conv):
    a = [None] * (n + 1)
    out = []
    cp = lambda k: throws and not (void and k == 1)
    while len(out) < length:
        s, t = rng.randint(1, n), rng.randint(1, n)
        k, x, how = rng.randint(0, 1), rng.randint(0, 99), rng.randint(0, 1)
        want = rng.random() < .15
        if a[s] is None:
            c = rng.randint(0, 4)
            if c == 0: out.append(dict(op='new', s=s)); a[s] = 1
            elif c == 1:
                how = rng.randint(0, 2); th = int(want and how != 1 and cp(k))
                out.append(dict(op='newval', s=s, k=k, x=x, how=how, th=th))
                if not th: a[s] = k
            elif c == 2 and conv: out.append(dict(op='newconv', s=s, k=k, x=x, how=how)); a[s] = k
            elif a[t] is not None and s != t:
                if c == 3:
                    th = int(want and cp(a[t])); out.append(dict(op='newcopy', s=s, t=t, th=th))
                    if not th: a[s] = a[t]
                else: out.append(dict(op='newmove', s=s, t=t)); a[s] = a[t]
            continue
        q = rng.random()
        if q < .16:
            th = int(want and how != 1 and cp(k))
            out.append(dict(op='setval', s=s, k=k, x=x, how=how, th=th))
            if not th: a[s] = k
        elif q < .28 and a[t] is not None:
            th = int(want and cp(a[t])); out.append(dict(op='setcopy', s=s, t=t, th=th))
            if not th: a[s] = a[t]
        elif q < .37 and a[t] is not None: out.append(dict(op='setmove', s=s, t=t)); a[s] = a[t]
        elif q < .43: out.append(dict(op='emplace', s=s, x=x)); a[s] = 1
        elif q < .55 and a[t] is not None: out.append(dict(op='swap', s=s, t=t, how=how)); a[s], a[t] = a[t], a[s]
        elif q < .60 and not (void and a[s]): out.append(dict(op='write', s=s, k=a[s], x=x))
        elif q < .65: out.append(dict(op='del', s=s)); a[s] = None
        elif q < .70: out.append(dict(op='value', s=s, how=rng.randint(0, 3)))
        elif q < .74 and not void: out.append(dict(op='deref', s=s, how=rng.randint(0, 3)))
        elif q < .78: out.append(dict(op='error', s=s, how=rng.randint(0, 3)))
        elif q < .82 and not a[s]: out.append(dict(op='unexp', s=s))
        elif q < .87 and not void: out.append(dict(op='valueor', s=s, x=x, how=how))
        elif q < .92 and a[t] is not None: out.append(dict(op='cmp', s=s, t=t))
        elif q < .96 and not void: out.append(dict(op='cmpval', s=s, x=x))
        else: out.append(dict(op='cmperr', s=s, x=x))
    for s in range(1, n + 1):
        if a[s] is not None: out.append(dict(op='del', s=s))
    return out


def c15(ctx):
    exes = ctx.build_all([('exp.cc', dict(flags=EXC + ['-DKIND=%d' % i], out=ctx.path('e%d' % i))) for i in (0, 1)])
    n = ctx.pick(2, 3)
    graphs = {}
    for kind in ('ob', 'obt', 'same', 'int', 'void', 'voidt'):
        void, ob = kind.startswith('void'), kind != 'int'
        exe = exes[int(void)]
        consts = lambda m, vals, thr: EXP % (m, vals, T(void), T(ob), T(ob), T(thr))
        c = consts(n, '1, 2', ob)
        if c not in graphs:
            graphs[c] = ctx.tlc_model('Expected', c + GRAPH, edges=True)
        replay_graph(ctx, wrap(ctx, exe, kind, n), graphs[c], dict(v=[[0] * 4] * n, live=0, bad=0), RESET, max_len=300,
                     limit=ctx.pick(40000, 400000), label=kind + ' ')
        rng = ctx.rng(kind)
        runs = [gen_exp(rng, 4, rng.choice([20, 60, 150]), void, ob, not void) for _ in range(ctx.pick(80, 800))]
        validate_runs(ctx, wrap(ctx, exe, kind, 4), runs, 'ExpectedTrace', consts(4, '0', ob) + TRACE, RESET, label=kind + ' ', par=4)
