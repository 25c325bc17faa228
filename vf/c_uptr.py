"""C10 unique_ptr ownership, C11 unique_ptr comparisons."""
from core import *
from c_str import wrap
MC = '''CONSTANTS N = %d Objs = {%s} Dels = {%s} Derived = {%s} Converting = %s Comparisons = %s
INIT Init
NEXT Next
VIEW View
INVARIANTS OneOwner OwnedIffHeld
PROPERTIES DeletedOnce NoLeak
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
'''
TR = '''CONSTANTS N = %d Objs = {%s} Dels = {0} Derived = {%s} Converting = %s Comparisons = TRUE
SPECIFICATION TraceSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
'''
RESET = {'op': 'reset'}


def csv(xs):
    return ', '.join(map(str, xs))


def gen(rng, n, nd, nobj, length, dels, cmps, conv):
    a = [None] * (n + 1)          # None or owned object (0 none)
    loose, fresh = [], list(range(1, nobj + 1))
    rng.shuffle(fresh)
    out = []
    der = lambda i: i > n - nd
    holds = lambda i, o: not der(i) or (conv and o % 2 == 0)
    may = lambda s, t: der(s) == der(t) or (conv and not der(s) and der(t))

    def take(s):
        c = [o for o in (loose + fresh[:4]) if holds(s, o)]
        if not c: return None
        o = rng.choice(c)
        (loose if o in loose else fresh).remove(o)
        return o
    while len(out) < length:
        s, t = rng.randint(1, n), rng.randint(1, n)
        if a[s] is None:
            c = rng.random()
            if c < .2: out.append(dict(op='new', s=s, how=rng.randint(0, 1))); a[s] = 0
            elif c < .5 and a[t] is not None and may(s, t):
                out.append(dict(op='movenew', s=s, t=t)); a[s] = a[t]; a[t] = 0
            else:
                o = take(s)
                if o: out.append(dict(op='own', s=s, x=o, d=rng.choice(dels))); a[s] = o
            continue
        q = rng.random()
        if cmps and q < .5:
            if a[t] is not None: out.append(dict(op='cmp', s=s, t=t) if q < .38 else dict(op='cmpnull', s=s))
            continue
        q = rng.random()
        if q < .3:
            if a[t] is not None and may(s, t):
                out.append(dict(op='moveassign', s=s, t=t))
                if s != t: a[s] = a[t]; a[t] = 0
        elif q < .5:
            o = take(s)
            if o: out.append(dict(op='resetto', s=s, x=o)); a[s] = o
        elif q < .57: out.append(dict(op='resetnull', s=s, how=rng.randint(0, 1))); a[s] = 0
        elif q < .63: out.append(dict(op='null', s=s)); a[s] = 0
        elif q < .75:
            out.append(dict(op='release', s=s))
            if a[s]: loose.append(a[s])
            a[s] = 0
        elif q < .87:
            if a[t] is not None and der(s) == der(t):
                out.append(dict(op='swap', s=s, t=t, how=rng.randint(0, 1))); a[s], a[t] = a[t], a[s]
        elif q < .93: out.append(dict(op='del', s=s)); a[s] = None
        elif loose and q < .96:
            o = rng.choice(loose); loose.remove(o); out.append(dict(op='delloose', x=o))
    for s in range(1, n + 1):
        if a[s] is not None: out.append(dict(op='del', s=s))
    for o in loose: out.append(dict(op='delloose', x=o))
    return out


def run(ctx, kinds, cmps, mc):
    exe = ctx.build('uptr.cc')
    B = lambda b: 'TRUE' if b else 'FALSE'
    for kind, conv, dels in kinds:
        mn, mo = mc
        nd = 1 if conv else 0
        edges = ctx.tlc_model('UniquePtr', MC % (mn, csv(range(1, mo + 1)), csv(dels[:2]), csv([mn] if conv else []), B(conv), B(cmps)), edges=True)
        objs = ['0'] * mo
        init = dict(p=dict(v=[[0, 0, 0, 0]] * mn, live=0, bad=0), o=[0] * mo)
        replay_graph(ctx, wrap(ctx, exe, kind, mn, nd), edges, init, RESET, project=lambda x: x['p'], max_len=200, limit=ctx.pick(40000, None), label=kind + ' ')
        rng = ctx.rng(kind)
        n, nd, nobj = 5, (2 if conv else 0), 40
        runs = [gen(rng, n, nd, nobj, rng.choice([15, 40, 90]), dels, cmps, conv) for _ in range(ctx.pick(120, 1500))]
        validate_runs(ctx, wrap(ctx, exe, kind, n, nd), runs, 'UniquePtrTrace', TR % (n, csv(range(1, nobj + 1)), csv([4, 5] if conv else []), B(conv)), RESET, label=kind + ' ', par=4)


def c10(ctx):
    run(ctx, [('default', True, [0]), ('stateful', True, [1, 2, 3]), ('array', False, [1, 2, 3]), ('defarr', False, [0])], False, ctx.pick((3, 2), (3, 3)))


def c11(ctx):
    run(ctx, [('arena', False, [1]), ('arenaarr', False, [1])], True, ctx.pick((3, 2), (3, 3)))
