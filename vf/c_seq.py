"""C01 vector sequence, C02 ownership of vector/valarray elements, C03 valarray."""
from core import *

MC = '''CONSTANTS N = %d Values = {0, 1} MaxLen = %d Valarray = %s
INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
PROPERTIES Independent SourceKept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
'''
TR = '''CONSTANTS N = %d Values = {0} MaxLen = 1 Valarray = %s
SPECIFICATION TraceSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
'''
RESET = {'op': 'reset'}


def gen(rng, n, length, valarray, big, caps=None):
    """A random script; lens mirrors only the lengths, to respect preconditions."""
    lens = [None] * (n + 1)
    out = []
    def drop(s):                  # destroyed as it is, or emptied first
        if lens[s] and rng.random() < .5:
            out.append(rng.choice([dict(op='clear', s=s), dict(op='resize', s=s, n=0), dict(op='resize', s=s, n=1), dict(op='assign', s=s, q=[])]))
        out.append(dict(op='del', s=s)); lens[s] = None
    cap = rng.choice(caps or ([3, 9, 20, 70] if big else [3, 6, 12, 20]))
    while len(out) < length:
        s = rng.randint(1, n)
        t = rng.randint(1, n)
        k = rng.random()
        x = rng.randint(-9, 99)
        L = lens[s]
        if L is None:
            if k < .5 or lens[t] is None or s == t:
                if valarray and rng.random() < .6:
                    z = rng.choice([0, 1, 2, 3, 5, cap]); out.append(dict(op='newsized', s=s, n=z)); lens[s] = z
                else:
                    out.append(dict(op='new', s=s)); lens[s] = 0
            else:
                c = rng.random() < .4
                out.append(dict(op='newtake' if c else 'newcopy', s=s, t=t)); lens[s] = lens[t]
                if c: lens[t] = None
            continue
        if not valarray and k < .35:
            if L < cap:
                if L and rng.random() < .3:
                    out.append(dict(op='pushown', s=s, i=rng.choice([0, L - 1, rng.randrange(L)])))
                else:
                    out.append(dict(op='push', s=s, x=x))
                lens[s] += 1
        elif k < .42:
            if L and not valarray:
                out.append(dict(op='pop', s=s)); lens[s] -= 1
        elif k < .52:
            z = rng.choice([0, L, L + 1, max(0, L - 1), 2 * L, rng.randint(0, cap)] + ([2**rng.randint(5, 13 if cap < 9999 else 17) + rng.randint(-1, 1)] * 9 if caps else []))
            z = min(z, cap); out.append(dict(op='resize', s=s, n=z)); lens[s] = z
        elif k < .64:
            if L:
                out.append(dict(op='erase', s=s, i=rng.choice([0, L - 1, rng.randrange(L)]))); lens[s] -= 1
        elif k < .67:
            out.append(dict(op='clear', s=s)); lens[s] = 0
        elif k < .72:
            if lens[t] is not None:
                out.append(dict(op='swap', s=s, t=t)); lens[s], lens[t] = lens[t], lens[s]
        elif k < .78:
            if lens[t] is not None:
                c = s != t and rng.random() < .3
                out.append(dict(op='takeassign' if c else 'copyassign', s=s, t=t)); lens[s] = lens[t]
                if c: lens[t] = None
        elif k < .86:
            if L:
                out.append(dict(op='write', s=s, i=rng.randrange(L), x=x, how=rng.randint(0, 3)))
        elif k < .90:
            q = [rng.randint(-9, 99) for _ in range(rng.choice([0, 1, 2, 4, cap]))]
            out.append(dict(op='assign', s=s, q=q)); lens[s] = len(q)
        elif k < .94:
            if lens[t] is not None and s != t:
                j = rng.randint(0, lens[t]); i = rng.randint(0, j)
                out.append(dict(op='assignfrom', s=s, t=t, i=i, j=j)); lens[s] = j - i
        elif k < .96:
            if L:
                out.append(dict(op='at', s=s, i=rng.randrange(L)))
        elif k < .975 and valarray:
            out.append(dict(op='sin', s=s))
        elif k > .985:
            drop(s)
    for s in range(1, n + 1):
        if lens[s] is not None:
            out.append(dict(op='del', s=s))
    return out


def run(ctx, kinds, types):
    exes = ctx.build_all([('seq.cc', dict(flags=['-DVALARRAY'] if v else [])) for v in kinds])
    for v, exe in zip(kinds, exes):
        V = 'TRUE' if v else 'FALSE'
        name = 'valarray ' if v else 'vector '
        edges = ctx.tlc_model('Vector', MC % (2, ctx.pick(2, 4) if len(types) > 1 else ctx.pick(3, 4), V), edges=True)
        for ty in types:
            w = ctx.path('w.sh')
            open(w, 'w').write('#!/bin/sh\nexec %s %s %d\n' % (exe, ty, 2))
            os.chmod(w, 0o755)
            dead = [dict(a=0, c=[], n=0, e=0, vw=0)] * 2
            replay_graph(ctx, w, edges, dict(v=dead, bad=0, lk=0), RESET, label=name + ty + ' ', max_len=200, limit=ctx.pick(60000, None))
            rng = ctx.rng(ty + V)
            runs = [gen(rng, 3, rng.choice([20, 60, 200]), v, True) for _ in range(ctx.pick(40, 400))]
            # a few long ones: every power of two up to 4096 is crossed
            runs += [gen(rng, 3, 24, v, True, [130, 600, 1100, 4100]) for _ in range(ctx.pick(16, 120))]
            if ty in ('int', 'char'):           # and very long ones
                runs += [gen(rng, 2, 10, v, True, [32768, 65536, 66000, 131073]) for _ in range(ctx.pick(3, 30))]
            w3 = ctx.path('w.sh')
            open(w3, 'w').write('#!/bin/sh\nexec %s %s %d\n' % (exe, ty, 3))
            os.chmod(w3, 0o755)
            validate_runs(ctx, w3, runs, 'VectorTrace', TR % (3, V), RESET, label=name + ty + ' ', par=ctx.pick(4, 8))
    ctx.assumptions += ['element types: ' + ', '.join(types) + ' (el = instrumented element registering every live address)',
                        'allocation failure and throwing element copies are not explored']


def c01(ctx):
    run(ctx, [False], ['int', 'double', 'el'])


def c02(ctx):
    run(ctx, [False, True], ['el'])


def c03(ctx):
    run(ctx, [True], ['int', 'double', 'el'])
