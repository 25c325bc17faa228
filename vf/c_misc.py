"""C25 pair and tuple, C26 stringstream, C27 ratio, C28 type traits."""
import concurrent.futures, shutil, struct
from core import *
from c_str import wrap
from c_num import ch
RESET = {'op': 'reset'}
TRACE = '''SPECIFICATION TraceSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
'''
# ---------------------------------------------------------------- pair and tuple
TUP = 'CONSTANTS N = %d K = %d Values = {%s} Marks = {%s} Zeros = {%s} Counted = {%s} Weak = {%s} Pair = %s\n'
TGRAPH = '''INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK Total Transitive
PROPERTIES Independent ReadsDoNotWrite
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
'''
# kind: arity, marked, zero, counted positions, values (chars of strings), default constructed strings
KINDS = {'pint': (2, (), (), ()), 'pob': (2, (1, 2), (), (1, 2)), 'pmix': (2, (), (), ()),
         't1': (1, (1,), (), (1,)), 't2': (2, (1, 2), (), (1, 2)), 'tint': (2, (), (), ()), 't3': (3, (1, 2, 3), (), (1, 2, 3)),
         'tmix': (4, (2,), (), (2,)), 'temp': (4, (4,), (1, 3), (4,)), 'pwk': (2, (), (), ()), 'twk': (3, (), (), ()),
         't12': (12, (1, 3, 6, 8, 10, 12), (7,), (1, 3, 6, 8, 10, 12))}
WEAK = {'pwk': (1, 2), 'twk': (1, 2)}
STRS = {'pmix': 1, 'tmix': 3}       # position of a string component: it has no default value 0


def gen_tup(rng, n, length, kind):
    k, marks, zeros, counted = KINDS[kind]
    pair = kind[0] == 'p'
    a = [False] * (n + 1)
    out = []
    hi = rng.choice([1, 2, 5, 99])
    val = lambda: rng.randint(0, hi)
    q = lambda: [0 if i in zeros else val() for i in range(1, k + 1)]
    while len(out) < length:
        s, t, i = rng.randint(1, n), rng.randint(1, n), rng.randint(1, k)
        r = rng.random()
        if k > 4 and r > .9 and a[s] and a[t] and s != t and i not in zeros:     # equal but for one position
            h = rng.randint(0, 1)
            out += [dict(op='setcopy', s=s, t=t), dict(op='write', s=s, i=i, x=val(), how=0), dict(op='cmp', s=s, t=t, how=h), dict(op='cmp', s=t, t=s, how=h)]
        elif r < .04:
            kk, how = rng.randint(0, 4), rng.randint(0, 1)
            if not (how and kk in (1, 4)): out.append(dict(op='fwd', k=kk, how=how))
        elif r < .06: out.append(dict(op='mov', k=rng.randint(0, 1), how=rng.randint(0, 1)))
        elif r < .07: out.append(dict(op='movnx', k=rng.randint(0, 2)))
        elif not a[s]:
            c = rng.randint(0, 5)
            if c == 0:
                if kind in STRS: continue
                out.append(dict(op='new', s=s)); a[s] = True
            elif c <= 2: out.append(dict(op='newvals', s=s, q=q(), how=rng.randint(0, 2 if pair else 4))); a[s] = True
            elif a[t]: out.append(dict(op='newcopy' if c < 5 else 'newmove', s=s, t=t)); a[s] = True
        elif r < .12: out.append(dict(op='del', s=s)); a[s] = False
        elif r < .25:
            if a[t]: out.append(dict(op='setcopy', s=s, t=t))
        elif r < .32:
            if a[t] and s != t: out.append(dict(op='setmove', s=s, t=t))
        elif r < .42:
            if a[t]: out.append(dict(op='swap', s=s, t=t, how=0 if pair else rng.randint(0, 1)))
        elif r < .52:
            if i not in zeros: out.append(dict(op='write', s=s, i=i, x=val(), how=0 if pair else rng.randint(0, 2)))
        elif r < .58: out.append(dict(op='get', s=s, i=i, how=rng.randint(0, 1 if pair else 7)))
        elif r < .62: out.append(dict(op='take', s=s, i=i))
        elif r < .78:
            if a[t]: out.append(dict(op='cmp', s=s, t=t, how=0 if pair else rng.randint(0, 1)))
        elif pair: pass
        elif r < .85: out.append(dict(op='setvals', s=s, q=q(), how=rng.randint(0, 1)))
        elif r < .90:
            ig = rng.randint(0, k)
            if ig != STRS.get(kind): out.append(dict(op='tie', s=s, i=ig, how=rng.randint(0, 1)))
        elif r < .95:
            if a[t]: out.append(dict(op='cat', s=s, t=t, how=rng.randint(0, 1)))
        else: out.append(dict(op='refs', s=s))
    for s in range(1, n + 1):
        if a[s]: out.append(dict(op='del', s=s))
    return out


def c25(ctx):
    exes = ctx.build_all([('tup.cc', dict(flags=['-std=c++' + v])) for v in ('11', '17')])
    cs = lambda xs: ', '.join(map(str, xs))
    for kind, (k, marks, zeros, counted) in KINDS.items():
        pair = kind[0] == 'p'
        consts = lambda n, vals: TUP % (n, k, vals, cs(marks), cs(zeros), cs(counted), cs(WEAK.get(kind, ())), 'TRUE' if pair else 'FALSE')
        if kind in ('pob', 'pint', 't1', 't2', 'temp', 'pwk') or ctx.thorough and kind == 't3':
            vals = '1, 3' if kind in WEAK else '1, 2' if k <= 2 else '1'
            edges = ctx.tlc_model('Tuple', consts(2, vals) + TGRAPH, edges=True)
            for exe in exes[:ctx.pick(1, 2)]:
                replay_graph(ctx, wrap(ctx, exe, kind, 2), edges, dict(v=[[]] * 2, live=0, bad=0), RESET, max_len=200,
                             limit=ctx.pick(30000, 600000), label=kind + ' ')
        rng = ctx.rng(kind)
        for exe in exes:
            runs = [gen_tup(rng, 4, rng.choice([20, 60, 150]), kind) for _ in range(ctx.pick(40, 500))]
            validate_runs(ctx, wrap(ctx, exe, kind, 4), runs, 'TupleTrace', consts(4, '0') + TRACE, RESET, label=kind + ' ', par=4)
    ctx.assumptions += ['tuples of one to four and of twelve components (plain, instrumented, empty class and string components), compiled as C++11 and C++17',
                        'allocator-extended construction and throwing components are not explored']


# ---------------------------------------------------------------- stringstream
SS = 'CONSTANTS N = %d Chars = {%s} MaxLen = %d\n'
SGRAPH = '''INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
PROPERTIES Independent Accumulates
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
'''


def gen_ss(rng, n, length, top=2000):
    a = [None] * (n + 1)
    out = []
    cap = rng.choice([3, 9, 40, 300]) if top == 2000 else top // 4
    al = rng.choice([(97, 98, 200, 1, 127, 10, 37), (0, 97), (0, 97, 98, 200, 255)])
    text = lambda z=None: [rng.choice(al) for _ in range(rng.choice([0, 1, 2, 5, 17, cap]) if z is None else z)]
    while len(out) < length:
        s, t, r = rng.randint(1, n), rng.randint(1, n), rng.random()
        if a[s] is None: out.append(dict(op='new', s=s)); a[s] = 0
        elif a[s] > top or r < (.05 if top == 2000 else .01): out.append(dict(op='clear', s=s)); a[s] = 0
        elif r < .35: q = text(); h = rng.randint(0, 2); out.append(dict(op='ins', s=s, q=q, how=h)); a[s] += q.index(0) if h == 2 and 0 in q else len(q)
        elif r < .45: q, p = text(), text(); out.append(dict(op='ins2', s=s, q=q, p=p)); a[s] += len(q) + len(p)
        elif r < .55:
            if a[t] is not None and a[s] + a[t] < top * 1.5: out.append(dict(op='insstr', s=s, t=t)); a[s] += a[t]
        elif r < .65:
            if a[t] is not None and s != t: out.append(dict(op='move', s=s, t=t)); a[s], a[t] = a[t], 0
        elif r < .75: out.append(dict(op='str', s=s))
        elif r < .9:
            how = rng.randint(0, 2); q = text(1 if how == 2 else None)
            if how == 2 and not a[s]: continue
            out.append(dict(op='thru', s=s, i=rng.randint(1, a[s]) if how == 2 else 1, q=q, how=how))
            a[s] = len(q) if how == 0 else a[s] + (len(q) if how == 1 else 0)
        elif r < .93: out.append(dict(op='del', s=s)); a[s] = None
    for s in range(1, n + 1):
        if a[s] is not None: out.append(dict(op='del', s=s))
    return out


def c26(ctx):
    exe = ctx.build('ss.cc', flags=['-DNANOSTL_IMPLEMENTATION'])
    edges = ctx.tlc_model('StringStream', SS % (2, '0, 97, 200', ctx.pick(2, 3)) + SGRAPH, edges=True)
    replay_graph(ctx, wrap(ctx, exe, 2), edges, dict(v=[[0, [], 0, 0, 0]] * 2, bad=0), RESET, max_len=200, limit=ctx.pick(40000, 600000))
    rng = ctx.rng()
    runs = [gen_ss(rng, 3, rng.choice([20, 60, 150])) for _ in range(ctx.pick(100, 1000))]
    runs += [gen_ss(rng, 2, 20, 12000) for _ in range(ctx.pick(8, 60))]
    runs += [gen_ss(rng, 2, 8, 140000) for _ in range(ctx.pick(2, 20))]
    validate_runs(ctx, wrap(ctx, exe, 3), runs, 'StringStreamTrace', SS % (3, '0', 1) + TRACE, RESET)
    ctx.assumptions += ['texts up to some 200000 characters, with NUL characters', 'moving a stringstream onto itself is excluded']


# ---------------------------------------------------------------- ostream
OS = '''CONSTANTS N = %d Chars = {%s} MaxLen = %d
'''
OGRAPH = '''INIT OInit
NEXT ONext
VIEW View
INVARIANT TypeOK
PROPERTIES Conserved Independent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
'''


def gen_os(rng, n, length):
    a = [1] + [None] * (n - 1)          # a[s]: constructed, and whether text may be pending
    out = []
    wd = (1, 1, 1, 2, 2, 4, 4, 2, 4)
    alpha = rng.choice([(97, 98), (37, 100, 115, 110), (10, 32, 92, 34), tuple(range(1, 256))])

    def text():
        return [rng.choice(alpha) for _ in range(rng.choice([0, 1, 2, 5, rng.randint(0, 40), rng.choice([5, 300])]))]

    def val(k):
        if k == 0: return [rng.randint(0, 1)]
        b = 16 * wd[k]
        v = rng.choice([0, 1, 2**b - 1, 2**(b - 1), 2**(b - 1) - 1, rng.getrandbits(b), rng.getrandbits(b), rng.getrandbits(rng.randint(1, b)), (2**b - rng.getrandbits(rng.randint(1, b))) % 2**b])
        if k == 7 and rng.random() < .5: v = struct.unpack('<I', struct.pack('<f', rng.randint(-999, 999) / 8))[0]
        if k == 8 and rng.random() < .5: v = struct.unpack('<Q', struct.pack('<d', rng.randint(-99999, 99999) / 100))[0]
        return [(v >> (16 * i)) & 65535 for i in reversed(range(wd[k]))]
    while len(out) < length:
        s = rng.randint(1, n)
        if a[s - 1] is None:
            out.append(dict(op='new', s=s)); a[s - 1] = 1
            continue
        r = rng.random()
        if r < .3: out.append(dict(op='txt', s=s, q=text(), how=rng.randint(0, 3)))
        elif r < .4: out.append(dict(op='txt2', s=s, q=text(), p=text()))
        elif r < .65:
            k = rng.randint(0, 8); out.append(dict(op='num', s=s, k=k, w=val(k)))
        elif r < .8:
            k = rng.randint(0, 8); out.append(dict(op='mix', s=s, q=text(), k=k, w=val(k), p=text()))
        elif r < .97: out.append(dict(op='flush', s=s))
        elif s > 1: out += [dict(op='flush', s=s), dict(op='del', s=s)]; a[s - 1] = None
    return out + [dict(op='flush', s=s) for s in range(1, n + 1) if a[s - 1] is not None]


def c41(ctx):
    cxx = next((c for c in ('clang++-18', 'clang++') if shutil.which(c)), None)
    if not cxx: raise CheckError('no clang++')
    exe = ctx.build('os.cc', flags=['-UNANOSTL__NULLPTR'], cxx=cxx, extra_src=[os.path.join(HARN, 'os2.cc')])
    edges = ctx.tlc_model('OStream', OS % (2, '97, 37', ctx.pick(2, 3)) + OGRAPH, edges=True)
    fresh = [dict(a=1, c=[]), dict(a=0, c=[])]
    replay_graph(ctx, wrap(ctx, exe, 2), edges, fresh, RESET, project=lambda s: dict(said=[], bad=0), max_len=200, limit=ctx.pick(40000, 600000))
    rng = ctx.rng()
    runs = [gen_os(rng, 3, rng.choice([20, 60, 150])) for _ in range(ctx.pick(60, 600))]
    validate_runs(ctx, wrap(ctx, exe, 3), runs, 'OStreamTrace', OS % (3, '0', 1) + TRACE, RESET)
    ctx.assumptions += ['clang only: the header refuses other compilers', 'NUL-free texts', 'a stream is destroyed only with nothing pending', 'one thread']


# ---------------------------------------------------------------- ratio
SI = dict(atto=-18, femto=-15, pico=-12, nano=-9, micro=-6, milli=-3, centi=-2, deci=-1, deca=1, hecto=2, kilo=3, mega=6, giga=9, tera=12, peta=15, exa=18)


def sgn(v):
    return [(v > 0) - (v < 0), ch(abs(v), 4)]


def bezout(a, b):
    """x, y >= 0 with a * x - b * y = +-1, for coprime a, b."""
    x0, x1, y0, y1 = 1, 0, 0, 1
    p, q = a, b
    while q:
        k = p // q
        p, q = q, p - k * q
        x0, x1, y0, y1 = x1, x0 - k * x1, y1, y0 - k * y1
    return abs(x0), abs(y0)


def c27(ctx):
    from math import gcd
    edges = ctx.tlc_model('Ratio', 'CONSTANT Max = %d\nSPECIFICATION Spec\nINVARIANTS TypeOK Exact Unique\nPROPERTY Ends\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n' % ctx.pick(12, 25), edges=True)
    want = {(e['n'], e['d']): (e['num'], e['den']) for e in edges}
    rng = ctx.rng()
    top = 2**63 - 1
    nd = set(want)
    fib = [1, 2]
    while fib[-1] + fib[-2] <= top: fib.append(fib[-1] + fib[-2])
    while len(nd) < len(want) + ctx.pick(1500, 20000):
        r = rng.random()
        v = lambda: min(top, max(1, rng.choice([rng.getrandbits(rng.randint(1, 63)), 2**rng.randint(0, 62), 10**rng.randint(0, 18), top - rng.randint(0, 3), 2**31 + rng.randint(-2, 2),
                                               2**32 + rng.randint(-2, 2), rng.choice(fib), rng.randint(1, 100)])))
        n, d = v(), v()
        if r < .4:      # a common factor
            g = rng.choice([v(), rng.getrandbits(32) | 1, rng.randint(1, 1000)])
            n, d = n * g, d * g
            if n > top or d > top: n, d = n % (top // g) // g * g or g, d % (top // g) // g * g or g
        elif r < .5: n = d
        elif r < .55: n = 0
        if 0 <= n <= top and 0 < d <= top: nd.add((n * rng.choice((1, -1)), d * rng.choice((1, -1))))
    rows = sorted(nd) + sorted(SI)
    rng.shuffle(rows)
    parts = chunks(rows, NCPU)
    progs = []
    for k, c in enumerate(parts):
        p = ctx.path('ratio%d.cc' % k)
        with open(p, 'w') as f:
            f.write('#include "ratio.h"\nEntry rows[] = {\n')
            for r in c:
                f.write('{row<nanostl::%s>},\n' % (r if isinstance(r, str) else 'ratio<%dLL, %dLL>' % r if r[1] != 1 else 'ratio<%dLL>' % r[0]))
            f.write('};\nconst int nrows = sizeof(rows) / sizeof(rows[0]);\n')
        progs.append(p)
    exes = ctx.build_all([(p, dict(base=['-std=c++' + ('11', '17')[k % 2], '-w', '-O0', '-iquote', REPO + '/include', '-I', HARN], san=False, out=p + '.exe')) for k, p in enumerate(progs)])
    num = lambda x: x[0] * (x[1][0] << 48 | x[1][1] << 32 | x[1][2] << 16 | x[1][3])
    scripts = []
    for k, c in enumerate(parts):
        s = []
        for i, r in enumerate(c):
            if isinstance(r, str): s.append(dict(op='si', i=i, _k=SI[r]))
            else:
                g = gcd(*r)
                x, y = bezout(abs(r[0]) // g, abs(r[1]) // g)
                s.append(dict(op='ratio', i=i, _n=sgn(r[0]), _d=sgn(r[1]), _x=ch(x, 4), _y=ch(y, 4)))
        scripts.append(s)
        for r, g in zip(c, ctx.run_script(exes[k], s)):
            if r in want and g['op'] == 'ratio':
                ctx.add('replayed_transitions', 1)
                if (num(g['res'][0]), num(g['res'][1])) != want[r]:
                    raise Violation('a ratio is not the reduced fraction', dict(n=r[0], d=r[1], expected=want[r], observed=[num(x) for x in g['res']]))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda k: validate_runs(ctx, exes[k], [scripts[k]], 'RatioTrace', TRACE, RESET, par=1), range(len(parts))))
    ctx.assumptions += ['%d fractions: all with |N|, |D| <= %d, and sampled ones of every size up to 2^63 - 1; INT64_MIN, which the standard rules out, is not used' % (len(nd), ctx.pick(12, 25)),
                        'ratio arithmetic and comparisons are not provided by the library']


# ---------------------------------------------------------------- type traits
BASES = ('void bool char schar uchar wchar c16 c32 short ushort int uint long ulong ll ull float double ldouble E EC Empty Data Der Fin Uni Abs Poly MovO FromI '
         'Exp ToI Thr NoD CMem').split()
TNAME = dict(ushort='ushort_', uint='uint_', ulong='ulong_')
TCON = dict(c='C_', v='V_', p='P_', l='L_', r='R_', a0='A0_', a2='A2_', a3='A3_', f='F_', fi='FI_', fc='FC_', mo='M_')


def cxxtype(t):
    return ''.join(TCON[k] + '<' for k in t[:-1]) + TNAME.get(t[-1], t[-1]) + '>' * (len(t) - 1)


def flatptr(t):
    """The spec's Flat: composite pointers deeper than one level are left open."""
    t = list(t)
    if t[0] in 'lr': t = t[1:]
    if t[0] in ('a0', 'a2', 'a3'): t = ['p'] + t[1:]
    while t[0] in 'cv': t = t[1:]
    if t[0] == 'mo': return False
    if t[0] == 'p':
        t = t[1:]
        while t[0] in 'cv': t = t[1:]
        while t[0] in ('a0', 'a2', 'a3'): return False
        return t[0] not in ('p', 'mo')
    return True


def dec(t):
    t = list(t)
    if t[0] in 'lr': t = t[1:]
    while t[0] in 'cv': t = t[1:]
    return tuple(t)


def trait_program(ctx, rows, name):
    p = ctx.path(name + '.cc')
    with open(p, 'w') as f:
        f.write('#include "traits.h"\nEntry rows[] = {\n')
        for r in rows:
            if r[0] == 'store': f.write(('{store<%d, %d>},\n' % r[1:]) if r[2] else '{store0<%d>},\n' % r[1])
            elif len(r) == 1: f.write('{row<%s>},\n' % cxxtype(r[0]))
            else: f.write('{pairrow<%s, %s, %s>},\n' % (cxxtype(r[0]), cxxtype(r[1]), 'true' if r[2] else 'false'))
        f.write('};\nconst int nrows = sizeof(rows) / sizeof(rows[0]);\n')
    return p


TYPES = 'CONSTANTS Depth = %d\nRoots = {%s}\n'


def c28(ctx):
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    inv = 'INVARIANTS OneCategory Composite Idempotent Undoing CollapsesReferences Decayed Ordered\nCHECK_DEADLOCK FALSE\nVIEW View\nINIT Init\nNEXT Next\n'
    # every type up to a depth over every base, with what the standard prescribes; deeper ones over fewer bases
    edges = ctx.tlc_model('Types', TYPES % (ctx.pick(2, 3), q(BASES + ['Inc'])) + inv + 'ACTION_CONSTRAINT Emit\n', edges=True)
    deep = ctx.tlc_model('Types', TYPES % (ctx.pick(3, 4), q(['int', 'Data', 'void', 'EC'])) + inv + 'ACTION_CONSTRAINT Emit\n', edges=True)
    ctx.tlc_model('TypePairs', TYPES % (2, q(['int', 'void', 'bool', 'E', 'Data', 'FromI', 'ToI', 'MovO'][:ctx.pick(4, 8)])) +
                  'INIT PInit\nNEXT PNext\nVIEW PView\nINVARIANTS ReflexiveConv AgreesWithUnary ConvConstructs CommonSymmetric ToCommon\nCHECK_DEADLOCK FALSE\n')
    want = {}
    for e in edges + deep:
        want[tuple(e['to'])] = e['res']
    rng = ctx.rng()
    types = sorted(t for t in want if t != ('Inc',) and not (t[-1] == 'Inc' and set(t[:-1]) <= set('cv')))
    base = [(b,) for b in BASES]
    two = [t for t in types if len(t) <= 3]
    rest = [t for t in types if len(t) > 3]
    n = ctx.pick(500, 6000)
    first = two if ctx.thorough else rng.sample(two, min(len(two), 1300))
    pick = base + first + rng.sample(rest, min(len(rest), n))
    # pairs: related types more often than chance
    small = base + [t for t in two if not (t[0] in ('a0', 'a2', 'a3') and 'p' in t)]
    by = {}
    for t in small: by.setdefault(t[-1], []).append(t)
    pairs = set()
    kin = [('int', 'bool'), ('int', 'E'), ('int', 'FromI'), ('ToI', 'int'), ('int', 'Exp'), ('ToI', 'FromI'), ('Data', 'Der'), ('Der', 'Data'), ('double', 'FromI'), ('ToI', 'double'),
           ('int', 'void'), ('Data', 'void'), ('E', 'double'), ('E', 'EC'), ('ToI', 'Exp'), ('void', 'int'), ('E', 'FromI'), ('EC', 'Exp'), ('bool', 'Exp')]
    arith = [b for b in BASES if b in ('E',) or BASES.index(b) in range(1, 19)]
    while len(pairs) < ctx.pick(4000, 40000):
        r = rng.random()
        if r < .45: a = rng.choice(sorted(by)); b = a
        elif r < .75: a, b = rng.choice(kin)
        elif r < .9: a, b = rng.choice(sorted(by)), rng.choice(sorted(by))
        else:
            a, b = (rng.choice(arith),), (rng.choice(arith),)
            pairs.add((a, b)); continue
        f, t = rng.choice(by[a]), rng.choice(by[b])
        if f[-1] == 'Inc' or t[-1] == 'Inc' or f != t and ('a0' in f + t): continue
        pairs.add((f, t))
    progs = []
    spec = lambda f, t: flatptr(f) and flatptr(t) and {dec(f), dec(t)} != {('ToI',), ('E',)}
    rows = [(t,) for t in pick] + [(f, t, spec(f, t)) for f, t in sorted(pairs)]
    rows += [('store', n, k) for n in list(range(1, 70)) + [127, 128, 1000] for k in (0, 1, 2, 4, 8, 16, 32, 64)]
    rows += [('store', n, 2 ** k) for n in (1, 100, 5000) for k in range(5, 15)]
    rng.shuffle(rows)
    parts = chunks(rows, NCPU * ctx.pick(1, 4))
    for k, c in enumerate(parts): progs.append(trait_program(ctx, c, 'types%d' % k))
    base_flags = ['-std=c++17', '-w', '-O0', '-iquote', REPO + '/include', '-I', HARN]
    exes = ctx.build_all([(p, dict(base=base_flags, san=False, out=p + '.exe', timeout=800)) for p in progs])

    def one(k):
        script = [dict(RESET)]
        for i, r in enumerate(parts[k]):
            if r[0] == 'store': script.append(dict(op='store', i=i, _n=r[1], _k=r[2]))
            else: script.append(dict(op='row', i=i, _tt=list(r[0])) if len(r) == 1 else dict(op='pair', i=i, _ff=list(r[0]), _tt=list(r[1])))
        return exes[k], script
    # direction 1: what TLC computed for the types it built is what the compiler yields
    def play(k):
        exe, script = one(k)
        got = ctx.run_script(exe, script)
        for r, g in zip(parts[k], got[1:]):
            if len(r) == 1 and tuple(r[0]) in want and g['op'] == 'row' and (g['res'] != want[tuple(r[0])] or g['st'] != list(r[0])):
                diff = {x: (want[tuple(r[0])][x], g['res'].get(x)) for x in want[tuple(r[0])] if want[tuple(r[0])][x] != g['res'].get(x)}
                raise Violation('a type trait yields something else than the specification', dict(type=list(r[0]), cxx=cxxtype(r[0]), expected_observed=diff))
        return sum(1 for r in parts[k] if len(r) == 1)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        ctx.add('replayed_transitions', sum(ex.map(play, range(len(parts)))))
    # direction 2: every recorded row, types and pairs, is accepted by the specification
    def val(k):
        exe, script = one(k)
        validate_runs(ctx, exe, [script[1:]], 'TypesTrace', TYPES % (1, '"int"') + TRACE, RESET, par=1)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(val, range(len(parts))))
    ctx.assumptions += ['types built by up to %d constructors over %d base types (all of depth 1, samples deeper), %d type rows and %d pairs' % (ctx.pick(3, 4), len(BASES), len(pick), len(pairs)),
                        'C++17, g++; nullptr_t, which the library replaces by a class of its own, bit-precise and extension types are not covered',
                        'conversions between arrays of known and unknown bound (they differ between C++ editions) and composite pointer types below the first level are left open']


# ---------------------------------------------------------------- compile-time integer sequences
SEQT = ('schar', 'short', 'int', 'uint', 'long', 'sz', 'll', 'ull')
CPPT = dict(uint='uint_')


def seq_expr(e):
    """the C++ expression of one request"""
    op, ty, q, p, i = e['op'], e['ty'], e['q'], e['p'], e['i']
    t = [CPPT.get(x, x) for x in ty]
    S = lambda k, v: 'tao::seq::integer_sequence<%s>' % ', '.join([t[k]] + [str(x) for x in v])
    a = ', '.join([t[0]] + [str(x) for x in q]) if t else ''
    how = e['how']           # the two spellings: from a sequence, or from a list of values
    if op == 'make': return 'seq<tao::seq::make_integer_sequence<%s, %d>>' % (t[0], i)
    if op == 'makeidx': return 'idx<tao::seq::make_index_sequence<%d>>' % i
    if op == 'idxfor': return 'idx<tao::seq::index_sequence_for<%s>>' % ', '.join(CPPT.get(x, x) for x in ty)
    if op == 'seq': return 'seq<%s>' % S(0, q)
    if op == 'sum': return 'con<tao::seq::sum<%s>>' % (S(0, q) if how else a)
    if op == 'part': return 'con<tao::seq::partial_sum<%d, %s>>' % (i, S(0, q) if how else a)
    if op == 'sel': return 'con<tao::seq::select<%d, %s>>' % (i, S(0, q) if how else a)
    if op in ('excl', 'incl'):
        n = 'tao::seq::%sclusive_scan' % op[:2]
        return 'seq<typename %s<%s>::type>' % (n, S(0, q)) if how else 'seq<%s_t<%s>>' % (n, a)
    if op in ('plus', 'minus'): return 'seq<%s>' % (('tao::seq::%s_t<%s, %s>' if how else 'typename tao::seq::%s<%s, %s>::type') % (op, S(0, q), S(1, p)))
    if op == 'times': return 'seq<%s>' % (('tao::seq::zip_t<times, %s, %s>' if how else 'typename tao::seq::zip<times, %s, %s>::type') % (S(0, q), S(1, p)))
    if op == 'map': return 'seq<tao::seq::map_t<tao::seq::index_sequence<%s>, %s>>' % (', '.join(map(str, p)), S(0, q))
    if op == 'all': return 'con<tao::seq::is_all<%s>>' % ', '.join('true' if x else 'false' for x in q)
    if op == 'at': return 'typ<tao::seq::at_index_t<%d, %s>>' % (i, ', '.join(t))


def c39(ctx):
    ctx.tlc_model('MakeSeq', 'CONSTANT Max = %d\nSPECIFICATION Spec\nINVARIANTS Counts Right\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n' % ctx.pick(70, 260))
    pairs = ctx.tlc_model('IntSeqModel', 'CONSTANTS Low = 1 High = 2 MaxLen = %d Types = {"schar", "short", "int", "uint", "long", "sz", "ll", "ull"}\nINIT Init\nNEXT Next\nINVARIANTS Laws CommonLaws\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
                          % ctx.pick(2, 3), edges=True)
    rng = ctx.rng()
    R = []
    unsigned = lambda t: t[0] == 'u' or t == 'sz'
    order = ['int', 'uint', 'long', 'sz', 'll', 'ull']

    def common(a, b):
        if a == b: return a
        x, y = sorted((order.index('int' if t in ('schar', 'short') else t) for t in (a, b)))
        return 'ull' if (order[x], order[y]) == ('sz', 'll') else order[y]

    def add(op, ty=(), q=(), p=(), i=0, how=None):
        R.append(dict(op=op, ty=list(ty), q=list(q), p=list(p), i=i, how=rng.randint(0, 1) if how is None else how))

    def ask(q, p):
        """every operation on one pair of equally long sequences"""
        t = rng.choice([x for x in SEQT if not (unsigned(x) and q and min(q) < 0) and all(abs(v) < 30000 if x == 'short' else abs(v) < 120 if x == 'schar' else True for v in q + p)])
        small = t in ('schar', 'short') and (sum(map(abs, q)) > 100)
        if not small:
            add('sum', [t], q); add('excl', [t], q); add('incl', [t], q)
            add('part', [t], q, i=rng.randint(0, len(q)))
        add('seq', [t], q)
        if q:
            add('sel', [t], q, i=rng.randint(0, len(q) - 1))
            add('map', [t], q, [rng.randint(0, len(q) - 1) for _ in range(rng.choice([0, 1, len(q), 2 * len(q)]))])
        u = rng.choice([x for x in SEQT if not (unsigned(x) and p and min(p) < 0)] if max([abs(x) for x in q + p] + [0]) < 100 else ['int', 'long', 'll'])
        if u == 'schar' and p and max(map(abs, p)) > 50: u = 'int'
        c = common(t, u)
        if max([abs(x) for x in q + p] + [0]) > 5 and c in ('schar', 'short'): u, c = 'int', 'int' if not unsigned(t) else t
        neg = lambda r: unsigned(c) and any(v < 0 for v in r)
        if neg(q + p): return
        add('plus', [t, u], q, p)
        if not neg([x - y for x, y in zip(q, p)]): add('minus', [t, u], q, p)
        if all(abs(x * y) < (100 if c == 'schar' else 30000) for x, y in zip(q, p)): add('times', [t, u], q, p)
    for e in pairs: ask(e['q'], e['p'])
    for n in list(range(0, ctx.pick(40, 140))) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1500] + ctx.pick([], [2047, 2048, 2049]):
        add('makeidx', i=n)
        if n < 70 or n & (n - 1) == 0 or ctx.thorough or rng.random() < .3: add('make', [rng.choice(('int', 'uint', 'long', 'sz', 'll', 'ull'))], i=n)
    for n in range(0, ctx.pick(14, 40)): add('idxfor', [rng.choice(SEQT) for _ in range(n)], i=n)
    for n in range(1, ctx.pick(25, 60)):
        ty = [rng.choice(SEQT) for _ in range(n)]
        for i in {0, n - 1, rng.randrange(n)}: add('at', ty, i=i)
    for n in range(0, 5):
        for m in range(2**n): add('all', q=[m >> j & 1 for j in range(n)])
    for _ in range(ctx.pick(12, 60)): n = rng.randint(5, 40); b = [1] * n; b[rng.randrange(n)] = rng.randint(0, 1); add('all', q=b)
    for _ in range(ctx.pick(60, 900)):
        n, hi = rng.choice([1, 2, 3, 5, 8, 13, 20, 33]), rng.choice([1, 3, 100, 30000, 1000000])
        lo = rng.choice([0, 0, -hi])
        v = lambda: rng.choice([rng.randint(lo, hi), lo, hi, 0])
        ask([v() for _ in range(n)], [v() for _ in range(n)])
    rng.shuffle(R)
    parts = chunks(R, ctx.pick(1, 2) * NCPU)
    progs = []
    for k, c in enumerate(parts):
        p = ctx.path('seq%d.cc' % k)
        with open(p, 'w') as f:
            f.write('#include "tseq.h"\nEntry rows[] = {\n')
            f.write(',\n'.join('{%s}' % seq_expr(e).replace('typename ', '') for e in c))
            f.write('};\nconst int nrows = sizeof(rows) / sizeof(rows[0]);\n')
        progs.append(p)
    exes = ctx.build_all([(p, dict(base=['-std=c++' + ('11', '17')[k % 2], '-w', '-O0', '-iquote', REPO + '/include', '-I', HARN, '-idirafter', REPO + '/include'], san=False, out=p + '.exe')) for k, p in enumerate(progs)])
    scripts = [[dict(op='row', i=i, _op=e['op'], _ty=e['ty'], _q=e['q'], _p=e['p'], _i=e['i'], _how=e['how']) for i, e in enumerate(c)] for c in parts]
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda k: validate_runs(ctx, exes[k], [scripts[k]], 'IntSeqTrace', TRACE, RESET, par=1), range(len(parts))))
    ctx.add('replayed_transitions', len(pairs))
    ctx.assumptions += ['%d type expressions: all pairs of sequences of at most %d values in -1..2, sampled longer ones (up to 33 values of up to 10^6), make_integer_sequence up to 1500; compiled as C++11 and C++17' % (len(R), ctx.pick(2, 3)),
                        'negative results of unsigned types (ill-formed as template arguments) and make_integer_sequence of types narrower than int, which the library does not support, are not used']


# ---------------------------------------------------------------- exceptions
EXCS = 'CONSTANTS N = %d Chars = {%s} MaxLen = %d Errors = {%s}\n'
XGRAPH = '''INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK Bases
PROPERTIES Independent Keeps
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
'''


def gen_exc(rng, n, length):
    k = [0] * (n + 1)
    out = []
    cap = rng.choice([3, 20, 400])
    text = lambda: [rng.choice((97, 98, 200, 1, 127, 10, 37, 35)) for _ in range(rng.choice([0, 1, 7, 15, 16, cap]))]
    while len(out) < length:
        s, t, r = rng.randint(1, n), rng.randint(1, n), rng.random()
        if r < .12:
            e = rng.choice((3, 5, 5, 8))
            out.append(dict(op='raise', k=e, x=rng.randint(0, 99), how=rng.randint(0, 5), w=rng.randint(0, 5 if e == 5 else 3)))
        elif not k[s]:
            if r < .55 or not k[t]:
                k[s] = rng.choice((1, 2, 2, 3, 4, 4, 5, 5, 6)); has = k[s] in (2, 4, 6)
                out.append(dict(op='new', s=s, k=k[s], q=text() if has else [], x=rng.randint(0, 99) if k[s] > 4 else 0, how=rng.randint(0, 1)))
            elif r < .9: out.append(dict(op='copy', s=s, t=t)); k[s] = k[t]
            else: out.append(dict(op='slice', s=s, t=t)); k[s] = 1
        elif r < .4: out.append(dict(op='throw', s=s, how=rng.randint(0, 5)))
        elif r < .5: out.append(dict(op='carry', s=s, how=rng.randint(0, 5), w=rng.randint(0, 3)))
        elif r < .75:
            if k[t] == k[s]: out.append(dict(op='set', s=s, t=t))
        elif r < .8:
            if k[t]: out.append(dict(op='setbase', s=s, t=t))
        elif r < .85:
            if k[s] == 5: out.append(dict(op='poke', s=s, x=rng.randint(0, 99)) if rng.random() < .4 else dict(op='take', s=s, w=rng.randint(0, 3)))
        elif r < .95: out.append(dict(op='del', s=s)); k[s] = 0
    for s in range(1, n + 1):
        if k[s]: out.append(dict(op='del', s=s))
    return out


def c40(ctx):
    exes = ctx.build_all([('exc.cc', dict(flags=['-DNANOSTL_ENABLE_EXCEPTION', '-DNANOSTL_IMPLEMENTATION', '-std=c++' + v], out=ctx.path('x' + v))) for v in ('11', '14')])
    edges = ctx.tlc_model('Exceptions', EXCS % (2, ctx.pick('97', '97, 98'), ctx.pick(2, 1), ctx.pick('1', '1, 2')) + XGRAPH, edges=True)
    for exe in exes[:ctx.pick(1, 2)]:
        replay_graph(ctx, wrap(ctx, exe, 2), edges, dict(v=[[0, 0, []]] * 2, live=0, bad=0), RESET, max_len=200, limit=ctx.pick(30000, 600000))
    rng = ctx.rng()
    for exe in exes:
        runs = [gen_exc(rng, 3, rng.choice([20, 60, 150])) for _ in range(ctx.pick(60, 1000))]
        validate_runs(ctx, wrap(ctx, exe, 3), runs, 'ExceptionsTrace', EXCS % (3, '0', 0, '0') + TRACE, RESET, par=4)
    ctx.assumptions += ['NUL-free texts; exceptions enabled', 'bad_variant_access is compiled out (variant asserts instead, C13); bad_any_cast derives from a class of the type_info header that the library leaves undefined; C14 decides it']


# ---------------------------------------------------------------- cost of growing
COST = 'CONSTANTS N = %d Max = %d Step = %d\n'


def gen_cost(rng, kind, n, big):
    """One history: sizes up to big, kept close to the sizes a store of that kind likes to grow or shrink at."""
    sz = [-1] * n
    out = []
    txt = kind in ('str', 'ss')
    room = [big * 12]                       # total weight of the history

    def do(op, s, k=None, t=None, i=None, j=None):
        if op == 'pop' and kind == 'val': op, k = 'cut', sz[s - 1] - k      # there is no pop_back
        e = dict(op=op, s=s)
        for a, b in (('t', t), ('i', i), ('j', j), ('k', k)):
            if b is not None: e[a] = b
        out.append(e)
        v = sz[s - 1]
        w = {'push': k, 'app': k, 'pop': k, 'obs': k, 'copy': v + sz[(t or s) - 1], 'cons': sz[(t or s) - 1], 'self': v, 'cmp': min(v, sz[(t or s) - 1]), 'erase': v - (i or 0), 'clear': v, 'cut': v - (k or 0)}.get(op, 1)
        room[0] -= w + 1
        if op == 'swap': sz[s - 1], sz[t - 1] = sz[t - 1], v
        else:
            sz[s - 1] = {'new': 0, 'push': v + (k or 0), 'app': v + (k or 0), 'pop': v - (k or 0), 'cut': k, 'clear': 0, 'erase': v - 1, 'copy': sz[(t or s) - 1], 'cons': sz[(t or s) - 1], 'self': 2 * v, 'del': -1}.get(op, v)
    mode = rng.choice(['mix', 'mix', 'ramp', 'teeth', 'refill', 'small'])
    while room[0] > 0 and len(out) < (400 if mode != 'small' else 1500):
        s = rng.randint(1, n); v = sz[s - 1]
        live = [x for x in range(1, n + 1) if sz[x - 1] >= 0]
        if v < 0:
            if live and rng.random() < .3: do('cons', s, t=rng.choice(live))
            else: do('new', s)
            continue
        if mode == 'ramp':
            if v < big: do('push', s, k=rng.choice([1, 7, big // 20 + 1]))
            else: do(rng.choice(['clear', 'del']), s)
            continue
        if mode == 'teeth':          # back and forth over one size
            base = rng.choice([1, 2, 4, 8, 64, 100, 1024, big // 2])
            if v < base: do('push', s, k=base - v)
            for _ in range(rng.randint(5, 40)):
                if room[0] <= 0: break
                k = rng.randint(1, 2)
                do(rng.choice(['push', 'app']) if rng.random() < .5 else 'push', s, k=k)
                if txt or rng.random() < .6: do('pop', s, k=k)
                else: do('cut', s, k=sz[s - 1] - k)
            if rng.random() < .2: do('clear', s)
            continue
        if mode == 'refill':
            do('push', s, k=rng.randint(1, big // 4 + 1)); do('obs', s, k=3)
            do('clear', s) if rng.random() < .8 else do('pop', s, k=rng.randint(0, sz[s - 1]))
            continue
        r = rng.random(); t = rng.choice(live)
        lim = big if mode == 'mix' else 12
        step = rng.choice([1, 1, 2, 3, 10, lim // 10 + 1])
        if v > lim or r < .03: do(rng.choice(['clear', 'del', 'clear']), s)
        elif r < .35: do('push', s, k=step)
        elif r < .47: do('app', s, k=step)
        elif r < .55: do('pop', s, k=min(v, step))
        elif r < .6: do('obs', s, k=rng.choice([1, 50]))
        elif r < .66:
            if v: do('erase', s, i=rng.choice([1, v, rng.randint(1, v)]))
        elif r < .76:
            if s != t: do('copy', s, t=t, j=rng.randint(0, 1))
        elif txt and r < .84:
            if s != t: do('cmp', s, t=t)
        elif txt and r < .9: do('self', s) if v < lim else None
        elif not txt and r < .86:
            if s != t: do('swap', s, t=t)
        elif not txt and r < .95: do('cut', s, k=rng.randint(0, v))
    for s in range(1, n + 1):
        if sz[s - 1] >= 0: do('del', s)
    return out


def c42(ctx):
    ctx.tlc_model('Cost', COST % (2, ctx.pick(9, 14), ctx.pick(3, 5)) + 'SPECIFICATION Spec\nVIEW View\nINVARIANT Bounded\nPROPERTIES Amortised OnItsOwn\nCHECK_DEADLOCK FALSE\n')
    if ctx.pick(0, 1): ctx.tlc_model('Cost', COST % (3, 6, 3) + 'SPECIFICATION Spec\nVIEW View\nINVARIANT Bounded\nPROPERTIES Amortised OnItsOwn\nCHECK_DEADLOCK FALSE\n')
    flags = ['-O1', '-fsanitize-coverage=trace-pc']
    exe = ctx.build('cost.cc', flags=flags, san=False)
    rng = ctx.rng()
    for kind in ('vec', 'int', 'val', 'str', 'ss'):
        runs = [gen_cost(rng, kind, 3, rng.choice([50, 400, 3000, 20000])) for _ in range(ctx.pick(48, 400))]
        # a long ramp, one element at a time and in one go, and the same again after clearing
        top = ctx.pick(60000, 400000)
        runs += [[dict(op='new', s=1)] + [dict(op='push', s=1, k=k) for k in (1, 1, 1, 10, 100, 1000)] + [dict(op='push', s=1, k=top // 20)] * 20 + [dict(op='clear', s=1), dict(op='push', s=1, k=top), dict(op='del', s=1)]]
        runs += [[dict(op='new', s=1)] + [dict(op='app', s=1, k=1)] * 1500 + [dict(op='del', s=1)]]
        validate_runs(ctx, wrap(ctx, exe, kind, 3), runs, 'CostTrace', COST % (3, 0, 0) + 'CONSTANTS Limit = 200 Hold = 8\n' + TRACE, RESET, label=kind + ' ')
    ctx.assumptions += ['work = basic blocks executed (compiler instrumentation) + elements\' worth of memory allocated', 'work inside the C library is not counted', 'the limit leaves a factor of about ten over the present code']


# ---- C43: no hidden shared memory ---------------------------------------------------------------
SHWRAP = 'malloc calloc realloc free memcpy memmove memset memcmp strlen __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort'.split()
SHARED = 'CONSTANTS N = %d T = %d\n'


def build_shared(ctx):
    inst = [(f, dict(flags=['-c', '-O1', '-fsanitize=thread', '-DNANOSTL_ENABLE_EXCEPTION'], san=False, out=ctx.path('sh-%s.o' % os.path.basename(f))))
            for f in ('share1.cc', 'share2.cc', 'share3.cc', REPO + '/src/hash.cc')]
    objs = ctx.build_all(inst + [('share_rt.cc', dict(flags=['-c', '-O2', '-std=c++17', '-w', '-I' + HARN], base=[], san=False, out=ctx.path('sh-rt.o')))])
    return ctx.build(objs[0], flags=objs[1:] + ['-Wl,--wrap=' + w for w in SHWRAP], base=[], san=False, out=ctx.path('shared'))


class Shared:
    """What a disciplined program may do next (mirrors Disciplined; TLC has the last word)."""

    def __init__(self, rng, n, t):
        self.rng, self.n, self.t = rng, n, t
        self.live, self.chg, self.rd, self.out = set(), {}, {}, []

    def ok(self, e):
        ch, re = self.parts(e)
        th = e['th']
        ex = (e['s'] not in self.live) if e['op'] == 'new' else all(s in self.live for s in ch | re)
        return ex and all(self.chg.get(s, set()) | self.rd.get(s, set()) <= {th} for s in ch) and all(self.chg.get(s, set()) <= {th} for s in re)

    @staticmethod
    def parts(e):
        op = e['op']
        ch = {e['s']} if op in ('new', 'del', 'set', 'copy') else {e['s'], e['u']} if op == 'swap' else set()
        re = {e['s']} if op == 'get' else {e['s'], e['u']} if op == 'get2' else {e['u']} if op == 'copy' else set()
        return ch, re

    def do(self, e):
        if not self.ok(e):
            return False
        ch, re = self.parts(e)
        for s in ch: self.chg.setdefault(s, set()).add(e['th'])
        for s in re: self.rd.setdefault(s, set()).add(e['th'])
        if e['op'] == 'new': self.live.add(e['s'])
        if e['op'] == 'del': self.live.discard(e['s'])
        self.out.append(e)
        return True

    def sync(self):
        self.chg, self.rd = {}, {}
        self.out.append(dict(op='sync'))


def dress(rng, e, nf, j=None):
    """the parts of an operation the specification leaves open"""
    e = dict(e)
    if e['op'] in ('new', 'set', 'get', 'fn'): e['x'] = rng.randrange(40 if e['op'] != 'fn' else 10000)
    if e['op'] in ('set', 'get', 'get2', 'copy', 'swap'): e['how'] = rng.randrange(4)
    if e['op'] == 'fn': e['j'] = rng.randrange(nf) if j is None else j
    return e


def gen_shared(rng, nk, nf, epochs, length):
    g = Shared(rng, 2 * nk, 3)
    for s in range(1, 2 * nk + 1):
        g.do(dress(rng, dict(op='new', th=1 + s % 3, s=s), nf))
    for _ in range(epochs):
        g.sync()
        focus = rng.sample(range(nk), rng.choice([1, 2, nk]))
        own = {s: rng.choice([0, 1, 1, 2, 2, 3]) for s in range(1, 2 * nk + 1)}     # 0: everybody reads
        for _ in range(length):
            th = rng.randrange(1, 4)
            if rng.random() < .25:
                g.do(dress(rng, dict(op='fn', th=th), nf))
                continue
            k = rng.choice(focus)
            s, u = rng.sample([2 * k + 1, 2 * k + 2], 2)
            op = rng.choice(['get', 'get', 'get2', 'set', 'set', 'set', 'copy', 'swap', 'del', 'new'])
            if op in ('set', 'swap', 'del', 'new', 'copy') and own[s] != th: op = 'get'
            e = dict(op=op, th=th, s=s)
            if op in ('get2', 'copy', 'swap'): e['u'] = u if op != 'get2' or rng.random() < .8 else s
            g.do(dress(rng, e, nf))
    return g.out


def c43(ctx):
    model = 'SPECIFICATION Spec\nVIEW View\nINVARIANTS Safe Exclusive Free\nCHECK_DEADLOCK FALSE\n'
    ctx.tlc_model('Shared', SHARED % (2, 3) + model)
    if ctx.thorough: ctx.tlc_model('Shared', SHARED % (3, 3) + model)
    edges = ctx.tlc_model('Shared', SHARED % (2, 2) + 'SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n', edges=True)
    exe = build_shared(ctx)
    nk, nf = ctx.run_script(exe, [dict(op='info')])[0]['res']
    rng = ctx.rng()
    init = dict(live=[False] * 2, chg=[[], []], rd=[[], []])
    # every behaviour of the two-thread model, on every kind of object
    walks, total, covered = walk_graph(edges, init, rng, 60)
    ctx.log('graph: %d edges, %d covered by %d walks' % (total, covered, len(walks)))
    ctx.add('graph_edges', total)
    ctx.add('graph_edges_covered', covered)
    runs = []
    for k in range(nk):
        ws = walks if ctx.thorough else rng.sample(walks, min(len(walks), 12))
        for w in ws:
            run = []
            for e in w:
                e = {a: b for a, b in e['ev'].items()}
                for a in ('s', 'u'):
                    if a in e: e[a] += 2 * k
                run.append(dress(rng, e, nf))
            runs.append(run)
    # every function next to every function
    for _ in range(ctx.pick(2, 20)):
        js = [(th, j) for th in (1, 2, 3) for j in range(nf) for _ in range(6)]
        rng.shuffle(js)
        runs.append([dress(rng, dict(op='fn', th=th), nf, j) for th, j in js])
    runs += [gen_shared(rng, nk, nf, 3, ctx.pick(150, 300)) for _ in range(ctx.pick(32, 300))]
    rng.shuffle(runs)
    validate_runs(ctx, exe, runs, 'SharedTrace', SHARED % (2 * nk, 3) + TRACE, RESET)
    ctx.assumptions += ['accesses are observed through compiler instrumentation of the library code and wrappers of the C memory functions',
                        'atomic accesses and the once-only initialisation of local statics are not races', 'words of eight bytes; memory is never reused, so nothing is attributed to a neighbour']
