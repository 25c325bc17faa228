"""C29-C35: the thread primitives (src/libs_thread.h), explored under a deterministic scheduler."""
import threading
from core import *

WRAP = ('malloc calloc free pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock '
        'pthread_condattr_init pthread_condattr_destroy pthread_condattr_setclock pthread_cond_init pthread_cond_destroy pthread_cond_wait '
        'pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_self pthread_create pthread_join '
        'pthread_detach pthread_exit pthread_setname_np pthread_setschedparam sched_yield pthread_key_create pthread_key_delete '
        'pthread_setspecific pthread_getspecific clock_gettime gettimeofday time nanosleep clock_nanosleep usleep sleep').split()
CLANG = next((c for c in ('clang++-18', 'clang++') if shutil.which(c)), 'clang++')


def sh(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300)
    if r.returncode:
        errs = [l for l in r.stdout.splitlines() if 'error' in l or 'undefined reference' in l]
        if what:
            raise Violation(what, dict(cmd=' '.join(cmd), errors=errs[:10] or r.stdout[-1500:]))
        raise CheckError('cannot build: ' + r.stdout[-2000:])


def build(ctx, ndebug=False, native=False, opt='-O1'):
    """Driver + the library's thread implementation.  The library file is compiled exactly as the
    project does, plus clang's -fsanitize=thread instrumentation, and linked with our runtime."""
    tag = ctx.path('conc')
    san = [] if native else ['-fsanitize=thread']
    fl = ['-w', opt, '-g1', '-fstack-protector-all'] + san + (['-DNDEBUG'] if ndebug else [])
    rt = tag + '-rt.o'
    sh([which_gxx(), '-O2', '-std=c++17', '-w', '-c', os.path.join(HARN, 'native.cc' if native else 'sched.cc'), '-o', rt], None)
    no = 'a program using the thread functions no longer compiles or links'
    sh([CLANG] + fl + ['-std=c++17', '-I' + REPO + '/src', '-I' + HARN, '-c', os.path.join(HARN, 'conc.cc'), '-o', tag + '-d.o'], no)
    sh([CLANG] + fl + ['-nostdinc++', '-std=c++11', '-I' + REPO + '/include', '-c', REPO + '/src/nanothread.cc', '-o', tag + '-l.o'], no)
    sh([which_gxx(), rt, tag + '-d.o', tag + '-l.o'] + ([] if native else ['-Wl,--wrap=' + w for w in WRAP]) + ['-pthread', '-o', tag], no)
    return tag


EPOCH = 1700000000 * 10**9
DEF = dict(preempt=2, limit=20000, rnd=0, maxsteps=4000, spin=60, stay=70, maxhist=3000, eager=0, spur=0, epoch=EPOCH, mono=12345678 * 10**6,
           tick=1000, seed=1, eintr=0, pct=50, fail=0, key=0)


def scen(kind, par, progs, label='', **kw):
    d = dict(DEF, **kw)
    d.update(kind=kind, par=par, progs=progs)
    return d


def line(s, fixed=None, key=0):
    w = [s['kind'], s['preempt'], s['limit'], s['rnd'], s['maxsteps'], s['spin'], s['stay'], s['maxhist'], s['eager'], s['spur'], s['epoch'],
         s['mono'], s['tick'], s['seed'], s['eintr'], s['pct'], s['fail'], key, 0 if fixed is None else 1, len(fixed or [])] + list(fixed or [])
    w += [len(s['par'])] + list(s['par']) + [len(s['progs'])]
    for p in s['progs']:
        w.append(len(p))
        for o in p:
            w += list(o)
    return ' '.join(map(str, w)) + '\n'


def run_one(ctx, exe, s, timeout=300, fixed=None, key=0):
    rc, o, er = ctx.run_raw(exe, line(s, fixed, key), timeout)
    hs, done = [], None
    for l in o.splitlines():
        try:
            r = json.loads(l)
        except ValueError:
            break
        if 'done' in r:
            done = r
        else:
            hs.append(r)
    if rc in (77, 78):
        raise CheckError('scheduler: ' + er[-500:])
    if rc != 0 or done is None:
        raise Violation('the real code crashed or hung', dict(scenario=s, exit=str(rc), message=er[-600:]))
    return hs, done


def times(evs):
    z, r = [0, 0], [[0, 0]]
    for e in evs:
        z = e.get('z', z)
        r.append(z)
    return r


def conform(ctx, exes, scens, module, subst, conv=None, label='', timeout=300):
    """Explore every scenario on the real code, let TLC judge every distinct history."""
    def job(x):
        s, exe = x
        return s, exe, run_one(ctx, exe, s, timeout)
    todo = [(s, exe) for s in scens for exe in exes]
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(job, todo))
    hist, total, inc, seen = [], 0, 0, set()
    for s, exe, (hs, done) in rs:
        total += done['n']
        inc += not done['complete']
        for x in hs:
            evs = [conv(e) for e in x['h']] if conv else x['h']
            rec = dict(par=[conv_par(conv, p) for p in s['par']] if s['kind'] != 'thread' else [k for k in range(8) if s['fail'] >> k & 1], eager=s['eager'], h=evs, zs=times(evs))
            k = flat(rec)
            if k not in seen:
                seen.add(k)
                hist.append((k, s, exe, x))
    judge(ctx, hist, module, subst, conv)
    ctx.add('schedules_executed', total)
    ctx.add('histories_validated', len(hist))
    ctx.add('traces_validated_against_impl', len(hist))
    ctx.add('scenarios', len(todo))
    ctx.add('scenarios_exhausted_within_preemption_bound', len(todo) - inc)
    ctx.log('%s%d scenarios, %d schedules of the real code, %d distinct histories accepted by TLC (%d scenarios cut by the limit)' % (label, len(todo), total, len(hist), inc))
    if hist:
        ctx.sample(dict(kind='history of the real code accepted by TLC', history=hist[len(hist) // 2][3]['h'][:24]))


def conv_par(conv, p):
    return conv({'e': 'par', 'v': p})['v'] if conv else p


def cfgtext(subst):
    if not subst:
        return 'SPECIFICATION HSpec\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n'
    return 'SPECIFICATION HSpec\nCONSTANTS\n' + ''.join(' %s <- %s\n' % kv for kv in zip(('Abs0', 'Outcomes', 'Extra', 'Timeout'), subst)) + 'POSTCONDITION Report\nCHECK_DEADLOCK FALSE\n'


def tlc_hist(ctx, module, subst, lines):
    p = ctx.path('hist.ndjson')
    open(p, 'w').write('\n'.join(lines) + '\n')
    rc, out = ctx.tlc(module, cfgtext(subst), env={'TRACE': p}, workers=1)
    m = re.search(r'<<"ACCEPTED", (\d+), (\d+)>>', out)
    if not m or int(m.group(2)) != len(lines):
        raise CheckError('history validation broke:\n' + out[-3000:])
    s = re.search(r'(\d+) states generated, (\d+) distinct', out)
    os.unlink(p)
    return [(int(a), int(b)) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out)], int(s.group(2)) if s else 0


def judge(ctx, hist, module, subst, conv):
    if not hist:
        return
    rng = ctx.rng('shard')
    rng.shuffle(hist)
    per = max(1, min(1500, (len(hist) + NCPU - 1) // NCPU))
    parts = [hist[i:i + per] for i in range(0, len(hist), per)]
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda p: tlc_hist(ctx, module, subst, [x[0] for x in p]), parts))
    for part, (bad, states) in zip(parts, rs):
        ctx.add('states', states)
        for k, at in bad:
            key, s, exe, x = part[k - 1]
            again = None
            if x['how'] in ('dfs', 'random'):   # the same schedule must give the same history again
                hs, _ = run_one(ctx, exe, s, fixed=x['path'] if x['how'] == 'dfs' else [], key=int(x['key']))
                again = hs[0]['h'] if hs else None
                if again != x['h']:
                    raise CheckError('schedule not reproducible: %s' % flat(dict(first=x['h'], again=again))[:1500])
            raise Violation('under some schedule the history of the real code is not one the specification allows',
                            dict(first_event_not_allowed=x['h'][at] if at < len(x['h']) else None, history=x['h'], schedule=x['path'] or x['key'],
                                 scenario={k: s[k] for k in ('kind', 'par', 'progs', 'preempt', 'eager', 'spur', 'epoch', 'eintr', 'fail')}))


def P(v, t=-1):
    return ('P', v, t)


def G(t=-1):
    return ('C', 0, t)


def c29(ctx):
    jobs = [build(ctx), build(ctx, ndebug=True)]
    subst = ('QAbs0', 'QOutcomes', 'QExtra', 'QTimeout')
    rng = ctx.rng('queue')
    S = []
    add = lambda cap, pre, *pr, **kw: S.append(scen('queue', [cap, pre], list(pr), **kw))
    for cap in (1, 2, 3):
        for pre in range(0, cap + 1):
            n = 2 if cap == 1 else 3
            vs = list(range(10, 10 + n))
            add(cap, pre, [P(v) for v in vs], [G() for _ in range(n + (pre > 0))], limit=ctx.pick(4000, 60000), preempt=ctx.pick(2, 3))
            add(cap, pre, [P(v) for v in vs], [G() for _ in range(n)], [('N', 0, 0)] * 2, limit=ctx.pick(1500, 30000))
    add(1, 3, [P(10)], [G(), G()])                                     # preload larger than the capacity
    for cap, pre in ((1, 0), (1, 1), (2, 0), (2, 2)):
        for t in (0, 1, 7):
            for eager in (0, 1):
                add(cap, pre, [P(10, t), P(11, t), P(12, t)], [G(t), G(t)], eager=eager, limit=ctx.pick(1500, 20000))
                add(cap, pre, [P(10), P(11)], [G(t), G(t), G()], eager=eager, limit=ctx.pick(1500, 20000))
                add(cap, pre, [P(10, t), P(11, t), P(12)], [G(), G()], eager=eager, limit=ctx.pick(1500, 20000))
    for t in (0, 5, 1234):                                             # nobody else: times out, or fills and drains
        add(2, 0, [P(10, t), P(11, t), P(12, t), P(13, t)]); add(2, 1, [], [G(t), G(t), G(t)])
    add(2, 0, [P(10), P(11), P(12)]); add(2, 0, [], [G()])             # must get stuck
    for cap in [8, 9, 16, 31, 64, 130] + ctx.pick([], [255, 256, 257, 600]):      # around the ring of larger ones
        k = rng.randint(1, cap)
        run = [P(1000 + i, 0) for i in range(cap + 1)] + [G(0)] * k + [P(2000 + i, 0) for i in range(k + 1)] + [('N', 0, 0)] + [G(0)] * (cap + 1)
        add(cap, 0, run, maxsteps=60000)
        add(cap, cap, run[cap:], maxsteps=60000)
        add(cap, k, [G(0)] * (k + 1) + run[:cap + 1 + k], maxsteps=60000)
    for _ in range(ctx.pick(40, 400)):                                 # longer random histories and schedules
        cap = rng.randint(1, 4); n = rng.randint(4, 9)
        tm = lambda: rng.choice([-1, -1, -1, 0, 2, 5])
        add(cap, rng.randint(0, cap), [P(20 + k, tm()) for k in range(n)], [G(tm()) for _ in range(n)], [('N', 0, 0)] * rng.randint(0, 3),
            limit=0, rnd=ctx.pick(120, 1000), stay=rng.choice([30, 60, 85]), eager=rng.randint(0, 1), spur=rng.randint(0, 1), seed=ctx.seed * 1000 + rng.randrange(10**6))
    box = []
    def soak():     # one thread, more operations than an int can count
        try:
            for nd in (True, False):
                exe = build(ctx, ndebug=nd, native=True, opt='-O2')
                for cap in (1, 2, 3, 4, 5, 7):      # leaping over most of them
                    for pre in range(0, cap):
                        s = scen('queue', [cap, pre], [[P(20) for _ in range(cap - pre)][1:] + [('N', 0, 0)] + [G()] * (cap - pre > 1) + [('Z', 100000, 1), P(21)] + [G(), G(0)]])
                        box.append((s, exe, run_one(ctx, exe, s, timeout=100)[0]))
                if ctx.thorough:
                    s = scen('queue', [3, 1], [[P(20), ('Z', 2**31 + 5, 0), P(21), P(22), P(23), P(24, 0), G(), G(), G(), G(0)]])
                    box.append((s, exe, run_one(ctx, exe, s, timeout=800)[0]))
        except Exception as e:
            box.append(e)
    th = threading.Thread(target=soak)
    th.start()
    models(ctx, 'queue')
    conform(ctx, jobs, S, 'QueueTrace', subst)
    th.join()
    for b in box:
        if isinstance(b, Exception):
            raise b
    judge(ctx, [(flat(dict(par=s['par'], eager=1, h=x['h'], zs=times(x['h']))), s, exe, x) for s, exe, hs in box for x in hs], 'QueueTrace', subst, None)
    ctx.log('%d histories of 2^31 operations accepted' % len(box))
    ctx.assumptions += ['schedules are sequentially consistent interleavings up to the preemption bound (plus random ones); weaker memory behaviour is only covered by the data race detector',
                        'up to 3 threads and 9 operations each; the pthread functions are replaced by a model of POSIX (any waiter may be signalled, spurious wakeups, virtual time)']


def c30(ctx):
    jobs = [build(ctx)]
    cs = lambda m: [('L', m, 0), ('I', m, 0), ('U', m, 0)]
    S = []
    add = lambda n, *pr, **kw: S.append(scen('mutex', [n], list(pr), **kw))
    add(1, cs(0) * 2, cs(0) * 2, preempt=ctx.pick(3, 5)); add(1, cs(0), cs(0), cs(0), preempt=ctx.pick(3, 4), limit=ctx.pick(20000, 200000)); add(1, cs(0) * 2, cs(0), cs(0), preempt=2)
    add(2, cs(0) + cs(1), cs(1) + cs(0), preempt=3)
    nest = lambda a, b: [('L', a, 0), ('L', b, 0), ('I', a, 0), ('I', b, 0), ('U', b, 0), ('U', a, 0)]
    add(2, nest(0, 1), nest(0, 1)); add(2, nest(0, 1), nest(1, 0)); add(2, nest(0, 1), cs(1), cs(0)); add(3, nest(0, 1), nest(1, 2), nest(2, 0))
    add(3, cs(0), cs(1), cs(2)); add(4, cs(3), cs(3), cs(0) + cs(1))
    rng = ctx.rng('mutex')
    for _ in range(ctx.pick(30, 300)):
        n = rng.randint(1, 4)
        prog = lambda: sum([cs(rng.randrange(n)) if rng.random() < .7 or n == 1 else nest(*sorted(rng.sample(range(n), 2))) for _ in range(rng.randint(1, 3))], [])
        add(n, *[prog() for _ in range(rng.randint(2, 5))], limit=0, rnd=ctx.pick(60, 600), stay=rng.choice([20, 50, 80]), seed=ctx.seed * 1000 + rng.randrange(10**6))
    models(ctx, 'mutex')
    conform(ctx, jobs, S, 'MutexTrace', ('MAbs0', 'MOut', 'MExtra', 'MTimeout'))
    ctx.assumptions += ['schedules are sequentially consistent interleavings up to the preemption bound, plus random ones; visibility is judged by a vector clock race detector on the protected data',
                        'pthread mutexes are replaced by a model of POSIX']


PHASES = [0, 1, 499999, 999998, 999999, 1000, 123456]


def c31(ctx):
    jobs = [build(ctx)]
    R, W = lambda s=0: ('R', s, 0), lambda t=-1, s=0: ('W', s, t)
    S = []
    add = lambda n, *pr, **kw: S.append(scen('signal', [n], list(pr), **kw))
    lim = ctx.pick(4000, 80000)
    pb = ctx.pick(2, 3)
    for t in (-1, 0, 10):
        for e in ((0, 1) if t > 0 else (0,)):
            kw = dict(limit=lim, preempt=pb, eager=e)
            add(1, [R()], [W(t)], spur=1, **kw); add(1, [R()], [W(t)], [W(t)], spur=1, **kw); add(1, [R(), R()], [W(t)], [W(t)], **kw)
            add(1, [R()], [R()], [W(t), W(t)], **kw); add(1, [R(), W(t)], [W(t), R()], **kw); add(1, [R(), R(), R()], [W(t), W(t)], spur=1, **kw)
            add(1, [R()], [W(t)], [W(-1)], **kw); add(1, [R()], [W(3)], [W(t)], **kw); add(2, [R(0)], [W(t, 0)], [W(t, 1)], **kw)
            add(2, [R(0), R(1)], [W(t, 1), W(t, 0)], **kw); add(1, [R(), W(0), R()], [W(t)], **kw); add(1, [W(t), R()], [R(), W(t)], [W(t)], **kw)
    for ph in PHASES:                                   # one thread, every phase of the clock
        for t in (0, 1, 2, 999, 1000, 1001, 1999, 2500, 60000, 3600000, 2147483647):
            for tick in (1000, 1000000):
                add(1, [W(t), R(), W(t), W(0)], epoch=EPOCH + ph * 1000, tick=tick, limit=50)
                add(1, [R(), R(), W(t), W(t)], epoch=EPOCH + ph * 1000 + 999, tick=tick, limit=50)
    rng = ctx.rng('sig')
    for _ in range(ctx.pick(200, 2000)):
        add(1, [W(rng.choice([rng.randrange(3000), rng.randrange(100), rng.randrange(2**31)]))], epoch=EPOCH + rng.randrange(10**9), tick=rng.choice([100, 1000, 50000, 900000]), limit=5)
    for _ in range(ctx.pick(40, 400)):
        n = rng.randint(1, 2)
        prog = lambda: [R(rng.randrange(n)) if rng.random() < .5 else W(rng.choice([-1, 0, 1, 2, 5, 9]), rng.randrange(n)) for _ in range(rng.randint(1, 4))]
        add(n, *[prog() for _ in range(rng.randint(2, 4))], limit=0, rnd=ctx.pick(150, 1000), stay=rng.choice([20, 50, 80]), eager=rng.randint(0, 1), spur=rng.randint(0, 1),
            epoch=EPOCH + rng.choice(PHASES) * 1000, seed=ctx.seed * 1000 + rng.randrange(10**6))
    models(ctx, 'signal')
    conform(ctx, jobs, S, 'SignalTrace', ('SAbs0', 'SOutcomes', 'SExtra', 'STimeout'))
    ctx.assumptions += ['schedules are sequentially consistent interleavings up to the preemption bound, plus random ones; virtual time with a slack of 5 ms',
                        'pthread mutexes, conditions and clocks are replaced by a model of POSIX (realtime and monotonic clocks with different epochs; the clock does not jump)']


def half(v):
    return [v & 65535, v >> 16 & 65535]


def c32(ctx):
    jobs = [build(ctx)]
    S = []
    rng = ctx.rng('atomic')
    conv = lambda e: dict(e, **{k: half(e[k]) for k in ('a', 'b', 'v') if k in e})
    OPS = 'lsidabxc'
    VAL = [0, 1, -1, 2, 7, 2**31 - 1, -2**31, -2**31 + 1, 65535, 65536, -65536, 2**30]
    def op(k, kind, small):
        v = (lambda: rng.choice([0, 1, 2, 3])) if small else (lambda: rng.choice(VAL) if rng.random() < .8 else rng.randint(-2**31, 2**31 - 1))
        if kind == 'aptr':
            v = lambda: rng.choice([0, 8, 16, 24, 1, 511])
        return (k, v(), v())
    def cas(v, w):
        return ('c', v, w)
    add = lambda kind, v, *pr, **kw: S.append(scen(kind, [v], list(pr), **kw))
    for kind, ops in (('aint', OPS), ('aptr', 'lsxc')):
        for a in ops:                                     # every pair of operations against each other
            for b in ops:
                for r in range(ctx.pick(2, 6)):
                    add(kind, rng.choice([0, 1, 2]) * (8 if kind == 'aptr' else 1), [op(a, kind, True)], [op(b, kind, True)], preempt=4, limit=ctx.pick(300, 5000))
        for _ in range(ctx.pick(60, 600)):                # sequences, all threads
            nt = rng.choice([1, 2, 2, 3, 4])
            add(kind, rng.choice(VAL if kind == 'aint' else [0, 8, 16]), *[[op(rng.choice(ops), kind, rng.random() < .5) for _ in range(rng.randint(1, 4))] for _ in range(nt)],
                preempt=2, limit=ctx.pick(400, 4000), rnd=ctx.pick(100, 1000), stay=rng.choice([20, 50]), seed=ctx.seed * 1000 + rng.randrange(10**6))
    for v in VAL:                                         # sequential semantics at the edges
        for a in OPS:
            for b in VAL:
                add('aint', v, [(a, b, rng.choice(VAL)), ('l', 0, 0), ('c', b, v), ('i', 0, 0), ('c', v, b), ('d', 0, 0), ('x', b, 0)], limit=1)
        add('aint', v, [('i', 0, 0)] * 3 + [cas(v, 5)], limit=1); add('aint', v, [('d', 0, 0)] * 3 + [cas(v, 5)], limit=1); add('aint', v, [('c', v, 5), ('c', v, 6)], limit=1)
        for w in VAL:
            m = (v + w + 2**31) % 2**32 - 2**31
            add('aint', v, [('a', w, 0), cas(m, 9), ('l', 0, 0)], limit=1)
            m = (v - w + 2**31) % 2**32 - 2**31
            add('aint', v, [('b', w, 0), cas(m, 9), ('l', 0, 0)], limit=1)
    # publication: what the first thread wrote before its operation is read by whoever observes the operation
    pubi = [('s', 1000, 0), ('a', 1000, 0), ('b', 1000, 0), ('x', 1000, 0), ('c', 0, 1000)]
    obsi = [('l', 0, 0), ('a', 3, 0), ('b', 3, 0), ('i', 0, 0), ('d', 0, 0), ('x', 3, 0), ('c', 7, 7), ('c', 1000, 5)]
    pubp, obsp = [('s', 8, 0), ('x', 8, 0), ('c', 0, 8)], [('l', 0, 0), ('x', 0, 0), ('c', 16, 16), ('c', 8, 0)]
    for kind, thr, pubs, obss in (('aint', 500, pubi, obsi), ('aint', 1, [('i', 0, 0), ('d', 0, 0)], [('l', 0, 0), ('a', 0, 0), ('b', 0, 0), ('x', 0, 0), ('c', 7, 7), ('c', 1, 0)]), ('aptr', 8, pubp, obsp)):
        for p in pubs:
            for o in obss:
                S.append(scen(kind, [0, thr], [[p], [o]], preempt=4, limit=ctx.pick(300, 5000)))
                S.append(scen(kind, [0, thr], [[p], [o], [('l', 0, 0)]], preempt=2, limit=ctx.pick(200, 4000)))
                if thr == 500:                              # through an operation of a third thread
                    for m in (('i', 0, 0), ('a', 2, 0), ('b', 2, 0)):
                        S.append(scen(kind, [0, thr], [[p], [m], [o]], preempt=2, limit=ctx.pick(200, 4000)))
    conform(ctx, jobs, S, 'AtomicTrace', ('AAbs0', 'IOut', 'AExtra', 'ATimeout'), conv=conv)
    ctx.assumptions += ['interleavings are sequentially consistent; integer operations wrap modulo 2^32', 'compiler builtins are trusted to be atomic; what is explored is how the functions combine them']


def c33(ctx):
    jobs = [build(ctx), build(ctx, ndebug=True)]
    K, J, D, I, X, EX, Y = (lambda s, b, f=0: ('K', s, 4 * b + f)), (lambda s: ('J', s, 0)), (lambda s: ('D', s, 0)), ('I', 0, 0), (lambda c: ('X', c, 0)), (lambda c: ('E', c, 0)), ('Y', 0, 0)
    S = []
    add = lambda *pr, **kw: S.append(scen('thread', [], list(pr), **kw))
    lim = ctx.pick(3000, 60000)
    codes = [0, 1, -1, 42, 255, 256, 2**31 - 1, -2**31, -12345, 65536]
    for c in codes:
        for end in (EX(c), X(c)):
            add([K(0, 1), J(0), J(0), D(0), I], [I, end], limit=lim); add([K(0, 1, 3), D(0)], [end], limit=lim); add([K(0, 1, 1), J(0), D(0)], [Y, I, end], limit=lim)
    for end in (EX, X):
        add([K(0, 1), K(1, 2), J(0), J(1), D(0), D(1)], [I, end(3)], [I, end(4)], limit=lim); add([K(0, 1), K(1, 2), J(1), J(0), D(1), D(0)], [I, end(3)], [end(4)], limit=lim)
        add([K(0, 1), K(1, 2), D(1), D(0)], [I, end(3)], [I, end(4)], limit=lim); add([K(0, 1), J(0), D(0), K(1, 2), J(1), D(1), I], [I, end(3)], [I, end(4)], limit=lim)
        add([K(0, 1), J(0), K(1, 2), D(0), J(1), D(1)], [I, end(3)], [I, end(4)], limit=lim)          # a handle joined earlier is destroyed while another thread runs
        add([K(0, 1), J(0), K(1, 2), K(2, 3), J(0), J(2), D(0), D(2), D(1)], [end(3)], [I, end(4)], [I, end(5)], limit=lim)
        add([K(0, 1), I, J(0), D(0)], [I, K(1, 2), I, J(1), D(1), end(7)], [I, end(8)], limit=lim)     # a created thread creates and joins
        add([K(0, 1), K(1, 2, 2), K(2, 3, 1), D(2), J(1), D(1), D(0)], [I, end(1)], [I, end(2)], [I, end(3)], limit=lim, preempt=1)
        add([K(0, 1), K(1, 2)], [K(2, 3), end(1)], [I, end(2)], [I, end(3)], limit=lim, preempt=1)      # never joined
        add([I, K(0, 1), J(0), J(0), J(0), D(0)], [end(9)], limit=lim)
    for f in range(1, 8):                                                                              # the system refuses some creations
        add([K(0, 1), K(1, 2), K(2, 3), J(0), D(0), J(1), D(1), J(2), D(2)], [I, EX(1)], [I, X(2)], [I, EX(3)], fail=f, limit=lim, preempt=1)
    rng = ctx.rng('thread')
    for _ in range(ctx.pick(30, 300)):
        n = rng.randint(1, 4)
        main, live = [], []
        for k in range(n):
            main.append(K(k, k + 1, rng.randrange(4))); live.append(k)
            if rng.random() < .3: main.append(I)
            if rng.random() < .3:
                main.append(J(rng.choice(live)))
            if live and rng.random() < .3:
                x = rng.choice(live); live.remove(x); main.append(D(x))
        rng.shuffle(live)
        for x in live:
            if rng.random() < .5: main.append(J(x))
        rng.shuffle(live)
        for x in live: main.append(D(x))
        add(main, *[[rng.choice([I, Y])] * rng.randint(0, 2) + [rng.choice([EX, X])(rng.choice(codes))] for _ in range(n)], limit=0, rnd=ctx.pick(60, 600), stay=rng.choice([20, 60]), seed=ctx.seed * 1000 + rng.randrange(10**6))
    models(ctx, 'thread')
    conform(ctx, jobs, S, 'ThreadTrace', ('TAbs0', 'TOut', 'TObs', 'TTimeout'))
    ctx.assumptions += ['a handle is not used by two threads at once', 'pthread_create, join and exit go to the real threads through a model that checks POSIX rules (joined or detached exactly once); the reuse of native thread identifiers after a join is not modelled']


def c34(ctx):
    jobs = [build(ctx)]
    Sx, Gx, Kx, Dx = (lambda s, v: ('S', s, v)), (lambda s: ('G', s, 0)), (lambda s: ('K', s, 0)), (lambda s: ('D', s, 0))
    S = []
    add = lambda n, *pr, **kw: S.append(scen('tls', [n], list(pr), **kw))
    lim = ctx.pick(5000, 60000)
    add(1, [Gx(0), Sx(0, 1), Gx(0)], [Gx(0), Sx(0, 2), Gx(0)], limit=lim, preempt=4); add(2, [Sx(0, 1), Sx(1, 2), Gx(0), Gx(1)], [Gx(0), Gx(1), Sx(1, 3), Gx(1)], limit=lim)
    add(1, [Sx(0, 1), Sx(0, 0), Gx(0), Sx(0, 2), Gx(0)], [Gx(0)], limit=lim); add(3, [Sx(2, 1), Gx(0), Gx(1), Gx(2)], [Sx(0, 2), Gx(0), Gx(1), Gx(2)], [Sx(1, 3), Gx(0), Gx(1), Gx(2)], limit=lim)
    add(2, [Sx(0, 1), Sx(1, 2), Dx(0), Gx(1), Kx(0), Gx(0), Gx(1), Sx(0, 3), Gx(0), Gx(1)], [Sx(1, 4), Gx(1), Gx(1)], limit=lim)
    add(0, [Kx(0), Kx(1), Kx(2), Kx(3), Sx(0, 1), Sx(3, 4), Gx(0), Gx(1), Gx(2), Gx(3), Dx(1), Gx(0), Gx(3), Kx(4), Gx(4), Sx(4, 5), Gx(0), Gx(3), Gx(4)], limit=1)
    add(0, [Kx(0), Sx(0, 1), Dx(0), Kx(1), Gx(1), Sx(1, 2), Dx(1), Kx(0), Gx(0)], limit=1)
    rng = ctx.rng('tls')
    for _ in range(ctx.pick(60, 600)):
        n = rng.randint(1, 5)
        prog = lambda: [Sx(rng.randrange(n), rng.randrange(6)) if rng.random() < .5 else Gx(rng.randrange(n)) for _ in range(rng.randint(2, 6))]
        add(n, *[prog() for _ in range(rng.randint(1, 4))], limit=ctx.pick(50, 500), rnd=ctx.pick(60, 600), stay=40, seed=ctx.seed * 1000 + rng.randrange(10**6))
    for _ in range(ctx.pick(60, 600)):                     # one thread, slots come and go
        up, prog = set(), []
        for _ in range(rng.randint(6, 24)):
            k = rng.randrange(8)
            if k not in up: prog.append(Kx(k)); up.add(k); prog.append(Gx(k))
            elif rng.random() < .25: prog.append(Dx(k)); up.discard(k)
            elif rng.random() < .5: prog.append(Sx(k, rng.randrange(1, 60)))
            for j in rng.sample(sorted(up), min(2, len(up))): prog.append(Gx(j))
        add(0, prog, limit=1)
    for _ in range(ctx.pick(150, 2000)):                   # several threads, slots come and go: the threads take turns
        T, up, progs, step = rng.randint(2, 4), set(), None, 0
        progs, cur = [[] for _ in range(T)], 0
        for _ in range(rng.randint(6, 16)):
            t = rng.randrange(T)
            if t != cur: progs[cur].append(('V', 0, 0)); step += 1; progs[t].append(('W', step, 0)); cur = t
            for _ in range(rng.randint(1, 3)):
                k = rng.randrange(4)
                if k not in up: progs[t].append(Kx(k)); up.add(k)
                elif rng.random() < .3: progs[t].append(Dx(k)); up.discard(k); k = None
                elif rng.random() < .7: progs[t].append(Sx(k, rng.randrange(1, 60)))
                if up: progs[t].append(Gx(rng.choice(sorted(up)) if k is None or rng.random() < .4 else k))
        for t in range(T):                                 # everybody looks at everything that is left
            progs[cur].append(('V', 0, 0)); step += 1; progs[t].append(('W', step, 0)); cur = t
            for k in sorted(up): progs[t].append(Gx(k))
        add(0, *progs, limit=ctx.pick(3, 20))
    conform(ctx, jobs, S, 'TlsTrace', ('LAbs0', 'LOut', 'LExtra', 'LTimeout'))
    ctx.assumptions += ['up to 5 threads and 8 slots; the keys are the real pthread keys']


def c35(ctx):
    jobs = [build(ctx)]
    rng = ctx.rng('timer')
    S = []
    def fit(ds):                                                # the clocks end some 290 years after 1970
        while sum(ds) > 6 * 10**18: ds = ds[1:]
        return ds
    add = lambda ds, **kw: S.append(scen('timer', [], [[('T', d, 0) for d in fit(ds)]], limit=1, tick=kw.pop('tick', 100), **kw))
    DUR = [0, 1, 2, 999, 1000, 999999, 10**6, 10**9 - 1, 10**9, 10**9 + 1, 2 * 10**9, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 4294967296 * 3 + 5, 10 * 10**9, 3600 * 10**9, 86400 * 10**9, 2**53 + 1, 10**18, 2**60, 3 * 10**18]
    for d in DUR:
        for eintr in (0, 1, 2, 3, 5, 7, 2**31 - 1):
            for pct in (0, 1, 50, 99):
                add([d], eintr=eintr, pct=pct)
        add([d] * (3 if d <= 2 * 10**18 else 2), eintr=2, pct=33)
    for _ in range(ctx.pick(1500, 20000)):
        add([rng.choice([rng.randrange(2**rng.randint(1, 61)), rng.choice(DUR), rng.randrange(9) * 10**9 + rng.choice([0, 1, 10**9 - 1, rng.randrange(10**9)])]) for _ in range(rng.randint(1, 3))],
            eintr=rng.choice([0, rng.randrange(2**12), rng.randrange(2**31)]), pct=rng.randrange(100), tick=rng.choice([0, 1, 100, 10000]))
    models(ctx, 'timer')
    batch(ctx, jobs[0], S, 'TimerTrace', None)
    ctx.assumptions += ['nanosleep, clock_nanosleep, usleep and sleep are replaced by a model of POSIX with virtual time and interruptions after a chosen share of each sleep',
                        'not much later means at most 50 ms beyond the request in virtual time; durations up to 3e18 ns']


def batch(ctx, exe, S, module, subst):
    """Many single-threaded scenarios in few processes."""
    n = (len(S) + NCPU - 1) // NCPU
    parts = [S[k:k + n] for k in range(0, len(S), n)]
    def job(part):
        rc, o, er = ctx.run_raw(exe, ''.join(line(s) for s in part), 300)
        out = [[]]
        for l in o.splitlines():
            r = json.loads(l)
            if 'done' in r:
                out.append([])
            else:
                out[-1].append(r)
        if rc in (77, 78):
            raise CheckError('scheduler: ' + er[-500:])
        if rc != 0 or len(out) != len(part) + 1:
            raise Violation('the real code crashed or hung', dict(scenario=part[min(len(out) - 1, len(part) - 1)], exit=str(rc), message=er[-600:]))
        return [(flat(dict(par=s['par'], eager=0, h=x['h'], zs=times(x['h']))), s, exe, x) for s, hs in zip(part, out) for x in hs]
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        hist = [x for p in ex.map(job, parts) for x in p]
    judge(ctx, hist, module, subst, None)
    ctx.add('schedules_executed', len(S))
    ctx.add('histories_validated', len(hist))
    ctx.add('traces_validated_against_impl', len(hist))
    ctx.log('%d runs of the real code, %d histories accepted by TLC' % (len(S), len(hist)))
    ctx.sample(dict(kind='history of the real code accepted by TLC', history=hist[len(hist) // 2][3]['h']))


def models(ctx, what):
    """Design models: the algorithms, step by step, against the abstract objects."""
    B = {True: 'TRUE', False: 'FALSE'}
    def go(module, consts, inv, prop=None):
        c = 'SPECIFICATION Spec\nCONSTANTS\n' + ''.join(' %s = %s\n' % kv for kv in consts.items()) + 'INVARIANTS ' + inv + '\n' + ('PROPERTY %s\n' % prop if prop else '') + 'CHECK_DEADLOCK FALSE\n'
        ctx.tlc_model(module, c, workers=NCPU, timeout=600)
        ctx.log('model %s %s: %s' % (module, consts, ctx.cov['models'][-1]))
    if what == 'queue':
        for cap, pre, n in ctx.pick(((1, 0, 3), (1, 1, 2), (2, 0, 3), (2, 2, 2)), ((1, 0, 4), (1, 1, 4), (2, 0, 4), (2, 1, 4), (2, 2, 4), (3, 0, 5), (3, 2, 4))):
            go('QueueImpl', dict(Cap=cap, Pre=pre, MaxP=n, MaxC=n, Timed='TRUE'), 'Linearizable Bounded Disjoint NoLostWakeup', 'Ends')
        if ctx.thorough:
            go('QueueImpl', dict(Cap=3, Pre=1, MaxP=7, MaxC=7, Timed='FALSE'), 'Linearizable Bounded Disjoint NoLostWakeup')
    if what == 'signal':
        go('SignalImpl', dict(T='{1, 2}', MaxOps=2, Timed='TRUE', Spurious=1), 'Linearizable MutualExclusion NoLostWakeup', 'Ends')
        go('SignalImpl', dict(T='{1, 2, 3}', MaxOps=1, Timed='TRUE', Spurious=1), 'Linearizable MutualExclusion NoLostWakeup', None)
        if ctx.thorough:
            go('SignalImpl', dict(T='{1, 2}', MaxOps=3, Timed='TRUE', Spurious=2), 'Linearizable MutualExclusion NoLostWakeup', 'Ends')
            go('SignalImpl', dict(T='{1, 2, 3}', MaxOps=2, Timed='FALSE', Spurious=1), 'Linearizable MutualExclusion NoLostWakeup')
    if what == 'timer':
        go('TimerImpl', dict(MaxReq=6, MaxIntr=4, Late=3), 'NotEarly NotLate', 'Returns')
