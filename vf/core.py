"""Shared machinery: build harnesses from /repo, run TLC, drive the real code, judge, report.

Vocabulary
  event   dict with "op" and arguments (what to do), completed by the harness with
          "res" (what the call returned) and "st" (the projected abstract state afterwards)
  script  list of events without res/st
  graph   the labelled transition graph of an exhaustively checked model
"""
import collections, concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
GXX = ['g++-13', 'g++']
NCPU = 8
CXXFLAGS = ['-std=c++11', '-w', '-fpermissive', '-O1', '-g1', '-iquote', REPO + '/include', '-idirafter', REPO + '/include', '-DFASTFLOAT_FAST_FLOAT_H',
            '-DNANOSTL__NULLPTR', '-include', 'stddef.h', '-I', HARN]
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


class CheckError(Exception):
    """The machinery itself failed (not a verdict about the code)."""


class Violation(Exception):
    def __init__(self, what, detail):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


def which_gxx():
    for c in GXX:
        if shutil.which(c):
            return c
    raise CheckError('no g++')


def flat(x):
    return json.dumps(x, separators=(',', ':'))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        base = os.path.join(VERIF, '.work')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + '-', dir=base)
        self.cov = collections.OrderedDict(states=0, transitions=0, traces_validated_against_impl=0)
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.n = 0
        self.known = load_known(prop)
        self.known_hit = set()
        self.distinct = set()
        self.evaluations = 0
        self.actions = collections.Counter()

    # ---- small utilities -------------------------------------------------
    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, salt=''):
        return random.Random('%s/%s/%s' % (self.seed, self.prop, salt))

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, '%03d-%s' % (self.n, name))

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a)
        sys.stdout.flush()

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, cap=3):
        if len(self.samples) < cap:
            self.samples.append(x)

    # ---- building --------------------------------------------------------
    def build(self, src, flags=(), out=None, san=True, cxx=None, extra_src=(), base=None, timeout=300):
        """Compile a harness against /repo's working tree.  A harness that stops compiling means the
        public interface it uses no longer works: that is reported as a violation, after making sure
        that the compiler itself works."""
        out = out or self.path('h')
        srcs = [src if os.path.isabs(src) else os.path.join(HARN, src)] + list(extra_src)
        cmd = [cxx or which_gxx()] + (CXXFLAGS if base is None else list(base)) + (SAN if san else []) + list(flags) + srcs + ['-o', out]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        if r.returncode == 0:
            return out
        p = self.path('probe.cc')
        open(p, 'w').write('#include <stdio.h>\nint main(){return 0;}\n')
        q = subprocess.run([cmd[0]] + (SAN if san else []) + [p, '-o', p + '.out'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode != 0:
            raise CheckError('compiler does not work: ' + q.stdout[-2000:])
        errs = [l for l in r.stdout.splitlines() if 'error' in l or 'undefined reference' in l]
        raise Violation('a program using the public interface of this property no longer compiles or links',
                        {'cmd': ' '.join(cmd), 'errors': errs[:10] or r.stdout[-1500:]})

    def build_all(self, jobs):
        """jobs: list of (src, kwargs) -> list of executables, compiled in parallel."""
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            fs = [ex.submit(self.build, s, **k) for s, k in jobs]
            return [f.result() for f in fs]

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg_text, env=None, workers=1, args=(), timeout=800, heap='3g', extra=(), gen=None):
        """Run TLC on spec/<module>.tla with the given configuration text. Returns stdout."""
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        if gen:
            for name, text in gen.items():
                p = os.path.join(d, name)
                if os.path.lexists(p):
                    os.unlink(p)
                open(p, 'w').write(text)
        cfg = os.path.join(d, 'run.cfg')
        open(cfg, 'w').write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = ['java', '-XX:+UseParallelGC' if workers != 1 else '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + d, '-cp', CP] + list(extra) + [
            'tlc2.TLC', '-config', cfg, '-workers', str(workers), '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE'] + list(args) + [
            os.path.join(d, module + '.tla')]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired as x:
            raise CheckError('TLC timed out on %s' % module)
        finally:
            shutil.rmtree(os.path.join(d, 'md'), ignore_errors=True)
        return r.returncode, r.stdout

    def tlc_model(self, module, cfg_text, timeout=800, workers=4, edges=False, gen=None, env=None, args=()):
        """Exhaustive model checking of a specification. The design itself must satisfy its
        invariants; a failure here is an error of the specification, not of the code."""
        rc, out = self.tlc(module, cfg_text, workers=1 if edges else workers, timeout=timeout, gen=gen, env=env, args=args)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or not m or 'No error has been found' not in out:
            raise CheckError('model %s failed:\n%s' % (module, out[-4000:]))
        gen_, dist = int(m.group(1)), int(m.group(2))
        self.add('states', dist)
        self.add('transitions', gen_)
        self.cov.setdefault('models', []).append(dict(module=module, distinct_states=dist, generated=gen_))
        if edges:
            return [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"{')]
        return out

    def tlc_trace(self, module, cfg_text, events, timeout=800, gen=None, env=None, heap='3g'):
        """Validate one recorded trace against spec/<module>.tla (a *Trace module reading the file
        named by the environment variable TRACE). Returns (accepted, matched, output)."""
        p = self.path('trace.ndjson')
        with open(p, 'w') as f:
            for e in events:
                f.write(flat(e) + '\n')
        ev = {'TRACE': p}
        ev.update(env or {})
        rc, out = self.tlc(module, cfg_text, env=ev, workers=1, timeout=timeout, gen=gen, heap=heap)
        m = re.findall(r'<<"MATCHED", (\d+), (\d+)>>', out)
        if not m:
            raise CheckError('trace validation of %s broke:\n%s' % (module, out[-4000:]))
        k, n = int(m[-1][0]), int(m[-1][1])
        if n != len(events):
            raise CheckError('trace length mismatch %d %d' % (n, len(events)))
        if k < n and 'Error: Evaluating' in out:
            self.notes.append('TLC evaluation error at line %d' % (k + 1))
        os.unlink(p)
        return k >= n, k, out

    # ---- driving the real code -------------------------------------------
    def run_raw(self, exe, text, timeout=120, env=None, args=()):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=0'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=0:exitcode=98:symbolize=0'
        e.update(env or {})
        p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, errors='replace')
        try:
            o, er = p.communicate(text, timeout=timeout)
            return p.returncode, o, er
        except subprocess.TimeoutExpired:
            p.kill()
            o, er = p.communicate()
            return 'timeout', o, er

    def run_script(self, exe, script, timeout=120, args=()):
        """Feed a script to a harness; return the completed events. If the harness dies, a final
        event {"op":"Crash"} records where: no specification has an action for it."""
        text = ''.join(' '.join(tok(v) for v in cmdline(e)) + '\n' for e in script)
        rc, o, er = self.run_raw(exe, text, timeout, args=args)
        lines = o.split('\n')
        complete = lines[:-1]
        evs = []
        for e, l in zip(script, complete):
            try:
                r = json.loads(l)
            except ValueError:
                break
            x = dict(e)
            x.update(r)
            evs.append(x)
        if rc != 0 or len(evs) != len(script):
            if rc == 77:
                raise CheckError('harness protocol error: ' + er[-500:])
            why = 'timeout' if rc == 'timeout' else 'exit %s' % rc
            m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)', er)
            at = script[len(evs)] if len(evs) < len(script) else {'op': 'exit'}
            evs.append({'op': 'Crash', 'during': at, 'why': why, 'msg': re.sub(r'0x[0-9a-f]+', '0x..', m.group(1)) if m else er.strip()[-300:]})
        return evs

    # ---- reporting -------------------------------------------------------
    def finish(self, level, viol=None):
        cov = self.cov
        if level in ('exploration', 'fault_enumeration') or self.evaluations:
            cov['evaluations'] = self.evaluations
            cov['distinct_nontrivial'] = len(self.distinct) if isinstance(self.distinct, set) else self.distinct
        if self.actions:
            cov['events_by_action'] = dict(self.actions)
        cov['samples'] = self.samples or ['(none)']
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=1 if viol else 0)
        if self.notes:
            cov['notes'] = self.notes[:20]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.rename(p + '.tmp', p)
        shutil.rmtree(self.dir, ignore_errors=True)


ORDER = {k: i for i, k in enumerate('f th s t u i j k m n x y z r d how ty q w p b'.split())}


def cmdline(e):
    ks = [k for k in e if k not in ('op', 'res', 'st') and k[0] != '_']
    return [e['op']] + [e[k] for k in sorted(ks, key=lambda k: (ORDER.get(k, 99), k))]


def tok(v):
    if isinstance(v, bool):
        return '1' if v else '0'
    if isinstance(v, (list, tuple)):
        return ' '.join([str(len(v))] + [tok(x) for x in v])
    return str(v)


def load_known(prop):
    p = os.path.join(VERIF, 'known-findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


# ---- walks over a TLC state graph ------------------------------------------
def walk_graph(edges, init, rng, max_len=400, limit=None, reset=None):
    """Cover every edge of the graph by walks from init. Returns list of walks, each a list of
    edges. Greedy: take an uncovered edge if there is one here, else the shortest path to one."""
    out = collections.defaultdict(list)
    seen = set()
    for e in edges:
        k = (flat(e['from']), flat(e['ev']), flat(e['to']))
        if k in seen:
            continue
        seen.add(k)
        out[k[0]].append((k[2], e, len(seen)))
    for v in out.values():
        rng.shuffle(v)
    unc = {s: [x for x in v] for s, v in out.items()}
    remaining = sum(len(v) for v in unc.values())
    total = remaining
    i0 = flat(init)
    walks, cur, walk = [], i0, []
    steps = 0
    while remaining and (limit is None or steps < limit):
        if unc.get(cur):
            to, e, _ = unc[cur].pop()
            remaining -= 1
            walk.append(e)
            cur = to
            steps += 1
        else:
            # BFS to nearest state with uncovered edges
            prev = {cur: None}
            q = collections.deque([cur])
            goal = None
            while q:
                s = q.popleft()
                if unc.get(s):
                    goal = s
                    break
                for to, e, _ in out.get(s, ()):
                    if to not in prev:
                        prev[to] = (s, e)
                        q.append(to)
            if goal is None:
                if not walk:
                    break
                walks.append(walk)
                walk, cur = [], i0
                if not unc.get(i0):
                    # unreachable leftovers?
                    prev = {i0: None}
                    q = collections.deque([i0])
                    ok = False
                    while q:
                        s = q.popleft()
                        if unc.get(s):
                            ok = True
                            break
                        for to, e, _ in out.get(s, ()):
                            if to not in prev:
                                prev[to] = 1
                                q.append(to)
                    if not ok:
                        break
                continue
            path = []
            s = goal
            while prev[s]:
                path.append(prev[s][1])
                s = prev[s][0]
            walk.extend(reversed(path))
            steps += len(path)
            cur = goal
        if len(walk) >= max_len:
            walks.append(walk)
            walk, cur = [], i0
    if walk:
        walks.append(walk)
    return walks, total, total - remaining


def chunks(l, n):
    k = max(1, (len(l) + n - 1) // n)
    return [l[i:i + k] for i in range(0, len(l), k)]


# ---- generic checks ----------------------------------------------------------
def replay_graph(ctx, exe, edges, init, reset_ev, project=None, max_len=300, limit=None, label=''):
    """Direction 1: every transition TLC found is performed on the real object; result and
    projected state must be what the specification says."""
    walks, total, covered = walk_graph(edges, init, ctx.rng('walk'), max_len, limit)
    ctx.log('%sgraph: %d edges, %d covered by %d walks, %d steps' % (label, total, covered, len(walks), sum(map(len, walks))))

    def one(ws):
        script, exp = [], []
        for w in ws:
            script.append(dict(reset_ev))
            exp.append(None)
            for e in w:
                script.append({k: v for k, v in e['ev'].items() if k != 'res'})
                exp.append(e)
        got = ctx.run_script(exe, script)
        return script, exp, got
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(one, chunks(walks, NCPU)))
    n = 0
    for script, exp, got in rs:
        for i, g in enumerate(got):
            e = exp[i] if i < len(exp) else None
            if g['op'] == 'Crash':
                raise Violation('the real code crashed, hung or did invalid memory accesses where the specification allows a step',
                                dict(event=g, script=last_reset(script, i, reset_ev['op'])))
            if e is None:
                continue
            n += 1
            ctx.actions[g['op']] += 1
            want_st = project(e['to']) if project else e['to']
            if 'res' in e['ev'] and g.get('res') != e['ev']['res'] or g.get('st') != want_st:
                # deterministic re-run before believing it
                again = ctx.run_script(exe, script[:i + 1])
                if len(again) == i + 1 and again[-1].get('res') == e['ev'].get('res', again[-1].get('res')) and again[-1].get('st') == want_st:
                    ctx.notes.append('unrepeatable mismatch ignored at step %d' % i)
                    continue
                raise Violation('result or state after the operation differs from the specification',
                                dict(expected=dict(res=e['ev'].get('res'), st=want_st), observed=dict(res=g.get('res'), st=g.get('st')),
                                     operation=script[i], script=last_reset(script, i, reset_ev['op'])))
    ctx.add('replayed_transitions', n)
    ctx.add('graph_edges', total)
    ctx.add('graph_edges_covered', covered)
    ctx.add('traces_validated_against_impl', len(walks))
    if walks:
        ctx.sample(dict(kind='replay of a TLC behaviour', steps=[e['ev'] for e in walks[0][:12]]))


def last_reset(script, i, op):
    j = i
    while j > 0 and script[j]['op'] != op:
        j -= 1
    return script[j:i + 1]


def validate_runs(ctx, exe, scripts, module, cfg, reset_ev, gen=None, env=None, par=NCPU, label='', args=()):
    """Direction 2: recorded executions of the real code must be behaviours of the specification."""
    def one(ss):
        script = []
        for s in ss:
            script.append(dict(reset_ev))
            script.extend(s)
        got = ctx.run_script(exe, script, args=args)
        ok, k, out = ctx.tlc_trace(module, cfg, got, gen=gen, env=env)
        return script, got, ok, k, out
    groups = [g for g in chunks(scripts, par) if g]
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(one, groups))
    n = 0
    for script, got, ok, k, out in rs:
        if not ok:
            again = ctx.run_script(exe, script, args=args)
            ok2, k2, out2 = ctx.tlc_trace(module, cfg, again, gen=gen, env=env)
            if ok2:
                ctx.notes.append('unrepeatable rejection ignored')
                continue
            bad = again[k2]
            lo = k2
            while lo > 0 and again[lo]['op'] != reset_ev['op']:
                lo -= 1
            raise Violation('recorded execution is not a behaviour of the specification',
                            dict(rejected_event=bad, before=again[k2 - 1] if k2 else None, script=script[lo:k2 + 1]))
        n += len(got)
        for g in got:
            ctx.actions[g['op']] += 1
    ctx.add('validated_events', n)
    ctx.add('traces_validated_against_impl', len(scripts))
    ctx.log('%straces: %d runs, %d events accepted by TLC' % (label, len(scripts), n))
    if scripts:
        ctx.sample(dict(kind='recorded run accepted by TLC (prefix)', script=scripts[0][:12]))
