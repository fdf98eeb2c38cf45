#!/usr/bin/env python3
"""Runs the check of one property: builds the code under test from /repo's working tree together with the
monitoring harness, plays the property's workload on all cores, collects what the monitors saw, writes
evidence/<id>.json and reports violations.   usage: run_check.py <ID> [--tier quick|thorough] [--seed N]
                                                      run_check.py --replay replays/<file>.json"""
import array, glob, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
CORE = ['main', 'hooks', 'scen', 'monitors']
ALL = ['props_cons', 'props_relax', 'props_area', 'props_move', 'props_body', 'props_misc', 'props_files', 'props_repro', 'props_meta']
CXX = 'g++'
BASE = ['-std=c++20', '-g1', '-w', '-I' + REPO]
VARIANTS = {
    # code under test as a shared object so that its functions can be interposed
    'hook': dict(shared=True, lib=['-O2', '-fPIC'], har=['-O1']),
    'asan': dict(shared=False, lib=['-O1', '-g', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR',
                                    '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all',
                                    '-fsanitize-address-use-after-scope'],
                 har=['-O1', '-DSM_NO_HOOKS', '-DSM_ASAN', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR',
                      '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all']),
    'plain': dict(shared=False, lib=['-O1', '-g'], har=['-O1', '-DSM_NO_HOOKS']),
    'zero': dict(shared=False, lib=['-O2', '-ftrivial-auto-var-init=zero'], har=['-O1', '-DSM_NO_HOOKS']),
    'pattern': dict(shared=False, lib=['-O2', '-ftrivial-auto-var-init=pattern'], har=['-O1', '-DSM_NO_HOOKS']),
}
# property -> harness sources and stages (variant, share of the cases, environment, command prefix)
def S(variant='hook', **kw):
    return dict(variant=variant, **kw)
# workloads of the other properties that are also run under the sanitizers, with their share of the cases
SHARED = {'P01': 0.06, 'P02': 0.04, 'P05': 0.05, 'P06': 0.02, 'P07': 0.02, 'P08': 0.02, 'P09': 0.02, 'P10': 0.02, 'P11': 0.03,
          'P12': 0.05, 'P13': 0.04, 'P14': 0.04, 'P15': 0.03, 'P16': 0.04, 'P17': 0.03, 'P18': 0.04, 'P19': 0.04, 'P20': 0.02, 'P21': 0.02,
          'P23': 0.03, 'P24': 0.02, 'P25': 0.02}
CONF = {
    **{p: (['props_cons'], [S()]) for p in ('P01', 'P02', 'P03')},
    **{p: (['props_relax'], [S()]) for p in ('P07', 'P08', 'P09', 'P10', 'P11')},
    **{p: (['props_body'], [S()]) for p in ('P05', 'P06', 'P20', 'P21')},
    'P15': (['props_area'], [S()]),
    **{p: (['props_move'], [S()]) for p in ('P12', 'P13', 'P14')},
    **{p: (['props_misc'], [S()]) for p in ('P17', 'P19', 'P22')},
    'P18': (['props_files'], [S()]),
    **{p: (['props_meta'], [S()]) for p in ('P23', 'P24', 'P25')},
    # the same cases in builds and environments that fill uninitialised memory differently, dealt to the workers
    # differently so that other simulations come before them in the process
    'P16': (['props_repro'], [S(), S('plain', tag=':perturb', share=0.5, jobs=7, env={'MALLOC_PERTURB_': '165'}),
                              S('zero', share=0.25), S('pattern', share=0.25, jobs=5)]),
    'P04': (ALL, [S('asan'), S('asan', tag=':shared', props=SHARED),
                  S('plain', tag=':balance', share=0.4),
                  S('plain', tag=':valgrind', share=0.04,
                    prefix=['valgrind', '-q', '--error-exitcode=97', '--exit-on-first-error=yes', '--leak-check=no'])]),
}


class ToolError(Exception):
    pass


def sh(cmds, jobs=8):
    """Runs compile commands in parallel; raises on the first failure."""
    todo, running, fail = list(cmds), [], None
    while todo or running:
        while todo and len(running) < jobs:
            c, cwd = todo.pop(0)
            running.append((c, subprocess.Popen(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        c, p = running.pop(0)
        out = p.communicate()[0].decode(errors='replace')
        if p.returncode and not fail:
            fail = ' '.join(c) + '\n' + out[-3000:]
    if fail:
        raise ToolError('build failed: ' + fail)


def other_names(lib):
    """Definitions for the functions in hooks.cpp that the library exports under another mangled name, because a
    parameter is passed by reference to const and not by value."""
    text = open(H + '/hooks.cpp').read()
    want = dict(re.findall(r'#define (SYM_\w+) "(\w+)"', text))
    have = [l.split()[-1] for l in subprocess.run(['nm', '-D', '--defined-only', lib], capture_output=True, text=True,
                                                  check=True).stdout.splitlines()]
    miss = {k: s for k, s in want.items() if s not in have}
    if not miss:
        return []

    def plain(names):
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True, check=True).stdout
        return [re.sub(r'\bconst\b|[& ]', '', l) for l in out.splitlines()]
    by = {}
    for s, p in zip(have, plain(have)):
        by.setdefault(p, []).append(s)
    return [f'-D{k}="{by[p][0]}"' for (k, s), p in zip(miss.items(), plain(miss.values())) if len(by.get(p, [])) == 1]


def build(bdir, variant, srcs):
    v = VARIANTS[variant]
    d = os.path.join(bdir, variant)
    os.makedirs(d, exist_ok=True)
    cmds, lo, ho = [], [], []
    for f in sorted(glob.glob(REPO + '/soil_simulator/*.cpp')):
        b = os.path.basename(f)
        if b == 'main.cpp':
            continue
        o = d + '/s_' + b[:-4] + '.o'
        lo.append(o)
        # relative path: the writers derive the results folder from it
        cmds.append(([CXX] + BASE + v['lib'] + ['-c', 'soil_simulator/' + b, '-o', o], REPO))
    for s in CORE + srcs:
        o = d + '/h_' + s + '.o'
        ho.append(o)
        cmds.append(([CXX] + BASE + v['har'] + ['-c', H + '/' + s + '.cpp', '-o', o], H))
    cmds.sort(key=lambda c: -os.path.getsize(c[0][-3] if os.path.isabs(c[0][-3]) else REPO + '/' + c[0][-3]))
    sh(cmds)
    exe = d + '/h'
    san = [x for x in v['har'] if x.startswith('-fsanitize')]
    if v['shared']:
        sh([([CXX, '-shared'] + lo + ['-o', d + '/libsoil.so', '-lglog'], d)])
        renamed = other_names(d + '/libsoil.so')
        if renamed:
            sh([([CXX] + BASE + v['har'] + renamed + ['-c', H + '/hooks.cpp', '-o', d + '/h_hooks.o'], H)])
        sh([([CXX] + ho + ['-o', exe, '-rdynamic', '-L' + d, '-lsoil', '-Wl,-rpath,' + d, '-lglog', '-ldl'], d)])
    else:
        sh([([CXX] + san + ho + lo + ['-o', exe, '-lglog', '-ldl'], d)])
    return exe


def name_of(st):
    return st['variant'] + st.get('tag', '')


def workdir(bdir, name):
    d = os.path.join(bdir, 'cwd_' + name)
    os.makedirs(d + '/soil_simulator', exist_ok=True)
    os.makedirs(d + '/results', exist_ok=True)
    return d


class Worker:
    def __init__(self, bdir, exe, pid, tier, seed, frm, to, stride, name, stage, deadline):
        self.out = f'{bdir}/{name}.json'
        self.prog = f'{bdir}/{name}.prog'
        self.err = f'{bdir}/{name}.err'
        for f in (self.out, self.out + '.hash', self.prog):
            if os.path.exists(f):
                os.unlink(f)
        self.cmd = stage.get('prefix', []) + [exe, '--prop', pid, '--tier', tier, '--seed', str(seed), '--from', str(frm),
            '--to', str(to), '--stride', str(stride), '--out', self.out, '--progress', self.prog,
            '--deadline', str(deadline), '--variant', stage['variant'] + stage.get('tag', '')]
        env = dict(os.environ)
        env.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1',
                    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1', 'OMP_NUM_THREADS': '1'})
        env.update(stage.get('env', {}))
        self.p = subprocess.Popen(self.cmd, cwd=workdir(bdir, name), env=env, stdout=subprocess.DEVNULL,
                                  stderr=open(self.err, 'w'), start_new_session=True)
        self.last = (None, time.time())
        self.hang = False

    def case(self):
        try:
            b = open(self.prog, 'rb').read(8)
            return int.from_bytes(b, 'little', signed=True) if len(b) == 8 else None
        except OSError:
            return None

    def poll(self, stall):
        if self.p.poll() is not None:
            return True
        c = self.case()
        if c != self.last[0]:
            self.last = (c, time.time())
        elif time.time() - self.last[1] > stall:
            self.hang = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def result(self):
        try:
            return json.load(open(self.out))
        except (OSError, ValueError):
            return None

    def tail(self):
        try:
            t = open(self.err, errors='replace').read()
        except OSError:
            return ''
        keep = [l for l in t.splitlines() if 'ERROR' in l or 'runtime error' in l or 'SUMMARY' in l or 'terminate' in l
                or 'what()' in l or l.strip().startswith('#') or 'Invalid' in l or 'uninit' in l or 'Assert' in l]
        return ' | '.join(keep[:8])[:1500] or t[-400:].replace('\n', ' | ')


def wait_all(ws, stall):
    while not all([w.poll(stall) for w in ws]):
        time.sleep(0.05)


def run_stage(bdir, exe, pid, tier, seed, stage, ncases, deadline):
    jobs = stage.get('jobs', 8)
    stall = stage.get('stall', 150 if tier == 'quick' else 400)
    name = stage['variant'] + stage.get('tag', '')
    ws = [Worker(bdir, exe, pid, tier, seed, w, ncases, jobs, f'{name}_w{w}', stage, deadline) for w in range(jobs)]
    wait_all(ws, stall)
    res, viols, dead = [], [], []
    for n, w in enumerate(ws):
        r = w.result()
        if r is not None:
            r['hash'] = w.out + '.hash'
            res.append(r)
        elif w.case() is None:
            raise ToolError(f'worker {n} of {name} died before its first case: rc {w.p.returncode} {w.tail()}')
        else:
            dead.append((n, w))
    # confirm with only the case that failed, then with the worker's whole range
    single = [Worker(bdir, exe, pid, tier, seed, w.case(), w.case() + 1, 1, f'{name}_again{n}', stage, deadline) for n, w in dead]
    wait_all(single, stall * 1.3)
    rest = []
    for (n, w), again in zip(dead, single):
        c = w.case()
        if again.result() is None:
            viols.append(dict(key=('hang' if again.hang else 'crash') + ':' + name, case=c, stage=name,
                              msg=f'{"hang" if w.hang else "crash"} in case {c} (exit {w.p.returncode}), confirmed: ' + (again.tail() or w.tail())))
        else:
            rest.append((n, w))
    if viols:
        rest = []
    whole = [Worker(bdir, exe, pid, tier, seed, n, ncases, jobs, f'{name}_again{n}', stage, deadline) for n, w in rest]
    wait_all(whole, stall)
    for (n, w), again in zip(rest, whole):
        r = again.result()
        if r is None:
            c = again.case()
            viols.append(dict(key=('hang' if again.hang else 'crash') + ':' + name, case=c, stage=name, start=n, stride=jobs,
                              msg=f'{"hang" if w.hang else "crash"} in case {c}, confirmed when replaying the cases before it: ' + again.tail()))
        else:
            r['hash'] = again.out + '.hash'
            res.append(r)
    for r in res:
        for v in r['viols']:
            v['stage'] = name
            viols.append(v)
    return res, viols


def known_findings():
    k = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property='):
                f = l.split(' ', 3)
                k.append((f[1].split('=', 1)[1], f[2].split('=', 1)[1], f[3] if len(f) > 3 else ''))
    return k


def check(pid, tier, seed, only=None):
    t0 = time.time()
    srcs, stages = CONF[pid]
    level = 'exploration'
    bdir = os.path.join(VERIF, 'build', f'{pid}.{os.getpid()}')
    if os.path.exists(bdir):
        shutil.rmtree(bdir)
    os.makedirs(bdir)
    deadline = 330 if tier == 'quick' else 700
    try:
        res, viols, exes, per_stage, traces = [], [], {}, {}, {}
        for st in stages:
            if any(v['key'].startswith(('crash:', 'hang:')) for v in viols):
                break       # the remaining stages would only repeat it, slowly
            if only and only['stage'] != st['variant'] + st.get('tag', ''):
                continue
            var = st['variant']
            if var not in exes:
                exes[var] = build(bdir, var, srcs)
            info = {}
            for l in subprocess.run([exes[var], '--list'], capture_output=True, text=True, check=True).stdout.splitlines():
                f = l.split('\t')
                info[f[0]] = (int(f[1]), int(f[2]))
            for sub in st.get('props', [pid]):
                if any(v['key'].startswith(('crash:', 'hang:')) for v in viols):
                    break
                n = info[sub][0 if tier == 'quick' else 1]
                n = max(8, int(n * (st['props'][sub] if 'props' in st else st.get('share', 1.0))))
                if only:
                    w = Worker(bdir, exes[var], only.get('workload', sub), tier, seed, only.get('start', only['case']), only['case'] + 1,
                               only.get('stride', 1), 'replay', st, 10 ** 6)
                    wait_all([w], 3600)
                    r = w.result()
                    if r is None:
                        return [dict(key='crash', case=only['case'], msg=w.tail())], None
                    return r['viols'], None
                r, v = run_stage(bdir, exes[var], sub, tier, seed, dict(st, tag=st.get('tag', '')), n,
                                 max(30, deadline - (time.time() - t0)) if len(stages) == 1 and 'props' not in st
                                 else st.get('deadline', deadline))
                if sub != pid:      # only what the instrumentation reports; the oracles belong to other checks
                    v = [x for x in v if x['key'].startswith(('crash:', 'hang:'))]
                    for x in r:
                        x['counters'], x['samples'] = {sub + ' cases': x['cases']}, []
                for x in v:
                    x['workload'] = sub
                for x in r:
                    for l in open(x['hash'][:-5] + '.trace'):
                        c, d = l.split()
                        traces.setdefault((sub, int(c)), []).append((name_of(st), d))
                res += r
                viols += v
                k = var + st.get('tag', '') + ('' if sub == pid else ':' + sub)
                per_stage[k] = sum(x['cases'] for x in r)
        for (sub, c), l in sorted(traces.items()):
            if len({d for _, d in l}) > 1:
                viols.append(dict(key='differs', case=c, stage=l[-1][0], workload=sub, msg='outputs differ between builds or environments: '
                                  + ', '.join(f'{n}: {d}' for n, d in l)))
        distinct, cnt, hits, samples = set(), {}, {}, []
        if any(len(l) > 1 for l in traces.values()):
            cnt['cases compared between builds and environments'] = sum(len(l) > 1 for l in traces.values())
        for r in res:
            a = array.array('Q')
            raw = open(r['hash'], 'rb').read()
            a.frombytes(raw[:len(raw) // 8 * 8])
            distinct.update(a)
            for k, v in r['counters'].items():
                cnt[k] = cnt.get(k, 0) + v
            for k, v in r['hits'].items():
                hits[k] = hits.get(k, 0) + v
            samples += [s[:1200] for s in r['samples'][:1]]
        known = [(k, w) for p, k, w in known_findings() if p == pid]
        new, seen_known = [], {}
        for v in viols:
            m = [x for x in known if x[0] == v['key']]
            if m:
                seen_known[m[0][0]] = m[0][1]
            else:
                new.append(v)
        ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=dict(
            evaluations=sum(r['cases'] for r in res), distinct_nontrivial=len(distinct),
            rule=res[0]['rule'] if res else '', samples=samples[:8], observed=cnt, calls_seen_by_hooks=hits,
            cases_per_stage=per_stage), assumptions=[
                'float heights are compared with tolerances far below one cell height',
                'workloads keep the body inside the grid as the property requires'],
            wall_s=round(time.time() - t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, w in seen_known.items():
            print(f'KNOWN-FINDING: property={pid} {w}')
        print(f"{pid} {tier} seed {seed}: {ev['coverage']['evaluations']} cases, {len(distinct)} distinct non-trivial, "
              f"{ev['wall_s']} s, {len(new)} violations")
        if new:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            first = None
            for n, v in enumerate(new[:10]):
                path = os.path.join(rd, f'{pid}-{n}.json')
                with open(path, 'w') as f:
                    json.dump(dict(property=pid, tier=tier, seed=seed, **v), f, indent=1)
                print(f"  {v['key']} (case {v['case']}): {v['msg'][:600]}")
                first = first or path
            print(f'VIOLATION property={pid} replay={first}')
            return new, 1
        if not res or not distinct:
            print('nothing was observed: no answer')
            return new, 2
        return new, 0
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(bdir, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        r = json.load(open(a[1]))
        if r['key'] == 'differs':       # needs all stages
            sys.exit(check(r['property'], r['tier'], r['seed'])[1])
        v, _ = check(r['property'], r['tier'], r['seed'], only=r)
        for x in v:
            print(f"reproduced: {x['key']}: {x['msg']}")
        if not v:
            print('not reproduced')
        sys.exit(1 if v else 0)
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--seed' in a:
        seed = int(a[a.index('--seed') + 1])
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        sys.exit(check(pid, tier, seed)[1])
    except (ToolError, subprocess.CalledProcessError, OSError) as e:
        print(f'CHECK-ERROR property={pid}: {e}')
        sys.exit(2)


main()
