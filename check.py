#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]      run the check of one property
   check.py PROPERTY --replay FILE [--trace]      reproduce a reported violation
   check.py --build-runtime                       (setup_cmd) compile the simulator runtime
Deterministic simulation: builds the property's harness together with /repo's current sources (instrumented), then
searches seeded schedules and fault sequences on all cores. See DESIGN.md."""
import hashlib, json, os, re, shutil, subprocess, sys, time, glob, struct
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_DEV_REPO', '/repo')  # the override is for developing repairs only
BUILD = os.path.join(V, 'build'); EVID = os.path.join(V, 'evidence'); SIM = os.path.join(V, 'sim')
sys.path.insert(0, V)
from props import PROPS, SRC_FLAGS
NPROC = os.cpu_count() or 4
RT = ['sched', 'mem', 'tsan', 'posix', 'disk', 'main']
FAULT_NOTE = 'counts of faults that actually fired, not that were merely enabled'

def die(msg):
    print('CHECK-ERROR: ' + msg); sys.exit(2)
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def build_runtime():
    key = digest([os.path.join(SIM, f + '.cpp') for f in RT] + [os.path.join(SIM, f) for f in ('rt.h', 'sim.h')])
    d = os.path.join(BUILD, 'rt-' + key)
    if os.path.isdir(d): return d
    t = d + '.tmp%d' % os.getpid(); os.makedirs(t, exist_ok=True)
    ps = [(f, subprocess.Popen(['g++-10', '-std=c++17', '-O2', '-g1', '-fno-pie', '-w', '-c', os.path.join(SIM, f + '.cpp'), '-o', os.path.join(t, f + '.o')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for f in RT]
    for f, p in ps:
        o = p.communicate()[0]
        if p.returncode: shutil.rmtree(t, ignore_errors=True); die('runtime %s does not compile:\n%s' % (f, o[-3000:]))
    try: os.rename(t, d)
    except OSError: shutil.rmtree(t, ignore_errors=True)
    return d

def repo_files():
    r = []
    for pat in ('include/bss-util/*', 'bss-util/*'):
        r += [p for p in glob.glob(os.path.join(REPO, pat)) if os.path.isfile(p) and p.endswith(('.h', '.c', '.cpp', '.inc', '.hpp', '.inl'))]
    return r

def compile_units(t, cfg, variants, sources, optional=False):
    units = []  # (variant, source, base)
    for vn, vf in variants:
        for s in sources:
            b = os.path.join(t, vn + '_' + os.path.basename(s))
            inst = SRC_FLAGS.split() + vf.split() + cfg.get('flags', '').split()
            cc = ['gcc-10', '-std=gnu99'] if s.endswith('.c') else ['g++-10', '-std=c++17']
            cmd = cc + inst + ['-I' + SIM, '-I' + os.path.join(V, 'harness'), '-I' + REPO + '/include', '-I' + REPO + '/bss-util', '-S', s, '-o', b + '.s0']
            units.append((vn, s, b, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
    done = []
    for u in units:
        vn, s, b, p = u; o = p.communicate()[0]
        if not p.returncode: done.append(u)
        elif not optional:
            for x in units: x[3].kill()
            shutil.rmtree(t, ignore_errors=True); die('%s does not compile:\n%s' % (s, o[-3000:]))
    for vn, s, b, p in done:
        r = sh([sys.executable, os.path.join(SIM, 'instr.py'), b + '.s0', b + '.s'])
        if r.returncode: die('instr.py failed: ' + r.stdout[-2000:])
        r = sh(['g++-10', '-c', b + '.s', '-o', b + '.o'])
        if r.returncode: die('assembling %s failed: %s' % (s, r.stdout[-2000:]))
        os.unlink(b + '.s0'); os.unlink(b + '.s')
    return done

def build(prop):
    cfg = PROPS[prop]; rt = build_runtime()
    hsrc = [os.path.join(V, 'harness', prop + '.cpp')]
    key = digest(repo_files() + hsrc + glob.glob(os.path.join(V, 'harness', '*.h')) + [os.path.join(SIM, f) for f in ('sim.h', 'common.h', 'instr.py')], rt + json.dumps(cfg, sort_keys=True, default=str))
    d = os.path.join(BUILD, '%s-%s' % (prop, key))
    names = [v[0] for v in cfg['variants']]
    if os.path.isdir(d): return d, names
    for old in glob.glob(os.path.join(BUILD, prop + '-*')): shutil.rmtree(old, ignore_errors=True)
    t = d + '.tmp%d' % os.getpid(); os.makedirs(t)
    units = compile_units(t, cfg, cfg['variants'], hsrc + [os.path.join(REPO, x) for x in cfg.get('repo', [])])
    def link(vn, extra=[]):
        return sh(['g++-10', '-no-pie', '-rdynamic', '-o', os.path.join(t, vn)] + [u[2] + '.o' for u in units if u[0] == vn] + extra + glob.glob(rt + '/*.o') + ['-ldl', '-lpthread', '-lrt'] + cfg.get('libs', '').split())
    for vn, vf in cfg['variants']:
        r = link(vn)
        if r.returncode: # code may have moved to another source file of the library: offer all of them
            have = [os.path.join(REPO, x) for x in cfg.get('repo', [])]
            rest = [x for x in glob.glob(os.path.join(REPO, 'bss-util', '*')) if x.endswith(('.c', '.cpp')) and x not in have and 'dllmain' not in os.path.basename(x).lower()]
            more = compile_units(t, cfg, [(vn, vf)], rest, optional=True); a = os.path.join(t, vn + '.a')
            sh(['ar', 'rcs', a] + [u[2] + '.o' for u in more])
            r = link(vn, [a]); 
            if r.returncode: r = link(vn, [a, '-lfontconfig'])
            units += more
        if r.returncode: shutil.rmtree(t, ignore_errors=True); die('link failed:\n' + r.stdout[-3000:])
    for u in units: os.unlink(u[2] + '.o')
    try: os.rename(t, d)
    except OSError: shutil.rmtree(t, ignore_errors=True)
    return d, names

def known_findings(prop):
    """known: property=C01 class=<class> match=<regex> :: text   (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+class=(\S+)\s+match=(.*?)\s+::\s+(.*)', l)
            if m and m.group(1) == prop: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out

def replay_sample(path, n=14):
    try: return ''.join(open(path).readlines()[:n]).replace('\n', '; ')[:1500]
    except OSError: return ''

def main():
    a = sys.argv[1:]
    if a and a[0] == '--build-runtime': os.makedirs(BUILD, exist_ok=True); build_runtime(); return 0
    prop = a[0]
    if prop not in PROPS: die('unknown property ' + prop)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    cfg = PROPS[prop]; t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    d, names = build(prop); tb = time.time() - t0
    if '--replay' in a:
        f = a[a.index('--replay') + 1]; variant = names[0]
        for l in open(f):
            if l.startswith('variant '): variant = l.split()[1]
        r = sh([os.path.join(d, variant), 'replay', f] + (['--trace'] if '--trace' in a else []))
        print(r.stdout)
        if r.returncode == 1: print('VIOLATION property=%s replay=%s' % (prop, f))
        return 1 if r.returncode == 1 else 0 if r.returncode == 0 else 2
    # 1. determinism self-check: every seed is one execution, in any process, and its recording replays identically
    nd = 12
    procs = [(n, subprocess.Popen([os.path.join(d, n), 'hash', '--property', prop, '--seed', str(seed), '--count', str(nd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')) for n in names for _ in (0, 1)]
    outs = {}
    for n, p in procs:
        o = p.communicate()[0]
        if p.returncode or 'REPLAY-DIFFERS' in o: die('determinism self-check failed for %s: %s' % (n, o[-1500:]))
        if outs.setdefault(n, o) != o: die('two executions of the same seeds differ (%s)\n%s\n%s' % (n, outs[n][-800:], o[-800:]))
    # 2. seeded search
    budget = float(os.environ.get('SIM_TIME', cfg.get(tier + '_time', 30 if tier == 'quick' else 600)))
    cap = int(cfg.get(tier + '_runs', 10**9))
    scratch = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid())); os.makedirs(scratch, exist_ok=True)
    kf = known_findings(prop); kseen = {}
    workers = []; nw = max(NPROC, len(names))
    for w in range(nw):
        workers.append(dict(v=names[w % len(names)], first=w // len(names), stride=max(1, (nw - (w % len(names)) + len(names) - 1) // len(names)), w=w, proc=None, res=[], left=budget, count=max(1, cap // nw)))
    tot = {}; viol = None; tsearch = time.time()
    def start(k):
        k['out'] = os.path.join(scratch, 'v%d' % k['w']); k['hash'] = os.path.join(scratch, 'h%d_%d' % (k['w'], len(k['res'])))
        k['t'] = time.time()
        k['proc'] = subprocess.Popen([os.path.join(d, k['v']), 'search', '--property', prop, '--seed', str(seed), '--first', str(k['first']), '--stride', str(k['stride']), '--count', str(k['count']), '--time', '%.1f' % k['left'], '--out', k['out'], '--hashes', k['hash']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    for k in workers: start(k)
    active = list(workers); stopped = False
    while active:
        time.sleep(0.05)
        for k in list(active):
            if k['proc'].poll() is None: continue
            o, e = k['proc'].communicate(); active.remove(k)
            if k['proc'].returncode < 0 and stopped: continue
            if k['proc'].returncode not in (0, 1): die('worker failed (%d): %s %s' % (k['proc'].returncode, e[-1500:], o[-500:]))
            r = json.loads(o.strip().splitlines()[-1]); k['res'].append((r, k['hash']))
            if r['violation']:
                hit = next((x for x in kf if x[0] == r['class'] and x[1].search(r['message'])), None)
                if hit:
                    kseen[hit[2]] = kseen.get(hit[2], 0) + 1; k['left'] -= time.time() - k['t']; k['first'] = r['idx'] + k['stride']; k['count'] -= r['runs']
                    if k['left'] > 0.5 and k['count'] > 0: start(k); active.append(k)
                elif viol is None:
                    viol = (k, r); stopped = True
                    for j in active: j['proc'].terminate()
    wall_search = time.time() - tsearch
    hs = set(); agg = dict(faults={}, fault_runs={}, probes={}); meta = {}
    for k in workers:
        for r, hf in k['res']:
            meta = r
            for x in ('runs', 'points', 'atomics', 'switches', 'forced', 'sim_ns', 'events', 'allocs'): agg[x] = agg.get(x, 0) + r[x]
            for x in ('faults', 'fault_runs', 'probes'):
                for n, c in r[x].items(): agg[x][n] = agg[x].get(n, 0) + c
            agg['strategies'] = [p + q for p, q in zip(agg.get('strategies', [0] * 5), r['strategies'])]
            try: b = open(hf, 'rb').read(); hs.update(struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
            except OSError: pass
    rc = 0; nv = 0; samples = []
    if viol:
        k, r = viol; rdir = os.path.join(EVID, 'replays'); os.makedirs(rdir, exist_ok=True)
        raw = k['out']; final = os.path.join(rdir, '%s-%s-%d.replay' % (prop, k['v'], r['idx']))
        exe = os.path.join(d, k['v'])
        m = sh([exe, 'minimize', raw, final, '--time', '20' if tier == 'quick' else '60'])
        if m.returncode != 1: shutil.copy(raw, final)
        x = sh([exe, 'replay', final])
        if x.returncode != 1: die('a violation (%s: %s) was found but its replay did not reproduce it: %s' % (r['class'], r['message'][:500], x.stdout[-800:]))
        txt = open(final).read(); open(final, 'w').write('variant %s\n' % k['v'] + txt)
        print('%s: %s' % (r['class'], r['message'][:3000]))
        print('minimised: ' + m.stdout.strip()[-2000:])
        print('reproduce with: python3 check.py %s --replay %s --trace' % (prop, final))
        print('VIOLATION property=%s replay=%s' % (prop, final)); rc = 1; nv = 1
    # one sampled run written out (deterministic: first run of this seed)
    s = sh([os.path.join(d, names[0]), 'sample', '--property', prop, '--seed', str(seed), '--count', '2'])
    samples = [x for x in s.stdout.split('\n---\n') if x.strip()][:2] or [meta.get('real', '')]
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=nv,
        assumptions=['x86-64, sequentially consistent interleaving of individual memory accesses (hardware store buffering and compiler reordering are not simulated)', 'seeded sampling, not enumeration'] + cfg.get('assumptions', []),
        coverage=dict(evaluations=agg.get('runs', 0), distinct_nontrivial=len(hs), rule=cfg['rule'] + ' Each evaluation is one simulated run (own process, own seed). Non-trivial: more than one recorded history event. Distinct: different hash of the sequence of context switches (thread, position, successor), fired faults, history events and returned values.',
            samples=samples, runs_per_hour=int(agg.get('runs', 0) / max(wall_search, 1e-6) * 3600), seeds_per_hour=int(agg.get('runs', 0) / max(wall_search, 1e-6) * 3600),
            simulated_seconds=agg.get('sim_ns', 0) / 1e9, scheduling_points=agg.get('points', 0), atomic_operations=agg.get('atomics', 0), context_switches=agg.get('switches', 0), history_events=agg.get('events', 0), allocations=agg.get('allocs', 0),
            faults_fired=agg['faults'], runs_with_fault=agg['fault_runs'], fault_note=FAULT_NOTE, probes=agg['probes'], strategies=dict(zip(('random', 'pct', 'stall', 'atomic', 'coarse'), agg.get('strategies', []))),
            components_real=meta.get('real', ''), components_stub=meta.get('stub', ''), variants=names, determinism_selfcheck='%d seeds x %d variants executed twice in separate processes and replayed from their recording: identical event hashes' % (nd, len(names)), search_seconds=round(wall_search, 2), build_seconds=round(tb, 2), known_findings_seen=kseen))
    open(os.path.join(EVID, prop + '.json'), 'w').write(json.dumps(ev, indent=1))
    shutil.rmtree(scratch, ignore_errors=True)
    for text in [x[2] for x in kf]: print('KNOWN-FINDING: property=%s %s' % (prop, text))
    stuck = [n for n, c in agg['probes'].items() if not c]
    print('%s %s: %d runs, %d distinct, %.1f s, faults %s%s' % (prop, tier, agg.get('runs', 0), len(hs), wall, agg['faults'], (' | probes at zero: %s' % stuck) if stuck else ''))
    return rc
if __name__ == '__main__': sys.exit(main())
