#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property by explicit-state model checking of the real code.
   check.py --replay FILE               rebuild from the working tree and re-run a recorded schedule with a trace.
   Options: --only SCEN[-FLAV] (development), --keep (keep build dir)"""
import sys, os, json, time, subprocess, tempfile, shutil, glob, re, threading, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/mc')
sys.dont_write_bytecode = True
import build
JOBS = int(os.environ.get('MC_JOBS', '8'))

def parse_opts(s):
    d = {}
    for t in s.split():
        k, _, v = t.partition('=')
        d[k] = v
    return d

def known():
    """known-findings.txt: 'finding: property=.. scenario=.. flavour=.. at=<function> message=<exact prefix> # text'"""
    r = []
    p = HERE + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) scenario=(\S+) flavour=(\S+) message="([^"]*)" what="([^"]*)"', l)
            if m:
                r.append(dict(zip(('property', 'scenario', 'flavour', 'message', 'what'), m.groups())))
    return r

def scen_files(pid):
    return sorted(glob.glob('%s/scen/%s.c' % (HERE, pid.lower())) + glob.glob('%s/scen/%s_*.c' % (HERE, pid.lower())))

def symbolize(exe, text):
    pcs = sorted(set(re.findall(r'pc=(0x[0-9a-f]+)', text)))
    if not pcs:
        return text
    p = subprocess.run(['addr2line', '-f', '-s', '-e', exe] + pcs, stdout=subprocess.PIPE, text=True)
    L = p.stdout.split('\n')
    mp = {}
    for i, a in enumerate(pcs):
        if 2 * i + 1 < len(L):
            mp[a] = '%s (%s)' % (L[2 * i].replace('W_', '', 1), L[2 * i + 1])
    return re.sub(r'pc=(0x[0-9a-f]+)', lambda m: 'at ' + mp.get(m.group(1), m.group(1)), text)

def run_check(pid, tier, only=None, keep=False):
    t0 = time.time()
    out = tempfile.mkdtemp(prefix='.build-%s-' % pid, dir=HERE)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    procs, lock = {}, threading.Lock()
    try:
        files = scen_files(pid)
        exes = build.build_all(out, files, tuple(os.environ.get('MC_FL', 'VC3 VCE3').split()))
        jobs = []
        for (src, fl), exe in sorted(exes.items()):
            for line in subprocess.run([exe, '--list'], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
                name, _, o = line.partition('\t')
                o = parse_opts(o)
                if o.get('f', fl) != fl:
                    continue
                b = o.get('q' if tier == 'quick' else 't', 'u')
                if b == '-':
                    continue
                if only and only not in (name, name + '-' + fl):
                    continue
                tl = float(o.get('qt' if tier == 'quick' else 'tt', 60 if tier == 'quick' else 420))
                jobs.append(dict(src=src, fl=fl, exe=exe, name=name, bound=b, time=tl, live=o.get('live', '1') == '1', weight=float(o.get('w', '1'))))
        if not jobs:
            print('no scenarios for', pid); return 2
        jobs.sort(key=lambda j: -j['weight'])
        # total budget: checks get 900 s; stay well below
        budget = float(os.environ.get('MC_BUDGET', 420 if tier == 'quick' else 820))
        results, viol, errors = [], [], []
        stop = threading.Event()
        kf = [k for k in known() if k['property'] == pid]
        it = iter(list(enumerate(jobs)))
        def worker():
            while not stop.is_set():
                with lock:
                    try:
                        n, j = next(it)
                    except StopIteration:
                        return
                left = budget - (time.time() - t0)
                if left < 3:
                    with lock: results.append(dict(scenario=j['name'], flavour=j['fl'], skipped=True))
                    continue
                tag = '%s-%s-%s' % (pid, j['name'], j['fl'])
                of, rf = '%s/%d.json' % (out, n), '%s/%d.replay' % (out, n)
                cmd = [j['exe'], '--scen', j['name'], '--bound', j['bound'], '--time', '%.0f' % min(j['time'], left), '--out', of, '--replay-out', rf]
                if not j['live']: cmd.append('--no-live')
                for k in kf:
                    if k['scenario'] == j['name'] and k['flavour'] in ('*', j['fl']):
                        cmd += ['--known', k['message']]
                p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                with lock: procs[p.pid] = p
                txt = p.communicate()[0]
                with lock: procs.pop(p.pid, None)
                if stop.is_set() and p.returncode < 0:
                    return
                if p.returncode not in (0, 1) or not os.path.exists(of):
                    with lock: errors.append((j, p.returncode, txt))
                    stop.set() if False else None
                    continue
                r = json.load(open(of)); r['flavour'] = j['fl']; r['file'] = os.path.basename(j['src'])
                with lock:
                    results.append(r)
                    if r['violation'] is not None:
                        viol.append((j, r, rf))
                        if not os.environ.get('MC_ALL'):
                            stop.set()
                            for q in procs.values():
                                try: q.kill()
                                except OSError: pass
        th = [threading.Thread(target=worker) for _ in range(min(JOBS, len(jobs)))]
        for t in th: t.start()
        for t in th: t.join()
        ran = [r for r in results if not r.get('skipped')]
        known_seen = {}
        for r in ran:
            for m, c in (r.get('known') or {}).items():
                if c: known_seen[(r['scenario'], m)] = known_seen.get((r['scenario'], m), 0) + c
        for k in kf:
            if any(s == k['scenario'] and m == k['message'] for s, m in known_seen):
                print('KNOWN-FINDING: property=%s scenario=%s %s' % (pid, k['scenario'], k['what']))
        states = sum(r['states'] if r['violation'] is None else r['all_states'] for r in ran)
        trans = sum(r['transitions'] if r['violation'] is None else r['all_transitions'] for r in ran)
        execs = sum(r['executions'] for r in ran)
        capped = [r['scenario'] + '-' + r['flavour'] for r in results if r.get('skipped') or (r['capped'] and r['violation'] is None)]
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='model_checking',
                  coverage=dict(states=states, transitions=trans, traces_validated_against_impl=execs,
                                samples=[dict(scenario=r['scenario'], flavour=r['flavour'], longest_new_outcome_schedule=r['sample']) for r in sorted(ran, key=lambda r: -r['states'])[:6]],
                                exhaustive=not capped and not viol and not errors and all(r['completed_bound'] == 'unbounded' for r in ran),
                                explanation='states/transitions of the final pass of every scenario; each transition is an execution of the real, compiled library code up to its next scheduling point; traces_validated_against_impl counts complete executions (every thread ended) of that code that were judged by the oracle',
                                scenarios=[dict((k, r.get(k)) for k in ('scenario', 'flavour', 'requested_bound', 'completed_bound', 'capped', 'states', 'transitions', 'executions', 'max_depth', 'outcomes', 'observations', 'shared_locations', 'passes', 'termination_checked', 'wall_s', 'violation', 'skipped', 'known')) for r in results],
                                capped_or_skipped=capped),
                  assumptions=['the Win32 kernel, CRT and EH runtime in mc/ behave as Windows does (see DESIGN.md)', 'sequentially consistent memory', 'bounds as listed per scenario'],
                  wall_s=round(time.time() - t0, 2), violations=len(viol))
        with open(HERE + '/evidence/%s.json' % pid, 'w') as f:
            json.dump(ev, f, indent=1); f.write('\n')
        if viol:
            for j, r, rf in viol:
                dst = '%s/evidence/%s-%s-%s.replay' % (HERE, pid, j['name'], j['fl'])
                tr = subprocess.run([j['exe'], '--replay', rf, '--trace'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
                tr = symbolize(j['exe'], tr)
                with open(rf) as f: body = f.read()
                with open(dst, 'w') as f:
                    f.write('property %s\nflavour %s\nfile %s\n%s\n# ---- trace\n' % (pid, j['fl'], os.path.basename(j['src']), body.rstrip('\n')))
                    f.write('\n'.join('# ' + x for x in tr.splitlines()) + '\n')
                print('%s-%s: %s' % (j['name'], j['fl'], r['violation']))
                print('VIOLATION property=%s replay=%s' % (pid, dst))
            return 1
        if errors:
            for j, rc, txt in errors[:5]:
                print('check error: %s-%s: exit %s: %s' % (j['name'], j['fl'], rc, txt[-600:]))
            return 2
        print('%s %s: %d scenarios, %d states, %d transitions, %d executions, capped/skipped %d, %.1f s' % (pid, tier, len(results), states, trans, execs, len(capped), time.time() - t0))
        if os.environ.get('MC_VERBOSE'):
            for r in sorted(results, key=lambda r: -r.get('wall_s', 0)):
                print('  %-28s %-5s bound=%-9s%s states=%-8s trans=%-9s exec=%-7s outcomes=%-4s obs=%-3s live=%s %.1fs' % (r['scenario'], r['flavour'], r.get('completed_bound'), ' CAPPED' if r.get('capped') or r.get('skipped') else '', r.get('states'), r.get('transitions'), r.get('executions'), r.get('outcomes'), r.get('observations'), r.get('termination_checked'), r.get('wall_s', 0)))
        return 0
    except build.BuildError as e:
        print('check error: the tree does not build:\n' + str(e)[-4000:])
        return 2
    finally:
        for q in list(procs.values()):
            try: q.kill()
            except OSError: pass
        if not keep: shutil.rmtree(out, ignore_errors=True)
        else: print('kept', out)

def do_replay(fn):
    pid = fl = fi = None
    for l in open(fn):
        if l.startswith('property '): pid = l.split()[1]
        if l.startswith('flavour '): fl = l.split()[1]
        if l.startswith('file '): fi = l.split()[1]
    out = tempfile.mkdtemp(prefix='.build-replay-', dir=HERE)
    try:
        exe = list(build.build_all(out, [HERE + '/scen/' + fi], (fl,)).values())[0]
        p = subprocess.run([exe, '--replay', fn, '--trace'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(symbolize(exe, p.stdout))
        return p.returncode
    finally:
        shutil.rmtree(out, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        sys.exit(do_replay(a[1]))
    only = keep = None
    if '--only' in a:
        i = a.index('--only'); only = a[i + 1]; del a[i:i + 2]
    if '--keep' in a:
        a.remove('--keep'); keep = True
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(run_check(pid, 'thorough' if tier == 'thorough' else 'quick', only, keep))
