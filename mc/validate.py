#!/usr/bin/env python3
"""Validates the scheduling-point reduction: runs scenarios twice, unbounded, once reduced and once with every access to
   memory shared by two threads as a scheduling point (--naive), and compares the number of distinct final states of the
   whole world (memory, kernel objects, ghosts) and the sets of outcomes.  A sound reduction reaches every final state.
   usage: validate.py SECONDS PROP..."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build
def one(exe, name, naive, secs, d):
    of = '%s/%s-%s-%d.json' % (d, os.path.basename(exe), name, naive)
    cmd = [exe, '--scen', name, '--bound', 'u', '--time', str(secs), '--no-live', '--out', of] + (['--naive'] if naive else [])
    try:
        subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs * 3 + 60)
        return json.load(open(of))
    except Exception as e:
        return None
def main():
    secs = int(sys.argv[1]); d = tempfile.mkdtemp(prefix='.build-validate-', dir=V); tot = dict(compared=0, differ=0, toolarge=0)
    try:
        for pid in sys.argv[2:]:
            srcs = sorted(glob.glob('%s/scen/%s.c' % (V, pid.lower())) + glob.glob('%s/scen/%s_*.c' % (V, pid.lower())))
            exes = build.build_all(d, srcs); jobs = []
            for (s, fl), exe in sorted(exes.items()):
                for line in subprocess.run([exe, '--list'], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
                    name, _, o = line.partition('\t'); f = re.search(r'\bf=(\S+)', o)
                    if f and f.group(1) != fl: continue
                    jobs.append((exe, name, fl))
            def both(j):
                r = one(j[0], j[1], 0, secs, d)
                n = one(j[0], j[1], 1, secs, d) if r and not r['capped'] else None
                return j, r, n
            with cf.ThreadPoolExecutor(int(os.environ.get('MC_JOBS', '8'))) as ex:
                for j, r, n in ex.map(both, jobs):
                    if not r or not n or r['capped'] or n['capped']:
                        tot['toolarge'] += 1; continue
                    same = r['executions'] == n['executions'] and r['outcomes'] == n['outcomes']
                    tot['compared'] += 1; tot['differ'] += not same
                    print('%s %-4s %-22s final states %d / %d  states %d / %d %s' % (pid, j[2], j[1], r['executions'], n['executions'], r['states'], n['states'], '' if same else 'DIFFER'), flush=True)
            print(pid, tot, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return 1 if tot['differ'] else 0
if __name__ == '__main__':
    sys.exit(main())
