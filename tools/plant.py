#!/usr/bin/env python3
"""Confirms planted bugs: plant.py ID... [--check] [--seconds=N]
For each /verif/seeded/ID: demo on the clean tree, apply, build, baseline tests, demo, (check), undo."""
import json, os, subprocess, sys, time
R, V = '/repo', '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(): return sh('bash /opt/vp/build.sh').returncode
def tests():
    sh('bash /opt/vp/test.sh /tmp/plant_t.json')
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']; got = set(json.load(open('/tmp/plant_t.json'))['passed'])
    return [t for t in want if t not in got]
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
    check = '--check' in sys.argv; only = '--only-check' in sys.argv
    sec = [a for a in sys.argv if a.startswith('--seconds=')]
    assert not sh(f'git -C {R} status --porcelain').stdout.strip(), 'dirty /repo'
    if not only:
        assert build() == 0
    for i in ids:
        d = f'{V}/seeded/{i}'; p = json.load(open(d + '/meta.json'))['property']; out = {}
        try:
            if not only:
                out['clean demo'] = sh(f'bash {d}/demo.sh', cwd=R, timeout=300).returncode
            a = sh(f'git -C {R} apply {d}/patch.diff'); out['apply'] = a.returncode
            if a.returncode: print(i, a.stdout); continue
            if not only:
                out['build'] = build()
                if out['build']:
                    print(sh('bash /opt/vp/build.sh').stdout[-2000:])
                    continue
                out['failing tests'] = tests()
                try: out['demo'] = sh(f'bash {d}/demo.sh', cwd=R, timeout=300).returncode
                except subprocess.TimeoutExpired: out['demo'] = 'timeout'
            if check or only:
                t = time.time(); r = sh(f'VERIF_SEED=1 VERIF_TIER=quick python3 {V}/check.py {p} ' + ' '.join(sec))
                out['check'] = r.returncode; out['t'] = round(time.time() - t)
                out['lines'] = [l[:160] for l in r.stdout.split('\n') if 'VIOLATION' in l]
        finally:
            sh(f'git -C {R} checkout -- .'); print(i, p, out, flush=True)
            good = only or (out.get('clean demo') == 0 and out.get('build') == 0 and not out.get('failing tests') and out.get('demo') not in (0, None))
            print('   ', 'COUNTS' if good else 'DOES NOT COUNT', 'caught' if out.get('check') == 1 else 'MISSED' if 'check' in out else '', flush=True)
    if not only: build()
main()
