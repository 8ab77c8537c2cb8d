"""Plants bugs: writes /verif/seeded/<id>/ after confirming each one in a scratch copy of /repo.
Usage: python3 mkseeds.py [id ...]"""
import json, os, shutil, subprocess, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
OUT = os.path.join(HERE, '..', 'seeded')
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

def main():
    only = sys.argv[1:]
    for s in SEEDS:
        if only and s['id'] not in only:
            continue
        tmp = '/tmp/mkseed_work'
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree('/repo', tmp, symlinks=True)
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(tmp, f)
            t = open(p).read()
            if t.count(old) != s.get('count', 1):
                print(s['id'], 'EDIT NOT UNIQUE', t.count(old)); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            continue
        d = os.path.join(OUT, s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = sh('git diff', tmp).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'meta.json'), 'w').write(json.dumps(
            {'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        shutil.copy(os.path.join(HERE, 'seedlib.py'), os.path.join(d, 'seedlib.py'))
        open(os.path.join(d, 'demo.py'), 'w').write('from seedlib import *\n' + s['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        a = sh('timeout 250 sh %s/demo.sh' % d, '/repo')
        b = sh('timeout 60 sh %s/demo.sh' % d, tmp)
        # tests, in /repo with the patch applied
        subprocess.run(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')], check=True)
        try:
            sh('bash /opt/vp/build.sh', '/repo')
            sh('bash /opt/vp/test.sh /tmp/mkseed_out.json', '/repo')
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
        lost = stable - set(json.load(open('/tmp/mkseed_out.json'))['passed'])
        good = a.returncode == 0 and b.returncode != 0 and not lost
        print(s['id'], s['property'], 'OK' if good else 'BAD', 'clean rc', a.returncode, 'patched rc', b.returncode, 'tests lost', len(lost))
        if a.returncode:
            print(a.stdout.decode()[-800:])
        if lost:
            print('  ', sorted(lost)[:3])
        shutil.rmtree(os.path.join(d, '__pycache__'), ignore_errors=True)
        if not good:
            shutil.rmtree(d)
        shutil.rmtree(tmp, ignore_errors=True)

main()
