#!/usr/bin/env python3
"""One check per property: python3-vt check.py <property> [quick|thorough]

Decides the property for the source that is in /repo now; see DESIGN.md."""
import hashlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.path.insert(0, HERE)


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            if line.startswith('finding: property=%s ' % prop):
                out.append(line.split(' ', 2)[2].strip())
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from harness import search
    from checks import decide
    result = decide(prop, tier, seed, search)
    ev = result['evidence']
    ev.update(property=prop, tier=tier, seed=seed, wall_s=round(time.time() - t0, 2), violations=1 if result['violation'] else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    v = result['violation']
    if v:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        text = json.dumps(v, indent=1, sort_keys=True, default=str)
        path = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(text)
        for x in v['what'][:5]:
            print('  ' + str(x)[:500])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v.get('case') else ' no-failing-input-found'))
        return 1
    print('property %s: %s' % (prop, result['summary']))
    return 0


if __name__ == '__main__':
    sys.exit(main())
