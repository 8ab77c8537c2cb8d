"""How each property is decided.

Proof: every obligation of the structures a property depends on is discharged
from /repo's current source (engine/suite.py, engine/layer.py).  The seeded search on the real
code is the bounded stand-in for what is outside the verifier's reach, and looks
for a failing input where an obligation is not discharged.
"""
import time

SUITE = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C23')
LAYER = ('C14', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23')
PROVED = tuple('C%02d' % i for i in range(1, 24))
CONFIRM = {'quick': 6, 'thorough': 120}      # search when everything is proved
HUNT = {'quick': 60, 'thorough': 300}        # search when something is not
STANDIN = {'quick': 25, 'thorough': 240}     # search where there is no proof at all
TRUSTED = [
    'engine/ (symbolic interpreter of the Python subset, and its models of bytes, integers, lists, dictionaries, ElementTree, struct, binascii, uuid, math)',
    'engine/paths.py and engine/world.py (the same for the report layer: path by path, with file system, ElementTree, minidom, argparse, re and '
    'struct as functions of their arguments)',
    'z3 5.3.2 (validity of every obligation)',
    'spec/ (the contracts)',
    'Python 3.12 parser (ast) and import of the module under proof',
]
FRAME = 'changes no state'


def checker(prop):
    return ' && '.join('python3-vt -m engine.%s %s' % (m, prop) for m, ps in (('suite', SUITE), ('layer', LAYER)) if prop in ps)


def belongs(prop, job, name):
    """(obligation of the report layer is one of this property, a countermodel of it breaks this property)"""
    if prop == 'C23':
        return FRAME in name, FRAME in name
    if FRAME in name:
        return False, False
    if prop == 'C14':
        return name.endswith('does not raise'), True
    if prop == 'C16' or prop == 'C21' and job == ('batch',):
        return True, prop == 'C21' and name == 'end of the program'
    return True, True


def sample(case):
    c = dict(case)
    for k, v in list(c.items()):
        if isinstance(v, str) and len(v) > 200:
            c[k] = v[:200] + '...'
    return str(c)[:600]


def explored(n, distinct, errors, search):
    return {'evaluations': n, 'distinct_nontrivial': distinct,
            'rule': 'structured inputs and sweeps of single fields (harness/cases.py) run on the real code and judged by the contracts; '
                    'counted as distinct if no equal case came before',
            'samples': [sample(c) for c in search.samples[:2]], 'errors': errors[:2]}


def standin(prop, tier, seed, search):
    bad, n, distinct, errors = search.search(prop, seed, STANDIN[tier])
    violation = {'property': prop, 'case': bad[0], 'what': bad[1]} if bad else None
    ev = {'level': 'exploration', 'coverage': explored(n, distinct, errors, search),
          'assumptions': ['bounded stand-in: nothing is proved beyond the inputs tried']}
    return {'violation': violation, 'evidence': ev, 'summary': 'bounded: held on %d inputs%s' % (n, '; ERRORS ' + errors[0] if errors else '')}


def decide(prop, tier, seed, search):
    if prop not in PROVED:
        return standin(prop, tier, seed, search)
    t0 = time.time()
    mine, bad, incomplete, firm, found = [], [], [], [], None
    functions, assumptions, solver, calls, proofs = set(), set(), 0.0, 0, 0
    focus = set()
    if prop in LAYER:
        from engine import layer
        for job, r in layer.run(prop, seconds=120 if tier == 'quick' else 400).items():
            where = '/'.join(map(str, job))
            proofs += 1
            for name, status, hard, detail in r['obs']:
                own, breaks = belongs(prop, job, name)
                if not own:
                    continue
                mine.append('%s: %s' % (where, name))
                if status is not True:
                    bad.append('%s: %s: %s' % (where, name, str(detail)[:700]))
                    if hard and breaks:
                        firm.append(bad[-1])
            if r['error']:
                incomplete.append('%s: %s' % (where, r['error'][-300:]))
            functions.update(r['functions'])
            assumptions.update(r['assumptions'])
            solver += r['solver']
            calls += r['checks']
    if prop in SUITE:
        from engine import suite
        results, names = suite.run(prop, budget=150 if tier == 'quick' else 400, total=330 if tier == 'quick' else 900,
                                   hunting=60 if tier == 'quick' else 240)
        proofs += len(results)
        for j, r in results.items():
            where = '%s/%s%s' % (names[j], j[1], '/option ' + j[2] if j[2] else '')
            for name, channel, path, tag, status, own, hard in r['obs']:
                if not own:
                    continue
                o = '%s: %s %s %s' % (where, channel, '/'.join(path + ((tag,) if tag != channel else ())), name)
                mine.append(o)
                if status is not True:
                    bad.append(o)
                    focus.add(names[j])
                    if hard or (channel == 'loop' and not r['error']):
                        firm.append(o)
            if r['error'] or r['notes']:
                focus.add(names[j])
                incomplete.append('%s: %s' % (where, r['error'] or '; '.join(r['notes'][:2])))
            functions.update(r['functions'])
            assumptions.update(r['assumptions'])
            solver += r['solver']
            calls += r['checks']
            found = found or r['found']
    proof_s = time.time() - t0
    violation = None
    n = distinct = 0
    errors = []
    proved = not bad and not incomplete and bool(mine)
    if found:
        violation = {'property': prop, 'case': found[0], 'what': found[1], 'obligations': bad[:20]}
    else:
        hit, n, distinct, errors = search.search(prop, seed, CONFIRM[tier] if proved else HUNT[tier], focus=tuple(sorted(focus)))
        if hit:
            violation = {'property': prop, 'case': hit[0], 'what': hit[1], 'obligations': bad[:20]}
        elif firm:
            violation = {'property': prop, 'what': ['not discharged: ' + o for o in firm[:10]], 'obligations': bad[:40],
                         'verifier': 'the verifier has a countermodel of each (z3), or finds no variant (loop)', 'incomplete': incomplete[:10]}
    ev = {'level': 'proof' if proved else 'exploration',
          'coverage': {'obligations': len(mine), 'discharged': len(mine) - len(bad), 'checker_cmd': checker(prop),
                       'trusted_base': TRUSTED, 'proofs': proofs, 'functions_under_contract': sorted(f for f in functions if not f.startswith(('jp2.py:', 'prim.py:', 'report.py:', 'cli.py:', 'world.py:'))),
                       'back_end': 'z3', 'solver_s': round(solver, 1), 'solver_calls': calls, 'proof_wall_s': round(proof_s, 1),
                       'not_discharged': bad[:30], 'not_decided': incomplete[:30],
                       'bounded_replay': explored(n, distinct, errors, search)},
          'assumptions': sorted(assumptions)}
    if not proved:
        ev['coverage'].update({k: v for k, v in ev['coverage']['bounded_replay'].items()})
    if proved:
        text = 'proved: %d obligations in %d proofs discharged in %.0f s; held on %d inputs' % (len(mine), proofs, proof_s, n)
    else:
        text = 'not proved (%d of %d obligations discharged; %s): bounded stand-in held on %d inputs' % (
            len(mine) - len(bad), len(mine), '; '.join(incomplete[:2]) or 'undecided: ' + '; '.join(bad[:2]), n)
    return {'violation': violation, 'evidence': ev, 'summary': text + ('; ERRORS ' + errors[0] if errors else '')}
