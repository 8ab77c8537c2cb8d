"""All proofs a property depends on, in parallel, and what follows for it.

Every structure of /repo's current source (BoxValidator(options, kind, data)
.validate() for one kind and one format) is one job, proved in a child process.
"""
import ast
import multiprocessing as mp
import os
import sys
import time
import traceback
from multiprocessing.connection import wait

import z3

from . import prove
from .vals import Unsupported, NeedProof, Dead, Not, And
from harness import judge

BOXES = ('jp2', 'jph')
STREAMS = ('jp2', 'jph', 'j2c', 'jhc')
SLOWEST = ('contiguousCodestreamBox', 'JP2', 'tilePart', 'jp2HeaderBox', 'siz', 'cod', 'qcd', 'colourSpecificationBox')
WEAK = prove.WEAK


def name_of(spec, kind):
    if kind == 'unknown':
        return 'unknownBox'
    if kind in ('JP2', 'contiguousCodestreamBox'):
        return kind
    return spec.NAMES[kind]


def jobs(spec, prop):
    """(kind, format, option compared) of every proof the property depends on."""
    out = []
    for k in list(spec.NAMES) + ['JP2', 'unknown']:
        if k == 'contiguousCodestreamBox':
            continue
        n = name_of(spec, k)
        box = k in ('JP2', 'unknown', 'icc') or isinstance(k, bytes) and len(k) == 4
        out += [(k, f) for f in (BOXES if box else STREAMS)]
    out += [('contiguousCodestreamBox', f) for f in ('j2c', 'jhc')]
    if prop == 'C16':
        return [j + (o,) for o in 'vnp' for j in out]
    return [j + (None,) for j in out if relevant(prop, name_of(spec, j[0]))]


def relevant(prop, name):
    if prop in ('C04', 'C14', 'C15', 'C23'):
        return True
    if prop == 'C01':
        return name in judge.SUPER + ('unknownBox',)
    if prop == 'C11':
        return name in judge.SEG11
    if prop == 'C03':
        return name in ('contiguousCodestreamBox', 'tilePart', 'sot')
    if prop in ('C08',) and name in ('tlm', 'ppm', 'ppt', 'plm', 'plt'):
        return True
    if prop == 'C13' and name == 'intellectualPropertyBox':
        return True
    return prop in judge.KIND_OWNERS.get(name, ())


SCALARS = {'valid': ('C04',), 'next': ('C03',), 'psot': ('C03',), 'exception': ('C14',), 'pre': ('C14',),
           'loop': ('C15',), 'frame': ('C23',), 'result': ('C04', 'C23'), 'option': ('C16',), 'verdict': ('C04',)}


def owners(channel, path, tag, kind, name):
    """Properties that an obligation belongs to."""
    if channel in SCALARS:
        own = SCALARS[channel]
        if channel == 'exception':
            own += judge.KIND_OWNERS.get(name, ())
        return own
    if tag == '*' or not isinstance(tag, str):
        own = judge.KIND_OWNERS.get(name, ())
    else:
        own = judge.owners(channel, path, tag, kind)
    return tuple(own) + ('C04',) if channel == 'tests' else tuple(own)


def symbols(terms):
    seen, names, todo = set(), {}, [t for t in terms if isinstance(t, z3.ExprRef)]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names[t.get_id()] = t.decl().name()
        todo.extend(t.children())
    return names


def firm(run, o):
    """A failed obligation that is a real difference, not an effect of over-approximation."""
    if o.status is not False or not o.exact or o.ask is None:
        return False
    if (run.error or run.it.notes) and o.channel != 'frame':
        return False
    pc, f = o.ask
    names = symbols([c.x for c in pc] + [f])
    if set(names) & run.it.taint:
        return False
    return not any(n.startswith(w) for n in names.values() for w in WEAK)


def value(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    return z3.is_true(v)


def case_of(run, m):
    n = value(m, run.base.L)
    data = bytes(value(m, run.base.B(z3.IntVal(i))) & 255 for i in range(n))
    kind = run.kind
    if kind == 'unknown':
        kind = bytes(value(m, z3.Int('type%d' % i)) & 255 for i in range(4))
    csiz, start = value(m, run.csiz), value(m, run.start)
    if name_of(run.spec, run.kind) != 'tilePart':
        start = None
    if kind in ('JP2', b'jp2c', 'contiguousCodestreamBox'):
        csiz = start = None
    return judge.analysis_case(kind, data, run.fmt, value(m, run.verbose), value(m, run.nullxml), value(m, run.packets), csiz, start)


def counterexample(run, o, prop, until):
    """The verifier's counterexample, replayed against the real code."""
    if o.ask is None:
        return None
    pc, f = o.ask
    for bound in (24, 80, 400, 5000):
        if time.time() > until:
            return None
        try:
            r, m = run.cx.check(pc, And(Not(f), run.base.L <= bound) if not isinstance(f, bool) else run.base.L <= bound,
                                model=True, timeout=4000)
        except z3.Z3Exception:
            return None
        if m is None:
            continue
        case = case_of(run, m)
        try:
            d = judge.judge(prop, case)
        except judge.real.TooLong:
            continue
        if d:
            return case, d
    return None


def dead(run):
    """Statements (file, line) of functions under contract that no execution reaches."""
    out = set()
    for n in run.it.src.used.values():
        for s in ast.walk(n):
            if isinstance(s, ast.stmt) and s is not n and s.where not in run.it.reached and \
                    not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                out.add(s.where)
    return sorted(out)


def child(job, prop, budget, con):
    try:
        sys.setrecursionlimit(20000)
        kind, fmt, option = job
        mods = MODS
        name = name_of(mods[0], kind)
        t0 = time.time()
        r = prove.OptionRun(mods, kind, fmt, option) if option else prove.Run(mods, kind, fmt)
        r.run()
        obs = []
        until = t0 + budget
        tried = 0
        found = None
        for o in r.obs:
            own = owners(o.channel, o.path, o.tag, kind if kind != 'unknown' else b'????', name)
            mine = prop in own
            obs.append((o.name, o.channel, tuple(map(str, o.path)), str(o.tag), o.status, mine, mine and o.status is not True and firm(r, o)))
            if mine and o.status is not True and found is None and tried < 12 and time.time() < until:
                tried += 1
                found = counterexample(r, o, prop, until)
        con.send({'obs': obs, 'error': r.error, 'wall': r.wall, 'checks': r.cx.checks, 'solver': r.cx.time,
                  'functions': sorted(r.it.src.used), 'assumptions': sorted(r.cx.assumptions), 'notes': list(r.it.notes),
                  'found': found, 'dead': dead(r), 'reached': sorted(x for x in r.it.reached if x)})
    except BaseException:
        con.send({'obs': [], 'error': 'internal: ' + traceback.format_exc()[-1500:], 'wall': 0, 'checks': 0, 'solver': 0,
                  'functions': [], 'assumptions': [], 'notes': [], 'found': None, 'dead': [], 'reached': []})
    finally:
        con.close()
        os._exit(0)


MODS = None
UNROLL = {'tilePart': 1}
NOHUNT = ('contiguousCodestreamBox', 'JP2')


def hunter(job, prop, budget, con):
    """Counterexamples of the same proof with every loop unrolled: loops are then exact, up to that many rounds."""
    found = None
    try:
        sys.setrecursionlimit(20000)
        kind, fmt, option = job
        name = name_of(MODS[0], kind)
        until = time.time() + budget
        r = prove.OptionRun(MODS, kind, fmt, option) if option else prove.Run(MODS, kind, fmt)
        r.it.unroll = UNROLL.get(name, 2)
        r.run()
        tried = 0
        for o in r.obs:
            if o.status is not True and prop in owners(o.channel, o.path, o.tag, kind if kind != 'unknown' else b'????', name):
                tried += 1
                found = counterexample(r, o, prop, until)
                if found or tried == 12 or time.time() > until:
                    break
    except BaseException:
        pass
    finally:
        con.send(found)
        con.close()
        os._exit(0)


def hunt(prop, results, seconds, procs=8):
    """Look for counterexamples of the obligations that were not discharged."""
    spec = MODS[0]
    todo = [j for j, r in results.items()
            if name_of(spec, j[0]) not in NOHUNT and (r['error'] or r['notes'] or any(o[5] and o[4] is not True for o in r['obs']))]
    todo.sort(key=lambda j: results[j]['wall'])
    ctx = mp.get_context('fork')
    active = {}
    end = time.time() + seconds
    hit = None
    while (todo or active) and not hit and time.time() < end:
        while todo and len(active) < procs:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=hunter, args=(j, prop, end - time.time(), b), daemon=True)
            p.start()
            b.close()
            active[a] = (j, p)
        for a in wait(list(active), timeout=1):
            j, p = active.pop(a)
            try:
                f = a.recv()
                if f:
                    results[j]['found'] = hit = f
            except (EOFError, OSError):
                pass
            a.close()
            p.join(5)
            if p.is_alive():
                p.kill()
    for a, (j, p) in active.items():
        p.kill()
        p.join()
        a.close()


def run(prop, budget=150, procs=8, total=420, hunting=60):
    """{job: result} of every proof the property depends on."""
    global MODS
    MODS = prove.load()
    spec = MODS[0]
    todo = jobs(spec, prop)
    rank = {n: i for i, n in enumerate(SLOWEST)}
    todo.sort(key=lambda j: rank.get(name_of(spec, j[0]), 99))
    ctx = mp.get_context('fork')
    results, active = {}, {}
    end = time.time() + total
    stop = False
    while todo or active:
        while todo and len(active) < procs and not stop:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(j, prop, budget, b), daemon=True)
            p.start()
            b.close()
            active[a] = (j, p, time.time())
        now = time.time()
        for a in wait(list(active), timeout=1):
            j, p, t = active.pop(a)
            try:
                results[j] = a.recv()
            except (EOFError, OSError):
                results[j] = failed('the proof ended abruptly', time.time() - t)
            a.close()
            p.join(5)
            if p.is_alive():
                p.kill()
            if results[j]['found']:
                stop = True
        for a, (j, p, t) in list(active.items()):
            if now - t > budget + 60 or now > end or stop:
                p.kill()
                p.join()
                a.close()
                del active[a]
                results[j] = failed('stopped' if stop else 'time limit', now - t)
        if stop or now > end:
            for j in todo:
                results[j] = failed('not run', 0)
            todo = []
    if not stop:
        hunt(prop, results, hunting, procs)
    return results, {j: name_of(spec, j[0]) for j in results}


def failed(why, wall):
    return {'obs': [], 'error': why, 'wall': wall, 'checks': 0, 'solver': 0, 'functions': [], 'assumptions': [],
            'notes': [], 'found': None, 'dead': [], 'reached': []}


def main():
    prop = sys.argv[1]
    t0 = time.time()
    results, names = run(prop)
    n = ok = 0
    for j, r in results.items():
        mine = [o for o in r['obs'] if o[5]]
        bad = [o for o in mine if o[4] is not True]
        n += len(mine)
        ok += len(mine) - len(bad)
        if bad or r['error'] or r['notes'] or r['found']:
            print(names[j], j[1], len(mine), '%.1f' % r['wall'], r['error'], r['notes'][:3], r['found'])
            for o in bad[:8]:
                print('   ', o)
    d, re = set(), set()
    for r in results.values():
        d |= set(map(tuple, r['dead']))
        re |= set(map(tuple, r['reached']))
    print('never reached:', ' '.join('%s:%d' % x for x in sorted(d - re)))
    print('%s: %d/%d obligations, %d jobs, %.1f s' % (prop, ok, n, len(results), time.time() - t0))


if __name__ == '__main__':
    main()
