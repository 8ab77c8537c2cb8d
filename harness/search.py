"""Parallel, seeded search for an input on which the real code breaks a property
(the bounded stand-in, and the replay of the verifier's candidate inputs)."""
import json
import multiprocessing as mp
import os
import queue
import random
import time
import traceback

from . import cases, judge, real


def _worker(prop, seed, part, parts, seconds, out, stop, focus):
    n = 0
    seen = set()
    sample = None
    t0 = time.time()
    try:
        for case in cases.stream(prop, random.Random('%s/%s/%s' % (seed, prop, part)), real.REPO, part, parts, focus):
            if time.time() - t0 > seconds or stop.is_set():
                break
            try:
                d = judge.judge(prop, case)
            except judge.real.TooLong:
                continue
            n += 1
            seen.add(hash(json.dumps(case, sort_keys=True)))
            sample = sample or case
            if d:
                out.put(('bad', case, d))
                break
        out.put(('done', n, len(seen), sample))
    except Exception:
        out.put(('error', traceback.format_exc(), n))


samples = []


def search(prop, seed, seconds, parts=8, focus=()):
    """(violation or None, evaluations, distinct, errors)"""
    ctx = mp.get_context('fork')
    out, stop = ctx.Queue(), ctx.Event()
    judge.mods()
    ps = [ctx.Process(target=_worker, args=(prop, seed, i, parts, seconds, out, stop, focus), daemon=True) for i in range(parts)]
    for p in ps:
        p.start()
    bad, n, distinct, errors, done = None, 0, 0, [], 0
    del samples[:]
    limit = time.time() + seconds + 240
    while done < parts and time.time() < limit:
        try:
            m = out.get(timeout=2)
        except queue.Empty:
            if not any(p.is_alive() for p in ps) and out.empty():
                break
            continue
        if m[0] == 'bad':
            if bad is None:
                bad = (m[1], m[2])
            stop.set()
        elif m[0] == 'done':
            done += 1
            n += m[1]
            distinct += m[2]
            if m[3]:
                samples.append(m[3])
        else:
            done += 1
            errors.append(m[1])
        if bad is not None and done < parts:
            limit = min(limit, time.time() + 10)
    for p in ps:
        if p.is_alive():
            p.terminate()
    for p in ps:
        p.join(5)
    return bad, n, distinct, errors


def judge_all(prop, todo, seconds=60):
    """Judge given cases one after another in a child process: first violation or None."""
    t0 = time.time()
    for case in todo:
        if time.time() - t0 > seconds:
            break
        try:
            d = judge.judge(prop, case)
        except real.TooLong:
            continue
        except Exception:
            continue
        if d:
            return case, d
    return None
