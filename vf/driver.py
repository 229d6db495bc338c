"""Runs the cases of a check on all cores, and reports.

    python3 -m vf.driver C01 [--tier quick|thorough] [--seed N] [--replay FILE]
"""

from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
PACKAGE = os.path.join(os.environ.get('VF_REPO', '/repo'), 'structured', '')
CALL_LIMIT = 15  # CPU seconds for a single call into the library
CASE_LIMIT = 60  # CPU seconds for a single case, of which nothing is concluded
WALL_LIMIT = 150  # seconds without progress of a worker (a hang outside of Python code)
CHUNK_SECONDS = 1.0
MEMORY = 4 << 30


class Hang(BaseException):
    """A call into the library does not return."""


class GaveUp(BaseException):
    """The case as a whole takes too long."""


class Clock:
    """Ticks each second of CPU time, and looks for how long the outermost call
    into the library has been running."""

    def __init__(self):
        self.call, self.ticks, self.total = None, 0, 0
        signal.signal(signal.SIGPROF, self.tick)
        signal.setitimer(signal.ITIMER_PROF, 1, 1)

    def tick(self, signum, frame):
        self.total += 1
        call = None
        while frame is not None:
            if frame.f_code.co_filename.startswith(PACKAGE):
                call = frame
            frame = frame.f_back
        self.ticks = self.ticks + 1 if call is self.call else 0
        self.call = call
        if call is not None and self.ticks >= CALL_LIMIT:
            raise Hang
        if self.total >= CASE_LIMIT:
            raise GaveUp

    def stop(self):
        signal.setitimer(signal.ITIMER_PROF, 0)
        self.call = None


class Kind:
    """A kind of cases: `fn(case)` runs the case number `case.index`."""

    def __init__(self, fn, quick, thorough=None):
        self.fn = fn
        self.quick = quick
        self.thorough = quick * 40 if thorough is None else thorough


class Case:
    def __init__(self, check, kind, index, seed, tier, stats):
        self.check = check
        self.kind = kind
        self.index = index
        self.seed = seed
        self.tier = tier
        self.stats = stats
        self.rng = random.Random(f'{seed}:{check.ID}:{kind}:{index}')
        self.context = ''  # source of the classes, shown in reports
        self.known = None


class KnownFinding(Exception):
    """Raised by a case for a violation with an identity: `key` is looked up in
    the file of known findings."""

    def __init__(self, key, text):
        super().__init__(text)
        self.key = key


def load_check(name):
    return importlib.import_module(f'vf.checks.{name.lower()}')


def run_case(check, kind, index, seed, tier, stats):
    """None, or a dict describing the violation."""
    case = Case(check, kind, index, seed, tier, stats)
    clock = Clock()
    try:
        check.KINDS[kind].fn(case)
        return None
    except GaveUp:
        stats.hit('cases_given_up')
        return None
    except Hang:
        text = f'no result after {CALL_LIMIT} s of CPU time\n' + traceback.format_exc(limit=-12)
        key = None
    except KnownFinding as e:
        text, key = str(e), e.key
    except Exception as e:
        key = None
        if type(e).__name__ == 'Violation':
            text = str(e)
        else:
            text = f'unexpected {type(e).__name__}: {e}\n' + traceback.format_exc(limit=-12)
    finally:
        clock.stop()
    return {
        'property': check.ID, 'kind': kind, 'index': index, 'seed': seed, 'tier': tier,
        'key': key, 'message': text, 'context': case.context,
    }


def worker(check_name, seed, tier, tasks, results, slot, progress, started):
    from .battery import Stats

    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(5000)
    check = load_check(check_name)
    while True:
        task = tasks.get()
        if task is None:
            return
        task_id, kind, lo, hi, step = task
        stats = Stats()
        found = []
        for index in range(lo, hi, step):
            progress[slot * 2] = task_id
            progress[slot * 2 + 1] = index
            started[slot] = time.monotonic()
            bad = run_case(check, kind, index, seed, tier, stats)
            if bad is not None:
                found.append(bad)
                if bad['key'] is None:
                    break
        started[slot] = 0.0
        results.put((task_id, slot, hi, found, dict(stats.counts), stats.distinct, stats.samples))


def known_findings():
    path = HERE / 'known_findings.txt'
    out = {}
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith('finding:'):
                parts = dict(p.split('=', 1) for p in line.split()[1:3])
                text = line.split(None, 3)[3]
                out[parts['property'], parts['key']] = text
    return out


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument('check')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--replay')
    parser.add_argument('--kind')
    parser.add_argument('--jobs', type=int, default=max(2, os.cpu_count() or 2))
    args = parser.parse_args(argv)
    try:
        from . import repo  # noqa: F401

        check = load_check(args.check)
    except Exception:
        traceback.print_exc()
        print(f'cannot load the code under test or the check {args.check}')
        return 2
    if args.replay:
        return replay(check, args.replay)
    return explore(check, args)


def replay(check, path):
    from .battery import Stats

    sys.setrecursionlimit(5000)
    info = json.loads(Path(path).read_text())
    bad = run_case(check, info['kind'], info['index'], info['seed'], info['tier'], Stats())
    if bad is None:
        print('not reproduced')
        return 0
    print(bad['context'])
    print(bad['message'])
    print(f'VIOLATION property={check.ID} replay={path}')
    return 1


def explore(check, args):
    start = time.monotonic()
    tier, seed = args.tier, args.seed
    cap = 600 if tier == 'quick' else 840
    mp = multiprocessing.get_context('fork')
    jobs = args.jobs
    chunks = []
    totals = {}
    for name, kind in check.KINDS.items():
        if args.kind and name != args.kind:
            continue
        n = kind.thorough
        if tier == 'quick':
            n = min(n, int(kind.quick * getattr(check, 'QUICK', 1)))
        totals[name] = n
        pieces = max(1, min(n, jobs * (4 if tier == 'quick' else 40)))
        for p in range(pieces):
            chunks.append((name, p, n, pieces))
    # Interleave the kinds, so that a time limit hits all alike
    chunks.sort(key=lambda c: (c[1] / c[3], c[0]))
    tasks, results = mp.Queue(), mp.Queue()
    for i, (name, lo, hi, step) in enumerate(chunks):
        tasks.put((i, name, lo, hi, step))
    # 'd' arrays without locks: written by one worker, read by the parent
    progress = mp.Array('q', jobs * 2, lock=False)
    started = mp.Array('d', jobs, lock=False)
    workers = []

    def spawn(slot):
        started[slot] = 0.0
        w = mp.Process(
            target=worker, args=(args.check, seed, tier, tasks, results, slot, progress, started),
            daemon=True,
        )
        w.start()
        return w

    for _ in range(jobs):
        tasks.put(None)
    for slot in range(jobs):
        workers.append(spawn(slot))
    counts, distinct, samples, found = Counter(), set(), {}, []
    done = set()
    timed_out = False
    lost = None
    while len(done) < len(chunks):
        try:
            task_id, slot, hi, bad, c, d, s = results.get(timeout=1.0)
        except Exception:
            pass
        else:
            done.add(task_id)
            found.extend(bad)
            counts.update(c)
            counts[f'kind:{chunks[task_id][0]}'] += c.get('cases', 0)
            distinct |= d
            samples.setdefault(chunks[task_id][0], []).extend(s)
            if any(b['key'] is None for b in bad) and len(found) >= 3:
                break
        now = time.monotonic()
        for slot, w in enumerate(workers):
            if w is None:
                continue
            stuck = started[slot] and now - started[slot] > WALL_LIMIT
            dead = not w.is_alive() and started[slot]
            if stuck or dead:
                task_id, index = progress[slot * 2], progress[slot * 2 + 1]
                what = (
                    f'no progress within {WALL_LIMIT} s' if stuck
                    else f'the process died with exit code {w.exitcode}'
                )
                found.append({
                    'property': check.ID, 'kind': chunks[task_id][0], 'index': index,
                    'seed': seed, 'tier': tier, 'key': None, 'message': what, 'context': '',
                })
                done.add(task_id)
                w.kill()
                workers[slot] = spawn(slot)
                tasks.put(None)
        if all(not w.is_alive() for w in workers) and results.empty() and len(done) < len(chunks):
            time.sleep(0.5)
            if results.empty():
                lost = 'workers ended early'
                break
        if now - start > cap:
            timed_out = True
            break
        if found and now - start > 60:
            break
    for w in workers:
        w.kill()
    wall = time.monotonic() - start

    # Report
    known = known_findings()
    fatal, seen_known = [], {}
    for bad in found:
        if bad['key'] is not None and (check.ID, bad['key']) in known:
            seen_known[bad['key']] = known[check.ID, bad['key']]
        else:
            fatal.append(bad)
    for key, text in sorted(seen_known.items()):
        print(f'KNOWN-FINDING: property={check.ID} {key}: {text}')
    fatal.sort(key=lambda b: (b['kind'], b['index']))
    out = HERE / 'replays'
    for bad in fatal[:5]:
        out.mkdir(exist_ok=True)
        path = out / f"{check.ID}-{bad['kind']}-{bad['index']}-{bad['seed']}.json"
        path.write_text(json.dumps(bad, indent=1))
        print(bad['context'])
        print(bad['message'])
        print(f'VIOLATION property={check.ID} replay={path}')
    picked = []
    for name in sorted(samples):
        picked.extend({'kind': name, 'case': s} for s in samples[name][:2])
    evidence = {
        'property': check.ID,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': counts.get('cases', 0),
            'distinct_nontrivial': len(distinct),
            'rule': check.RULE,
            'samples': picked[:12],
            'observed': {k: v for k, v in sorted(counts.items()) if not k.startswith('kind:')},
            'cases_by_kind': {
                k: counts.get(f'kind:{k}', 0) for k in totals
            },
            'known_findings_seen': sorted(seen_known),
            'stopped_by_time_limit': timed_out,
        },
        'assumptions': getattr(check, 'ASSUMPTIONS', []) + [
            'Held on the explored cases only.',
            "Oracle: the reference codec in vf/model.py, written from the README, and Python's struct module.",
        ],
        'wall_s': round(wall, 2),
        'violations': len(fatal),
    }
    (HERE / 'evidence').mkdir(exist_ok=True)
    (HERE / 'evidence' / f'{check.ID}.json').write_text(json.dumps(evidence, indent=1) + '\n')
    print(
        f"{check.ID} {tier} seed={seed}: {counts.get('cases', 0)} cases, "
        f'{len(distinct)} distinct, {len(fatal)} violations, {wall:.1f} s'
    )
    if fatal:
        return 1
    if lost or not counts.get('cases') or len(distinct) < 10:
        print(f'inconclusive: {lost or "too few cases ran"}')
        return 2
    return 0

