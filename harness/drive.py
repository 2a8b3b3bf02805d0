"""Runs the real code on a workload and records sessions for TLC.

drive.py AREA PROPERTY TIER SEED OUT SHARD NSHARDS [CASES]
Exit status 7: the code under test does not import.
"""
import importlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    area, prop, tier, seed, out, shard, nshards = sys.argv[1:8]
    cases = sys.argv[8] if len(sys.argv) > 8 else None
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    import obs
    try:
        import bitforge
        import bitforge.tools, bitforge.encoding, bitforge.errors, bitforge.networks, bitforge.utils
        import bitforge.script.interpreter, bitforge.signature
    except BaseException:
        traceback.print_exc()
        sys.exit(7)
    obs.load_errors(bitforge)
    w = importlib.import_module('w_' + area)
    ctx = Ctx(prop, tier, seed, load_cases(cases))
    n = 0
    # what is being run, for the report if it never returns; and an end to the workload if calls take too long
    doing = open(out + '.doing', 'w')
    started = time.time()
    budget = 420 if tier == 'quick' else 5000
    if hasattr(w, 'record'):
        with open(out, 'w') as f:
            for k, session in enumerate(w.record(ctx, shard, nshards, doing)):
                f.write(json.dumps(dict(session, n=k)) + '\n')
                f.flush()
        return
    with open(out, 'w') as f:
        for k, session in enumerate(w.sessions(ctx)):
            if k % nshards != shard:
                continue
            if time.time() - started > budget:
                print('stopped after %d s' % budget)
                break
            # a list of sessions is run by one process, one after the other
            for session in session if isinstance(session, list) else [session]:
                h, calls = session() if callable(session) else session
                env = {'h': h}
                events = []
                for op, a in calls:
                    ev = {'op': op, 'a': a}
                    doing.seek(0)
                    doing.write('%.1f %d %d %s\n' % (time.time(), k, len(events), op))
                    doing.flush()
                    one_call(w, env, ev)
                    events.append(ev)
                f.write(json.dumps({'h': h, 'n': k, 'e': events}) + '\n')
                f.flush()
                n += len(events)
    print('events %d' % n)


def one_call(w, env, ev):
    """Makes the call of an event and adds the outcome to it."""
    import obs
    ok, r = obs.guarded(w.OPS[ev['op']], env, ev['a'], limit=120 if obs.HANGS[0] < 3 else 15)
    if not ok:
        # not even the objects the call needs could be made with the code under test
        ev['broken'] = 1
        ev['r'] = obs.project_error(r)
        ev['trace'] = ''.join(traceback.format_exception(type(r), r, r.__traceback__))[-1500:]
    elif isinstance(r, dict) and 'r' in r and 'k' not in r:
        ev.update(r)
    else:
        ev['r'] = r


def load_cases(path):
    if not path:
        return []
    with open(path) as f:
        return [json.loads(line) for line in f]


class Ctx:
    def __init__(self, prop, tier, seed, cases):
        self.prop, self.tier, self.seed, self.cases = prop, tier, seed, cases
        self.thorough = tier == 'thorough'

    def rng(self, name):
        return random.Random('%d/%s/%s' % (self.seed, self.prop, name))

    def n(self, quick, thorough):
        return thorough if self.thorough else quick


def chunks(calls, size=40, h=0):
    """Independent calls, grouped into sessions."""
    batch = []
    for c in calls:
        batch.append(c)
        if len(batch) == size:
            yield h, batch
            batch = []
    if batch:
        yield h, batch


if __name__ == '__main__':
    main()
