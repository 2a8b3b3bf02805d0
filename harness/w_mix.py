"""Calls of all areas mixed in one process and in several threads: C28."""
import importlib
import json
import os
import sys
import threading
import time

import bitforge
import drive
import obs

CODE = os.path.dirname(os.path.abspath(bitforge.__file__)) + os.sep

# property whose workload calls are taken from: (area, weight, calls kept of a session, is a session a history of its own)
SOURCES = {
    'C01': ('keys', 2, 4, False), 'C02': ('keys', 2, 6, False), 'C03': ('keys', 1, 2, False), 'C04': ('keys', 2, 4, False),
    'C05': ('keys', 3, 6, False), 'C06': ('codec', 2, 8, False), 'C07': ('codec', 4, 12, True), 'C08': ('codec', 2, 10, False),
    'C09': ('script', 4, 6, False), 'C10': ('script', 3, 8, False), 'C11': ('script', 3, 5, False), 'C12': ('tx', 3, 4, False),
    'C13': ('tx', 2, 3, True), 'C14': ('tx', 2, 3, True), 'C15': ('interp', 4, 8, True), 'C16': ('interp', 4, 8, True),
    'C18': ('sig', 2, 3, False), 'C19': ('hd', 3, 5, True), 'C20': ('ec', 1, 3, False), 'C21': ('unit', 1, 8, False),
    'C22': ('uri', 2, 6, False), 'C24': ('mal', 2, 10, False), 'C25': ('util', 3, 8, False), 'C26': ('op', 2, 8, False),
    'C27': ('net', 1, 6, False),
}
# calls that change the process they run in or start others, or that are too long
OUT = {'priv_random', 'priv_fresh', 'nonces', 'fresh', 'units', 'whole', 'long', 'bigrecover', 'sqrt', 'inverse'}


def fit(op, a):
    return op not in OUT and not a.get('draws') and size(a) < 3000


def size(a):
    if isinstance(a, dict):
        return sum(map(size, a.values()))
    if isinstance(a, list):
        return sum(map(size, a)) if a and not isinstance(a[0], int) else len(a)
    return 1


class Source:
    def __init__(self, ctx, prop, rng):
        self.prop = prop
        self.area, self.weight, self.keep, self.history = SOURCES[prop]
        self.w = importlib.import_module('w_' + self.area)
        sessions = self.w.sessions(drive.Ctx(prop, 'quick', ctx.seed, []))
        self.sessions = []
        for s in (x for s in sessions for x in (s if isinstance(s, list) else [s])):
            h, calls = s() if callable(s) else s
            if self.history:
                # a call that does not fit ends the history
                n = next((i for i, c in enumerate(calls) if not fit(*c)), len(calls))
                calls = calls[:n]
            else:
                calls = [c for c in calls if fit(*c)]
            if calls:
                self.sessions.append((h, calls))

    def pick(self, rng):
        h, calls = rng.choice(self.sessions)
        if self.history:
            calls = calls[:self.keep]
        else:
            calls = rng.sample(calls, min(len(calls), self.keep))
        return Session(self, h, calls)


class Session:
    def __init__(self, source, h, calls):
        self.source, self.h, self.calls = source, h, calls
        self.env = {'h': h}
        self.events = []

    def again(self):
        return Session(self.source, self.h, self.calls)

    def step(self):
        """The next call; False when there is none."""
        i = len(self.events)
        if i >= len(self.calls):
            return False
        op, a = self.calls[i]
        ev = {'op': op, 'a': a}
        drive.one_call(self.source.w, self.env, ev)
        self.events.append(ev)
        return True

    def recorded(self, how):
        return {'h': {'area': self.source.area, 'h': self.h, 'how': how}, 'e': self.events}


# ------------------------------------------------------------------ scheduling
class Scheduler:
    """Lets threads run one at a time, each for a number of lines of the code under test."""

    def __init__(self, slices, n):
        self.slices, self.n = slices, n
        self.at, self.left, self.turn = 0, slices[0], 0
        self.done = [False] * n
        self.cond = threading.Condition()
        self.progress = 0
        self.patience = 0.5
        self.switches = 0

    def wait(self, me):
        with self.cond:
            while self.turn != me:
                before = self.progress
                if not self.cond.wait(self.patience) and self.progress == before and self.turn != me:
                    # whoever has the turn waits for something itself, a lock for instance
                    self.turn = me
                    self.patience = 0.1

    def give(self, me):
        with self.cond:
            others = [t for k in range(1, self.n) for t in [(me + k) % self.n] if not self.done[t]]
            if not others:
                self.left = 1 << 60
                return
            self.at = (self.at + 1) % len(self.slices)
            self.left = self.slices[self.at]
            self.turn = others[0]
            self.switches += 1
            self.cond.notify_all()

    def line(self, me):
        self.progress += 1
        if self.turn != me:
            self.wait(me)
        self.left -= 1
        if self.left < 0:
            self.give(me)
            self.wait(me) if self.turn != me else None

    def trace(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.line(me)
            return local

        def called(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(CODE) else None
        return called

    def end(self, me):
        with self.cond:
            self.done[me] = True
            others = [t for t in range(self.n) if not self.done[t]]
            if others and self.turn == me:
                self.turn = others[0]
            self.cond.notify_all()


def together(sessions, slices, limit=100):
    """Runs the sessions in a thread each; what did not end counts as a call that does not return."""
    sch = Scheduler(slices, len(sessions))

    def body(me, s):
        try:
            sch.wait(me)
            sys.settrace(sch.trace(me))
            try:
                while s.step():
                    pass
            finally:
                sys.settrace(None)
        finally:
            sch.end(me)
    threads = [threading.Thread(target=body, args=(k, s), daemon=True) for k, s in enumerate(sessions)]
    for t in threads:
        t.start()
    end = time.time() + limit
    for t, s in zip(threads, sessions):
        t.join(max(0.1, end - time.time()))
        if t.is_alive():
            op, a = s.calls[len(s.events)]
            s.events.append({'op': op, 'a': a, 'r': obs.project_error(obs.Hang()), 'broken': 1})
    return sch.switches


# ------------------------------------------------- one call in the midst of another
def prepared(session, upto):
    """A copy of the session with all calls before the given one made."""
    s = session.again()
    for _ in range(upto):
        s.step()
    return s


def lines_of(s):
    """Makes the next call; the lines of the code under test it passes, in order of first passing."""
    seen = {}

    def local(frame, event, arg):
        if event == 'line':
            seen.setdefault((frame.f_code.co_filename, frame.f_lineno), len(seen))
        return local

    def called(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(CODE) else None
    sys.settrace(called)
    try:
        s.step()
    finally:
        sys.settrace(None)
    return list(seen)


PATIENCE = [3.0]    # much less than the time limit of a call


def amidst(a, b, where, last):
    """Makes the next call of a, and when it comes to a line the next call of b in a thread of its own."""
    threads = []
    count = [0]

    def local(frame, event, arg):
        if event == 'line' and not threads and (frame.f_code.co_filename, frame.f_lineno) == where:
            count[0] += 1
            if count[0] >= last:
                t = threading.Thread(target=b.step, daemon=True)
                threads.append(t)
                t.start()
                t.join(PATIENCE[0])
                if t.is_alive():    # it waits for something that a holds: let a go on
                    PATIENCE[0] = 0.3
        return local

    def called(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(CODE) else None
    sys.settrace(called)
    try:
        a.step()
    finally:
        sys.settrace(None)
    for t in threads:
        t.join(60)
        if t.is_alive():
            op, args = b.calls[len(b.events)]
            b.events.append({'op': op, 'a': args, 'r': obs.project_error(obs.Hang()), 'broken': 1})
    if not threads:
        b.step()


def plain(s):
    return json.dumps(s.events, sort_keys=True)


def pairs(ctx, rng, source):
    """For each kind of call of the source some pairs of sessions and the number of the call in them."""
    kinds = {}
    for h, calls in source.sessions:
        for i, (op, a) in enumerate(calls[:4] if source.history else calls):
            kinds.setdefault(op if op != 'parse' else 'parse-' + str(a.get('p')), []).append((h, calls, i))
    for op in sorted(kinds):
        for _ in range(ctx.n(2, 12)):
            out = []
            for h, calls, i in (rng.choice(kinds[op]), rng.choice(kinds[op])):
                out.append((Session(source, h, calls[:i + 1]), i) if source.history else (Session(source, h, [calls[i]]), 0))
            yield op, out


def every_line(ctx, rng, sources, shard, nshards, until):
    n = 0
    for source in sources:
        for op, ((a, i), (b, j)) in pairs(ctx, rng, source):
            n += 1
            if n % nshards != shard or time.time() > until:
                continue
            t0 = time.time()
            first, second = prepared(a, i), prepared(b, j)
            lines = lines_of(first)
            second.step()
            cost = time.time() - t0
            known = {plain(first), plain(second)}
            yield first
            yield second
            most = max(4, int(ctx.n(2.5, 20) / max(cost, 0.001)))
            if len(lines) > most:
                lines = rng.sample(lines, most)
            for where in lines:
                x, y = prepared(a, i), prepared(b, j)
                amidst(x, y, where, rng.choice([1, 1, 2]))
                for s in (x, y):
                    if plain(s) not in known:
                        known.add(plain(s))
                        yield s


# -------------------------------------------------------------------- workload
def record(ctx, shard, nshards, doing):
    rng = ctx.rng('mix-%d' % shard)
    schedules = [c['slices'] for c in ctx.cases if c['op'] == 'sched'] or [[1], [2, 3]]
    schedules = sorted({tuple(s) for s in schedules if len(s) > 1})
    sources = [Source(ctx, p, rng) for p in SOURCES]
    weights = [s.weight for s in sources]
    started = time.time()
    budget = ctx.n(80, 1500)

    def some(n, among=None):
        return [s.pick(rng) for s in (rng.choices(sources, weights, k=n) if among is None else [among] * n)]

    def note(what):
        doing.seek(0)
        doing.write('%.1f 0 0 %s\n' % (time.time(), what))
        doing.flush()

    # 1. one thread: the calls of many sessions one by one in a random order, every session twice,
    #    with many more calls in between that nobody looks at
    for batch in range(ctx.n(3, 30)):
        if time.time() - started > budget / 2:
            break
        note('mixed')
        first = some(ctx.n(26, 60))
        again = [s.again() for s in first]
        for live in (list(first), list(again)):
            while live:
                s = rng.choice(live)
                if not s.step():
                    live.remove(s)
            if live is not again:
                unseen(rng, some(40))
        for s in first + again:
            yield s.recorded('mixed')
    # 2. two calls of one kind: the second one as a whole while the first one is at each of its lines
    note('amidst')
    for s in every_line(ctx, rng, sources, shard, nshards, time.time() + budget / 2):
        note('amidst')
        yield s.recorded('amidst')
    # 3. threads: two or three sessions at a time, of one kind or of several, by a schedule
    for k in range(ctx.n(70, 1500)):
        if time.time() - started > budget * 1.5:
            break
        note('threads')
        n = rng.choice([2, 2, 2, 3])
        same = rng.random() < 0.6
        group = some(n, rng.choices(sources, weights)[0] if same else None)
        if rng.random() < 0.2:
            group[1] = group[0].again()
        f = rng.choice([1, 1, 1, 2, 5, 11])
        slices = [f * x for x in rng.choice(schedules)]
        together(group, slices)
        for s in group:
            yield s.recorded({'threads': n, 'slices': slices})


def unseen(rng, sessions):
    end = time.time() + 5
    for s in sessions:
        if s.source.prop in ('C03', 'C13', 'C14', 'C18', 'C19', 'C20'):
            continue
        while time.time() < end and s.step():
            pass
