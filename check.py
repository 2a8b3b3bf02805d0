#!/usr/bin/env python3
"""Decides one property.   check.py Cxx [--tier quick|thorough] [--seed N] [--keep]

1. TLC checks the model(s) of the property: the specification has the property in
   every reachable state; behaviours it emits become cases.
2. The real code (/repo's working tree) runs those cases and a workload of its own,
   and every call is recorded with its outcome.
3. TLC checks the recorded sessions against the specification.

Exit 0: held.  Exit 1 and a VIOLATION line: the code does something that the
specification does not allow.  Exit 2: the machinery itself failed.
"""
import argparse
import fcntl
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import registry  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
TOOLS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(HERE, 'spec')
BUILD = os.path.join(HERE, 'build')


class Machinery(Exception):
    pass


def build():
    """Compile the Java overrides (kept in build/, which git ignores)."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'java', 'verif')
    files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith('.java'))
    stamp = os.path.join(BUILD, 'stamp')
    want = ''.join(open(f).read() for f in files)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(stamp) and open(stamp).read() == want:
            return
        r = subprocess.run(['javac', '-nowarn', '-cp', TOOLS, '-d', os.path.join(BUILD, 'classes')] + files,
                           capture_output=True, text=True)
        if r.returncode:
            raise Machinery('javac: ' + r.stderr)
        with open(stamp, 'w') as f:
            f.write(want)


def tlc(module, cfg, workdir, env=None, workers=8, timeout=1500, simulate=None, heap='8g', extra=()):
    meta = tempfile.mkdtemp(dir=workdir)
    cmd = ['timeout', '-k', '5', str(timeout), 'java', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC',
           '-DTLA-Library=' + SPEC,
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.Overrides',
           '-cp', os.path.join(BUILD, 'classes') + ':' + TOOLS, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg)]
    if simulate:
        cmd += simulate
    cmd += list(extra)
    cmd += [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    out = os.path.join(meta, 'out.txt')
    with open(out, 'w') as f:
        rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=workdir).returncode
    res = {'module': module, 'cfg': cfg, 'rc': rc, 'wall_s': round(time.time() - t0, 2), 'emitted': [], 'fails': [],
           'out': out, 'states': 0, 'transitions': 0}
    tail = []
    for line in open(out, errors='replace'):
        if line.startswith('"@'):
            res['emitted'].append(json.loads(json.loads(line)[1:]))
        elif line.startswith('"FAIL '):
            _, s, i, name = json.loads(line).split(' ', 3)
            res['fails'].append((int(s), int(i), name))
        else:
            if not re.match(r'(Parsing|Semantic|Linting)', line):
                tail.append(line)
            m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
            if m:
                res['transitions'], res['states'] = int(m.group(1)), int(m.group(2))
            m = re.match(r'The number of states generated: (\d+)', line)
            if m:
                res['transitions'] = res['states'] = int(m.group(1))
    seen = set()
    short = [l for l in tail if l.strip() and not (l in seen or seen.add(l))]
    res['tail'] = ''.join(short)[-2000:]
    return res


def never_returns(out):
    """The call a driver that was stopped had been in for more than a minute."""
    try:
        since, k, i, op = open(out + '.doing').readline().split()[:4]
    except (OSError, ValueError):
        return None
    seconds = time.time() - float(since)
    return {'op': op, 'session': int(k), 'call': int(i), 'seconds': int(seconds)} if seconds > 60 else None


def where_stopped(r):
    """Session and event after which TLC could not evaluate the specification."""
    text = open(r['out'], errors='replace').read()
    if 'OutOfMemory' in text or 'StackOverflow' in text or 'Parsing or semantic analysis failed' in text:
        return None
    m = re.findall(r'^/\\ s = (\d+)$', text, re.M), re.findall(r'^/\\ i = (\d+)$', text, re.M)
    return (int(m[0][-1]), int(m[1][-1])) if m[0] and m[1] else None


def run(prop, tier, seed, keep=False):
    t0 = time.time()
    chk = registry.CHECKS[prop]
    build()
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    violations = []      # (clause, event, session number)
    known = []
    cover = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
    runs = []
    try:
        cases = os.path.join(work, 'cases.ndjson')
        ncases = 0
        with open(cases, 'w') as f:
            for m in chk.get('models', []):
                cfg = m + '.thorough.cfg'
                if tier != 'thorough' or not os.path.exists(os.path.join(SPEC, cfg)):
                    cfg = m + '.cfg'
                mod = registry.MODULE_OF.get(m, m)
                r = tlc(mod, cfg, work, simulate=registry.SIMULATE.get((m, tier)),
                        workers=1 if (m, tier) in registry.SIMULATE else 8, env={'VERIF_SEED': str(seed)},
                        extra=['-seed', str(seed)] if (m, tier) in registry.SIMULATE else ())
                if r['rc'] != 0:
                    raise Machinery('the model %s does not have its properties (TLC exit %d):\n%s' % (m, r['rc'], r['tail']))
                # in an order that does not depend on how TLC's workers were scheduled
                lines = sorted(json.dumps(c, sort_keys=True) for c in r['emitted'])
                random.Random('%s-%d' % (m, seed)).shuffle(lines)
                f.write(''.join(c + '\n' for c in lines))
                ncases += len(r['emitted'])
                cover['states'] += r['states']
                cover['transitions'] += r['transitions']
                runs.append({'model': m, 'cfg': cfg, 'states': r['states'], 'transitions': r['transitions'],
                             'behaviours_emitted': len(r['emitted']), 'wall_s': r['wall_s']})
        # 2. the real code
        t1 = time.time()
        n = chk.get('shards', 8)
        procs = []
        for k in range(n):
            out = os.path.join(work, 'trace-%d.ndjson' % k)
            env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                       PYTHONPYCACHEPREFIX=os.path.join(work, 'pyc'), PYTHONWARNINGS='ignore')
            procs.append((out, subprocess.Popen(
                ['timeout', '-k', '5', str(chk.get('drive_timeout', 600) if tier == 'quick' else 6000),
                 PYTHON, os.path.join(HERE, 'harness', 'drive.py'), chk['area'], prop, tier, str(seed), out,
                 str(k), str(n), cases],
                cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))))
        imports_broken = None
        for out, p in procs:
            so, se = p.communicate()
            if p.returncode == 7:
                imports_broken = se
            elif p.returncode == 1 and 'Traceback' in se:
                # on the tree the harness was made for it runs to its end: what it got is not what the interface gives
                violations.append(('%s:the workload cannot be carried out' % prop,
                                   {'op': 'workload', 'error': se[-2000:]}, 0))
            elif p.returncode != 0:
                stuck = never_returns(out)
                if not stuck:
                    raise Machinery('driver exit %d:\n%s' % (p.returncode, se[-3000:]))
                violations.append(('%s:a call does not return' % prop, stuck, 0))
        runs.append({'driver': chk['area'], 'wall_s': round(time.time() - t1, 2)})
        if imports_broken is not None:
            violations.append(('%s:the package does not import' % prop,
                               {'op': 'import bitforge', 'error': imports_broken[-2000:]}, 0))
        else:
            # 3. check what was recorded
            trace = os.path.join(work, 'trace.ndjson')
            nsess = nev = 0
            with open(trace, 'w') as f:
                for out, _ in procs:
                    for line in open(out) if os.path.exists(out) else ():
                        if line.endswith('\n'):
                            f.write(line)
                            nsess += 1
            lines = open(trace).read().splitlines()
            nev = sum(len(json.loads(l)['e']) for l in lines)
            if nev == 0 and not violations:
                raise Machinery('empty workload')
            T = 'T_' + chk['spec']
            r = tlc(T, T + '.cfg', work, env={'VERIF_TRACE': trace, 'VERIF_PROP': prop})
            if r['rc'] != 0:
                # an outcome that the specification cannot even be asked about is none that it allows
                at = where_stopped(r)
                if at and 1 <= at[0] <= len(lines):
                    sess = json.loads(lines[at[0] - 1])
                    if at[1] < len(sess['e']):
                        violations.append(('%s:the outcome has a shape that the specification does not know' % prop,
                                           sess['e'][at[1]], sess))
                if not violations and not any(c.startswith(prop + ':') and not registry.known_finding(prop, c, None)
                                              for _, _, c in r['fails']):
                    raise Machinery('TLC exit %d on the recorded trace:\n%s' % (r['rc'], r['tail']))
            elif r['states'] != nsess + nev:
                raise Machinery('TLC visited %d states for %d sessions with %d events' % (r['states'], nsess, nev))
            cover['states'] += r['states']
            cover['transitions'] += r['transitions']
            cover['traces_validated_against_impl'] = nsess
            cover['calls_checked_against_the_specification'] = nev
            runs.append({'trace_spec': T, 'states': r['states'], 'wall_s': r['wall_s']})
            seen = set()
            for s, i, clause in r['fails']:
                if not clause.startswith(prop + ':') or registry.elsewhere(prop, clause):
                    continue
                sess = json.loads(lines[s - 1])
                ev = sess['e'][i - 1]
                k = registry.known_finding(prop, clause, ev)
                if k:
                    known.append(k)
                else:
                    violations.append((clause, ev, sess))
            ops = {}
            for l in lines:
                for ev in json.loads(l)['e']:
                    ops[ev['op']] = ops.get(ev['op'], 0) + 1
            cover['calls_by_kind'] = ops
            for l in (lines[0], lines[len(lines) // 2], lines[-1]) if lines else ():
                d = json.loads(l)
                txt = json.dumps(d['e'][:2])
                cover['samples'].append(txt if len(txt) < 1500 else txt[:1500] + '...')
        cover['behaviours_replayed_from_models'] = ncases
        cover['runs'] = runs
        # report
        rdir = os.path.join(HERE, 'out', prop)
        shutil.rmtree(rdir, ignore_errors=True)
        reported = {}
        for clause, ev, sess in violations:
            reported.setdefault(clause, []).append((ev, sess))
        for k in sorted(set(known)):
            print('KNOWN-FINDING: property=%s %s (%d recorded calls)' % (prop, k, known.count(k)))
        for n, (clause, evs) in enumerate(sorted(reported.items())):
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, 'replay-%d.json' % n)
            ev, sess = min(evs, key=lambda x: len(json.dumps(x[0])))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'clause': clause, 'event': ev, 'session': sess, 'count': len(evs),
                           'tier': tier, 'seed': seed}, f)
            print('%s: %d calls break "%s"; e.g. %s' % (prop, len(evs), clause, json.dumps(ev)[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': chk.get('level', 'model_checking'),
              'coverage': cover, 'assumptions': registry.ASSUMPTIONS + chk.get('assumptions', []),
              'wall_s': round(time.time() - t0, 2), 'violations': len(reported)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %s; %d sessions, %d calls, %d states, %.1f s' % (
            prop, tier, 'VIOLATED' if reported else 'held', cover['traces_validated_against_impl'],
            cover.get('calls_checked_against_the_specification', 0), cover['states'], time.time() - t0))
        return 1 if reported else 0
    finally:
        if keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true', help='compile the overrides and compare them with the definitions')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    try:
        if a.setup:
            build()
            work = tempfile.mkdtemp(prefix='verif-setup-')
            try:
                r = tlc('M_Base', 'M_Base.cfg', work)
            finally:
                shutil.rmtree(work, ignore_errors=True)
            if r['rc'] != 0:
                raise Machinery('the overrides do not agree with the specification (TLC exit %d):\n%s' % (r['rc'], r['tail']))
            print('setup: M_Base holds in %d states, %.1f s' % (r['states'], r['wall_s']))
            sys.exit(0)
        if a.property not in registry.CHECKS:
            ap.error('unknown property')
        sys.exit(run(a.property, a.tier, a.seed, a.keep))
    except Machinery as e:
        print('MACHINERY ERROR: %s' % e)
        sys.exit(2)


if __name__ == '__main__':
    main()
