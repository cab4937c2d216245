#!/usr/bin/env python3
"""check.py <property> - decide one property of /repo with the TLA+ specification.

Each property has legs:
  mc      TLC explores the specification itself and evaluates its invariants;
          where the leg emits behaviours, every emitted behaviour is replayed
          into the real code and the recorded trace validated.
  trace   a driver plays generated histories on the real library through its
          public interface and records them; TLC validates every record against
          the specification and names the clauses that differ.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the machinery itself failed.
"""
import collections
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
DRIVERS = os.path.join(VERIF, 'drivers')
REPO = '/repo'
TLC_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, HERE)
from legs import PROPS  # noqa: E402

SEED = int(os.environ.get('VERIF_SEED') or 1)
TIER = os.environ.get('VERIF_TIER') or 'quick'
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'


class Machinery(Exception):
    pass


SLOTS = threading.BoundedSemaphore(8)


def run(cmd, env=None, cwd=None, timeout=600, out=None):
    with SLOTS:
        return run_now(cmd, env, cwd, timeout, out)


def run_now(cmd, env, cwd, timeout, out):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=out or subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -9, b'timeout'
    return p.returncode, o or b''


def jython(script, args, timeout):
    env = {'LC_ALL': 'C.UTF-8', 'PYTHONHASHSEED': '0', 'PYTHONIOENCODING': 'utf-8',
           'JYTHONPATH': REPO + ':/opt/jylib', 'JAVA_TOOL_OPTIONS': '-Xmx1500m -XX:+UseSerialGC -XX:TieredStopAtLevel=1'}
    return run(['jython', '-B', os.path.join(DRIVERS, script)] + [str(a) for a in args],
               env=env, cwd=DRIVERS, timeout=timeout)


def tlc(module, cfg, work, env=None, workers=1, timeout=800, heap='2500m', extra=()):
    meta = tempfile.mkdtemp(prefix='tlc', dir=work)
    e = {'JAVA_TOOL_OPTIONS': '-Xmx%s -Dfile.encoding=UTF-8 -Xss64m' % heap}
    e.update(env or {})
    out = os.path.join(meta, 'out.txt')
    with open(out, 'wb') as f:
        rc, _ = run(['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-cp', TLC_JARS, 'tlc2.TLC',
                     '-workers', str(workers), '-metadir', meta, '-config', cfg] + list(extra)
                    + [module + '.tla'], env=e, cwd=SPEC, timeout=timeout, out=f)
    text = open(out, encoding='utf-8', errors='replace').read()
    shutil.rmtree(meta, ignore_errors=True)
    return rc, text


def tlc_counts(text):
    m = re.findall(r'(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found', text)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(',', '')), int(d.replace(',', ''))


def unquote(line):
    """A TLC PrintT of a string: undo its quoting."""
    try:
        return json.loads(line)
    except ValueError:
        return line.strip('"').replace('\\"', '"').replace('\\\\', '\\')


# ---------------------------------------------------------------------------

class Result(object):
    def __init__(self):
        self.states = self.transitions = 0
        self.histories = self.records = 0
        self.replayed = 0
        self.failures = []         # dicts: sig, record context
        self.samples = []
        self.ignored = 0
        self.mc = []
        self.kinds = collections.Counter()


def read_trace(path):
    recs = []
    with open(path) as f:
        for line in f:
            try:
                recs.append(json.loads(line))
            except ValueError:
                break               # a line cut short by a killed driver
    return recs


def history_of(recs, line):
    h = recs[line - 1].get('h')
    return [r for r in recs[:line] if r.get('h') == h]


def brief(r):
    op = r.get('op', {})
    b = dict(op) if isinstance(op, dict) else {'op': op}
    if isinstance(b.get('pv'), dict):
        b['pv'] = b['pv'].get('s')
    b['res'] = r.get('res')
    return b


def validate(leg, trace, work, res, tag):
    """Run the trace specification over one recorded file."""
    recs = read_trace(trace)
    if not recs:
        raise Machinery('driver %s recorded nothing' % tag)
    special = [(i + 1, r) for i, r in enumerate(recs) if 'crash' in r or 'hang' in r]
    plain = [r for r in recs if not ('crash' in r or 'hang' in r)]
    for i, r in special:
        what = 'hang' if 'hang' in r else 'crash'
        res.failures.append({'line': i, 'h': r.get('h'), 'op': what, 'recs': recs[max(0, i - 30):i],
                             'fails': [{'c': what, 'node': 0, 'want': 'no ' + what,
                                        'got': str(r.get('doing') or r.get('crash'))[:3000]}]})
    if special:
        with open(trace, 'w') as f:
            for r in plain:
                f.write(json.dumps(r) + '\n')
        recs = plain
    if recs:
        rc, text = tlc(leg['spec'], leg['spec'] + '.cfg', work, env={'TRACE': trace},
                       timeout=leg.get('tlc_timeout', 800))
        stuck = re.findall(r'^/\\ l = (\d+)$', text, re.M)
        if ('Model checking completed. No error has been found.' not in text and stuck
                and 'Error: ' in text and not re.search('OutOfMemory|StackOverflow|timeout', text)):
            # the specification is total on everything the library may do: a record
            # it cannot even evaluate is a difference
            n = int(stuck[-1])
            i = text.find('Error: ')
            res.failures.append({'line': n, 'h': recs[n - 1].get('h'), 'op': 'crash', 'recs': history_of(recs, n),
                                 'fails': [{'c': 'crash', 'node': 0, 'want': 'an observation the specification can read',
                                            'got': text[i:i + 1200]}]})
            recs = recs[:n]
            g = d = n
        elif 'Model checking completed. No error has been found.' not in text:
            keep = os.path.join(tempfile.gettempdir(), 'tlc-failed-%s.txt' % tag)
            open(keep, 'w').write(text)
            shutil.copy(trace, keep + '.ndjson')
            i = text.find('Error:')
            raise Machinery('TLC could not evaluate trace %s (%s): %s' % (tag, keep, text[i:i + 1500]))
        else:
            g, d = tlc_counts(text)
        if d < len(recs):
            raise Machinery('TLC stopped early on %s' % tag)
        res.states += d
        res.transitions += g - 1
        for line in text.splitlines():
            if line.startswith('"FAIL '):
                f = json.loads(unquote(line)[5:])
                f['recs'] = history_of(recs, f['line'])
                res.failures.append(f)
    res.histories += len(set(r.get('h') for r in recs))
    res.records += len(recs)
    for r in recs:
        op = r.get('op')
        res.kinds[op.get('o') if isinstance(op, dict) else str(op)] += 1
    if len(res.samples) < 3:
        for r in recs:
            if len(r.get('nodes', [1, 2])) > 1:
                h = [x for x in recs if x.get('h') == r.get('h')][:6]
                res.samples.append([brief(x) for x in h])
                break


def trace_leg(leg, work, res, round_no):
    shards = leg.get('shards', 8)
    budget = leg.get('budget', 2500)
    if TIER == 'thorough':
        shards = leg.get('tshards', 12)
        budget = leg.get('tbudget', budget * 2)

    def one(shard):
        r = Result()
        tag = '%s-%s-%d-%d' % (leg['driver'].replace('.py', ''), leg['profile'], round_no, shard)
        path = os.path.join(work, tag + '.ndjson')
        rc, out = jython(leg['driver'], [leg['profile'], path, SEED + 1000 * round_no, shard, budget],
                         timeout=leg.get('timeout', 500))
        text = out.decode('utf-8', 'replace')
        if rc not in (0, 77):
            # the driver reports problems of the code as records; anything else
            # (the library cannot be imported, say) surfaces here
            if rc == -9:
                raise Machinery('driver %s timed out' % tag)
            if not os.path.exists(path) or 'Traceback' in text:
                r.failures.append({'line': 0, 'h': 0, 'op': 'crash', 'recs': [],
                                   'fails': [{'c': 'crash', 'node': 0, 'want': 'the driver runs', 'got': text[-3000:]}]})
                return r
            raise Machinery('driver %s failed: %s' % (tag, text[-1500:]))
        validate(leg, path, work, r, tag)
        os.unlink(path)
        return r
    with concurrent.futures.ThreadPoolExecutor(max_workers=leg.get('parallel', 8)) as ex:
        for r in ex.map(one, range(shards)):
            merge(res, r)


def merge(a, b):
    a.states += b.states
    a.transitions += b.transitions
    a.histories += b.histories
    a.records += b.records
    a.replayed += b.replayed
    a.failures += b.failures
    a.kinds.update(b.kinds)
    if len(a.samples) < 3:
        a.samples += b.samples[:1]


def mc_leg(leg, work, res):
    cfg = leg['cfg'] if TIER == 'quick' else leg.get('tcfg', leg['cfg'])
    t0 = time.time()
    rc, text = tlc(leg['spec'], cfg, work, workers=leg.get('workers', 4), heap='6g', timeout=850)
    if 'Model checking completed. No error has been found.' not in text:
        i = text.find('Error:')
        open(os.path.join(tempfile.gettempdir(), 'tlc-mc-failed.txt'), 'w').write(text)
        raise Machinery('the specification violates its own invariants (%s/%s): %s'
                        % (leg['spec'], cfg, text[i:i + 2500]))
    g, d = tlc_counts(text)
    if d < leg.get('at_least', 2):
        raise Machinery('model %s explored only %d states' % (leg['spec'], d))
    res.states += d
    res.transitions += g
    res.mc.append({'model': leg['spec'], 'config': cfg, 'states': d, 'transitions': g,
                   'wall_s': round(time.time() - t0, 1)})
    if not leg.get('replay'):
        return
    behaviours = [unquote(line)[4:] for line in text.splitlines() if line.startswith('"RUN ')]
    if not behaviours:
        raise Machinery('model %s emitted no behaviours' % leg['spec'])
    behaviours.sort()
    cap = leg.get('cap' if TIER == 'quick' else 'tcap')
    total = len(behaviours)
    if cap and total > cap:
        step = total / float(cap)
        off = SEED % max(1, int(step))
        behaviours = [behaviours[min(total - 1, int(i * step) + off)] for i in range(cap)]
    res.mc[-1]['behaviours_emitted'] = total
    res.mc[-1]['behaviours_replayed'] = len(behaviours)
    rp = leg['replay']
    shards = min(8, max(1, len(behaviours) // 200))

    def one(shard):
        r = Result()
        tag = 'replay-%s-%d' % (leg['cfg'].replace('.cfg', ''), shard)
        src = os.path.join(work, tag + '.json')
        with open(src, 'w') as f:
            for b in behaviours[shard::shards]:
                f.write(b + '\n')
        path = os.path.join(work, tag + '.ndjson')
        rc, out = jython(rp['driver'], ['@' + src, path, SEED, shard, 0], timeout=500)
        if rc not in (0, 77):
            t = out.decode('utf-8', 'replace')
            if rc != -9 and 'Traceback' in t:
                r.failures.append({'line': 0, 'h': 0, 'op': 'crash', 'recs': [],
                                   'fails': [{'c': 'crash', 'node': 0, 'want': 'the driver runs', 'got': t[-3000:]}]})
                return r
            raise Machinery('replay driver failed: ' + t[-1500:])
        validate(rp, path, work, r, tag)
        r.replayed = len(behaviours[shard::shards])
        os.unlink(path)
        return r
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for r in ex.map(one, range(shards)):
            merge(res, r)


# ---------------------------------------------------------------------------

def known_findings(prop):
    """finding lines: 'finding: property=<id> sig=<regex> <what fails>'"""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def signature(f, fail):
    r = f['recs'][-1] if f['recs'] else {}
    op = r.get('op', {})
    return re.sub(r'\s+', '', '%s|%s|%s|%s' % (f['op'], fail['c'], fail.get('want', ''), fail.get('got', '')))


def main():
    prop = sys.argv[1]
    if prop not in PROPS:
        print('unknown property', prop)
        return 2
    t0 = time.time()
    spec = PROPS[prop]
    res = Result()
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        def one_leg(leg):
            r = Result()
            if leg['kind'] == 'mc':
                mc_leg(leg, work, r)
            else:
                rounds = 1
                if TIER == 'thorough':
                    rounds = leg.get('rounds', 6)
                for n in range(rounds):
                    trace_leg(leg, work, r, n)
                    if TIER == 'thorough' and time.time() - t0 > 600:
                        break
            return r
        with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
            for r in list(ex.map(one_leg, [l for l in spec['legs'] if l.get('tier', TIER) == TIER])):
                merge(res, r)
                res.mc += r.mc
    except Machinery as e:
        print('MACHINERY FAILURE: %s' % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

    # which recorded differences concern this property?
    keep = spec.get('keep', lambda f, fail: True)
    mine, known = [], collections.OrderedDict()
    kf = known_findings(prop)
    for f in res.failures:
        fs = []
        for fail in f['fails']:
            if f['op'] not in ('crash', 'hang') and fail['c'] not in ('crash', 'hang') and not keep(f, fail):
                continue
            sig = signature(f, fail)
            hit = [what for rx, what in kf if rx.search(sig)]
            if hit:
                known.setdefault(hit[0], 0)
                known[hit[0]] += 1
            else:
                fs.append(fail)
        if fs:
            mine.append((f, fs))
        else:
            res.ignored += 1
    for what in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))

    replay = None
    if mine:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, '%s-%d.json' % (prop, SEED))
        mine.sort(key=lambda m: len(m[0]['recs']))
        with open(replay, 'w') as fh:
            json.dump({'property': prop, 'seed': SEED, 'tier': TIER, 'count': len(mine),
                       'cases': [{'clauses': fs, 'history': f['recs']} for f, fs in mine[:5]]}, fh, indent=1)
        for f, fs in mine[:3]:
            print('-- %s, record %s of its trace, operation %s' % (prop, f['line'], f['op']))
            for r in f['recs'][-6:]:
                print('   ' + json.dumps(brief(r))[:400])
            for fail in fs[:4]:
                print('   clause %-20s node %s  specified: %s  observed: %s' % (
                    fail['c'], fail.get('node'), str(fail.get('want'))[:300], str(fail.get('got'))[:600]))
    cov = {'states': res.states, 'transitions': res.transitions,
           'traces_validated_against_impl': res.histories,
           'records_validated': res.records, 'spec_behaviours_replayed': res.replayed,
           'model_checking_runs': res.mc, 'operations': dict(res.kinds.most_common(60)),
           'differences_outside_this_property': res.ignored,
           'samples': res.samples[:3]}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump({'property': prop, 'tier': TIER, 'seed': SEED, 'level': spec.get('level', 'model_checking'),
                   'coverage': cov, 'assumptions': spec.get('assumptions', []),
                   'wall_s': round(time.time() - t0, 1), 'violations': len(mine)}, fh, indent=1)
    print('%s: %d histories, %d records, %d states, %d violations, %.0f s' % (
        prop, res.histories, res.records, res.states, len(mine), time.time() - t0))
    if mine:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
