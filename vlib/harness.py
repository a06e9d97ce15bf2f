"""Check harness: seeded cases, monitors' event counters, verdicts, evidence.

Every case of a check is produced by a *probe*, a function
``probe(ctx, rng)`` that is given its own random generator.  A case is fully
identified by (probe name, case label), so a violation can be replayed by
running one probe with one label.

Verdicts
  held          exit 0
  violated      exit 1 and a line VIOLATION property=<id> replay=<path>
  inconclusive  exit 2 (a probe observed fewer events than it must, or the
                harness itself failed)
"""
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.jsonl')

#: CPU seconds a single case may use before it counts as non-terminating.
#: Ordinary cases take milliseconds.
CASE_CPU_LIMIT = 60

#: Wall seconds after which a worker starts no further case, so that a check
#: answers in time however slow the code under test has become.
WORKER_LIMIT = {'quick': 500, 'thorough': 6 * 3600}


class Violation(Exception):

    def __init__(self, mechanism, detail):
        Exception.__init__(self, '%s: %s' % (mechanism, detail))
        self.mechanism = mechanism
        self.detail = detail


class Stuck(BaseException):
    pass


def _on_cpu_limit(signum, frame):
    raise Stuck()


class Ctx(object):
    """Collects what the monitors of one check saw."""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.evaluations = 0
        self.distinct = set()
        self.events = {}
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.probe = None
        self.label = None
        self._nsample = {}
        self.known = load_known(prop)
        self.notes = []

    # -- observation ------------------------------------------------------
    def saw(self, event, n=1):
        k = '%s/%s' % (self.probe, event)
        self.events[k] = self.events.get(k, 0) + n

    def case(self, key, sample=None):
        """One evaluated case.  `key` identifies it; None = trivial."""
        self.evaluations += 1
        self.events['%s/cases' % self.probe] = \
            self.events.get('%s/cases' % self.probe, 0) + 1
        if key is not None:
            h = hashlib.blake2b(repr((self.probe, key)).encode('utf8',
                                                                 'replace'),
                                digest_size=8).digest()
            self.distinct.add(h)
        if sample is not None and self._nsample.get(self.probe, 0) < 1:
            self._nsample[self.probe] = self._nsample.get(self.probe, 0) + 1
            self.samples.append('%s: %s' % (self.probe, sample))

    # -- verdicts ---------------------------------------------------------
    def violation(self, mechanism, detail):
        """Record a violation; `mechanism` names what fails (stable, not
        depending on the random values), `detail` the witness."""
        for k in self.known:
            if k['mechanism'] == mechanism:
                self.known_hits.setdefault(mechanism, 0)
                self.known_hits[mechanism] += 1
                return
        self.violations.append({
            'property': self.prop, 'mechanism': mechanism,
            'probe': self.probe, 'label': self.label, 'seed': self.seed,
            'tier': self.tier, 'detail': str(detail)[:4000],
        })

    def check(self, cond, mechanism, detail=''):
        if not cond:
            self.violation(mechanism, detail() if callable(detail)
                           else detail)
        return bool(cond)

    def equal(self, got, want, mechanism, what=''):
        if got != want:
            self.violation(mechanism, '%s: got %s, expected %s' % (
                what, short(got), short(want)))
            return False
        return True


def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...(%d chars)' % len(r)


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                line = line.strip()
                if not line or line.startswith('#'):
                    continue
                d = json.loads(line)
                if d.get('property') == prop and d.get('kind') == 'known':
                    out.append(d)
    return out


def rng_for(seed, probe, label):
    return random.Random('%s|%s|%s' % (seed, probe, label))


class Probe(object):

    def __init__(self, fn, quick, thorough, need=1, cpu=CASE_CPU_LIMIT):
        self.fn = fn
        self.cpu = cpu
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.need = need


ZONES = ('UTC0', 'UTC0', 'EST5EDT', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30',
         'NZST-12NZDT,M9.5.0,M4.1.0/3', 'XXX11:15', 'YYY-14')


class Suite(object):
    """The probes of one property."""

    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.probes = []
        self.finalizers = []
        self.required = []

    def probe(self, quick=1, thorough=None, need=1, cpu=CASE_CPU_LIMIT):
        """Register a probe run `quick` (or `thorough`) times; the run is
        inconclusive unless it reports at least `need` cases in total."""
        if thorough is None:
            thorough = quick * 10

        def deco(fn):
            self.probes.append(Probe(fn, quick, thorough, need, cpu))
            return fn
        return deco

    def require(self, *events):
        """Events some probe must have observed at least once."""
        self.required.extend(events)

    def finalize(self, fn):
        self.finalizers.append(fn)
        return fn


def run_case(ctx, probe, label):
    ctx.probe = probe.name
    ctx.label = str(label)
    rng = rng_for(ctx.seed, probe.name, label)
    # nothing may depend on where the computer stands
    os.environ['TZ'] = os.environ.get('VERIF_TZ') or rng_for(
        ctx.seed, probe.name, 'zone-%s' % label).choice(ZONES)
    time.tzset()
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, probe.cpu)
    try:
        probe.fn(ctx, rng)
    except Violation as e:
        ctx.violation(e.mechanism, e.detail)
    except Stuck:
        ctx.violation('does-not-terminate:' + probe.name,
                      'case used more than %d s of CPU time'
                      % probe.cpu)
        return 'stuck'
    except KeyboardInterrupt:
        raise
    except MemoryError:
        ctx.violation('memory:' + probe.name, 'memory exhausted')
    except RecursionError as e:
        tb = traceback.extract_tb(e.__traceback__)
        ctx.violation('unexpected-exception:' + probe.name,
                      'RecursionError, %d frames\n%s' % (
                          len(tb), ''.join(traceback.format_list(
                              tb[:6] + tb[-6:]))))
    except Exception as e:
        # The probes wrap everything that is allowed to fail; an exception
        # that leaves a probe comes from an operation that must succeed.
        tb = traceback.extract_tb(e.__traceback__)
        ours = [f for f in tb if '/pgp/' in f.filename
                and not f.filename.startswith(VERIF)]
        if ours or isinstance(e, (AttributeError, ImportError, TypeError,
                                  NameError)):
            ctx.violation('unexpected-exception:' + probe.name,
                          ''.join(traceback.format_exception(
                              type(e), e, e.__traceback__))[-3000:])
        else:
            ctx.violation('unexpected-exception:' + probe.name,
                          'harness-side: ' +
                          ''.join(traceback.format_exception(
                              type(e), e, e.__traceback__))[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(suite, prop, tier, seed, shard, nshards, out):
    ctx = Ctx(prop, tier, seed)
    t0 = time.time()
    for probe in suite.probes:
        n = probe.thorough if ctx.thorough else probe.quick
        for i in range(shard, n, nshards):
            if run_case(ctx, probe, i) == 'stuck' or \
                    time.time() - t0 > WORKER_LIMIT[tier]:
                break
            if len(ctx.violations) > 40:
                break
        if time.time() - t0 > WORKER_LIMIT[tier]:
            if not ctx.violations:
                ctx.notes.append('out of time in probe %s' % probe.name)
            break
    ctx.probe = 'finalize'
    state = {
        'evaluations': ctx.evaluations,
        'distinct': [d.hex() for d in ctx.distinct],
        'events': ctx.events,
        'samples': ctx.samples,
        'violations': ctx.violations,
        'known_hits': ctx.known_hits,
        'notes': ctx.notes,
        'rss': resource.getrusage(resource.RUSAGE_SELF).ru_maxrss,
    }
    with open(out, 'w') as fh:
        json.dump(state, fh)


def run_suite(suite, tier, seed, jobs=None):
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    if jobs is None:
        jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(
            8, os.cpu_count() or 1)
    total = sum((p.thorough if tier == 'thorough' else p.quick)
                for p in suite.probes)
    jobs = max(1, min(jobs, total))
    merged = Ctx(suite.prop, tier, seed)
    problems = []
    pids = {}
    outs = []
    sys.stdout.flush()
    for s in range(jobs):
        out = os.path.join(EVIDENCE, '.%s.%d.%d' % (suite.prop, os.getpid(),
                                                    s))
        outs.append(out)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                _worker(suite, suite.prop, tier, seed, s, jobs, out)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        pids[pid] = s
    while pids:
        pid, status = os.wait()
        if pid not in pids:
            continue
        s = pids.pop(pid)
        if status != 0:
            problems.append('worker %d ended with status %d' % (s, status))
    rss = 0
    for out in outs:
        if not os.path.exists(out):
            continue
        with open(out) as fh:
            st = json.load(fh)
        os.unlink(out)
        merged.evaluations += st['evaluations']
        merged.distinct.update(st['distinct'])
        for k, v in st['events'].items():
            merged.events[k] = merged.events.get(k, 0) + v
        for smp in st['samples']:
            pre = smp.split(':', 1)[0]
            if merged._nsample.get(pre, 0) < 1:
                merged._nsample[pre] = 1
                merged.samples.append(smp)
        merged.violations.extend(st['violations'])
        problems.extend(st['notes'])
        for k, v in st['known_hits'].items():
            merged.known_hits[k] = merged.known_hits.get(k, 0) + v
        rss = max(rss, st['rss'])
    for p in suite.probes:
        n = p.thorough if tier == 'thorough' else p.quick
        seen = merged.events.get('%s/cases' % p.name, 0)
        if n and seen < p.need:
            problems.append('probe %s observed %d cases, needs %d' % (
                p.name, seen, p.need))
    for ev in suite.required:
        if not merged.events.get(ev):
            problems.append('required event %s never observed' % ev)
    ev = {
        'property': suite.prop, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': merged.evaluations,
            'distinct_nontrivial': len(merged.distinct),
            'rule': suite.rule,
            'samples': merged.samples[:40],
            'monitor_events': dict(sorted(merged.events.items())),
            'known_finding_hits': merged.known_hits,
            'peak_rss_kb': rss,
            'inconclusive': problems,
        },
        'assumptions': suite.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(merged.violations),
    }
    path = os.path.join(EVIDENCE, suite.prop + '.json')
    with open(path + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write('\n')
    os.replace(path + '.tmp', path)
    return merged, problems


def report(suite, merged, problems):
    for k in merged.known:
        if k.get('always') or merged.known_hits.get(k['mechanism']):
            print('KNOWN-FINDING: property=%s %s' % (suite.prop, k['what']))
    if merged.violations:
        rdir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        n = 0
        for v in merged.violations:
            if v['mechanism'] in seen:
                continue
            seen.add(v['mechanism'])
            n += 1
            path = os.path.join(rdir, '%s-%d.json' % (suite.prop, n))
            with open(path, 'w') as fh:
                json.dump(v, fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (suite.prop, path))
            print('  mechanism: %s' % v['mechanism'])
            print('  case: %s[%s] seed=%s' % (v['probe'], v['label'],
                                              v['seed']))
            print('  ' + v['detail'].replace('\n', '\n  ')[:1800])
        return 1
    if problems:
        for p in problems:
            print('INCONCLUSIVE property=%s %s' % (suite.prop, p))
        return 2
    print('HELD property=%s evaluations=%d distinct=%d' % (
        suite.prop, merged.evaluations, len(merged.distinct)))
    return 0


def replay(suite, path):
    with open(path) as fh:
        v = json.load(fh)
    ctx = Ctx(suite.prop, v['tier'], v['seed'])
    for p in suite.probes:
        if p.name == v['probe']:
            run_case(ctx, p, v['label'])
    return report(suite, ctx, [])
