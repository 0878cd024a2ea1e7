"""Runs the generated-input search for one property.

A check module /verif/checks/<id lower case>_*.py registers facets:

    @facet(strategy, quick=200, thorough=5000)
    def name(case): ...          # raises Violation (use require) when the property is broken on this case

A facet is a strategy of plain cases plus an oracle.  It returns False when the case was trivial, anything else
when it was not.  Each facet runs in its own process, driven by Hypothesis and seeded by VERIF_SEED; a failing case
is shrunk and written to a replay file.  An exception raised by the code under test on a valid case, or by the
check when it uses what the code gave, counts as a violation; running out of memory or disk makes the check exit with 2.
"""

import base64
import contextlib
import copy
import datetime
import errno
import faulthandler
import glob
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.environ.get('VERIF', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TREE = os.environ.get('VERIF_TREE', os.path.join(VERIF, 'build', 'py3'))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TOTAL = float(os.environ.get('VERIF_BUDGET', '150' if TIER != 'thorough' else '700'))
SCALE = float(os.environ.get('VERIF_SCALE', '1'))
CORES = 8
SHRINK_SECONDS = 40.0
MORE = 4.0              # a facet goes on to this many times its number of cases while it has used less than its share of MORE_SECONDS
MORE_SECONDS = 25.0
CASE_SECONDS = 300.0 if TIER != 'thorough' else 900.0     # no case takes more than a small part of this on the unchanged tree
CASE_BYTES = 3 << 30                                      # nor of this
FACETS = []
MODULE = {}


class Violation(AssertionError):
    """The property does not hold on this case."""


class _Enough(BaseException):
    pass


class _StopShrinking(BaseException):
    pass


class Facet(object):
    def __init__(self, function, strategy, quick, thorough, cost, rule, shards=1):
        self.shards, self.shard = shards, 0
        self.function, self.strategy, self.quick, self.thorough = function, strategy, quick, thorough
        self.name, self.cost, self.rule = function.__name__, cost, rule or (function.__doc__ or '').strip()


def facet(strategy, quick=200, thorough=4000, cost=1.0, rule=None, shards=1):
    """Register a facet: strategy is a Hypothesis strategy of cases (encodable by encode below).
       The cases are shared out over so many shards, each a process with a seed of its own."""
    def register(function):
        FACETS.append(Facet(function, strategy, quick, thorough, cost, rule, shards))
        return function
    return register


def require(condition, message, *values):
    if not condition:
        raise Violation(message % values if values else message)


def require_close(actual, expected, message, rtol=1e-9, atol=1e-9):
    import numpy
    a, e = numpy.asarray(actual, dtype=float), numpy.asarray(expected, dtype=float)
    if a.shape != e.shape:
        raise Violation('%s: shape %s, expected %s' % (message, a.shape, e.shape))
    bad = ~numpy.isclose(a, e, rtol=rtol, atol=atol, equal_nan=True)
    if bad.any():
        i = tuple(int(x[0]) for x in numpy.nonzero(bad)) if a.shape else ()
        raise Violation('%s: at %s got %r, expected %r (%d of %d differ)' % (message, i, float(a[i]), float(e[i]), int(bad.sum()), a.size))


def raises(kinds, function, *args, **kwargs):
    """True if the call raises one of kinds; any other exception propagates."""
    try:
        function(*args, **kwargs)
    except kinds:
        return True
    return False


# ---------------------------------------------------------------- cases as JSON

def encode(x):
    import numpy
    if isinstance(x, datetime.datetime):
        return {'__datetime__': x.isoformat()}
    if isinstance(x, bytes):
        return {'__bytes__': base64.b64encode(x).decode()}
    if isinstance(x, tuple):
        return {'__tuple__': [encode(y) for y in x]}
    if isinstance(x, (set, frozenset)):
        return {'__set__': [encode(y) for y in sorted(x)]}
    if isinstance(x, list):
        return [encode(y) for y in x]
    if isinstance(x, dict):
        return {'__dict__': [[encode(k), encode(v)] for k, v in x.items()]} if any(not isinstance(k, str) for k in x) else {k: encode(v) for k, v in x.items()}
    if isinstance(x, numpy.ndarray):
        return {'__array__': x.tolist(), 'dtype': str(x.dtype), 'shape': list(x.shape)}
    if isinstance(x, numpy.generic):
        return encode(x.item())
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return {'__float__': repr(x)}
        return x
    if isinstance(x, str):
        try:
            x.encode('utf-8')
            return x
        except UnicodeEncodeError:
            return {'__str__': base64.b64encode(x.encode('utf-8', 'surrogatepass')).decode()}
    if x is None or isinstance(x, (bool, int)):
        return x
    raise TypeError('cannot encode %r' % type(x))


def decode(x):
    import numpy
    if isinstance(x, list):
        return [decode(y) for y in x]
    if isinstance(x, dict):
        if '__datetime__' in x:
            return datetime.datetime.fromisoformat(x['__datetime__'])
        if '__bytes__' in x:
            return base64.b64decode(x['__bytes__'])
        if '__tuple__' in x:
            return tuple(decode(y) for y in x['__tuple__'])
        if '__set__' in x:
            return set(decode(y) for y in x['__set__'])
        if '__dict__' in x:
            return {decode(k): decode(v) for k, v in x['__dict__']}
        if '__array__' in x:
            return numpy.array(x['__array__'], dtype=x['dtype']).reshape(x['shape'])
        if '__float__' in x:
            return float(x['__float__'])
        if '__str__' in x:
            return base64.b64decode(x['__str__']).decode('utf-8', 'surrogatepass')
        return {k: decode(v) for k, v in x.items()}
    return x


def dumps(case):
    return json.dumps(encode(case))


# ---------------------------------------------------------------- running

@contextlib.contextmanager
def quiet():
    """The code under test prints a lot: send file descriptors 1 and 2 to /dev/null."""
    sys.stdout.flush()
    sys.stderr.flush()
    saved = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.close(null)
    try:
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
        os.close(saved[0])
        os.close(saved[1])


SCRATCH = None


@contextlib.contextmanager
def scratch():
    """A fresh directory for one case, removed afterwards."""
    path = tempfile.mkdtemp(prefix='case.', dir=SCRATCH)
    here = os.getcwd()
    try:
        yield path
    finally:
        os.chdir(here)
        shutil.rmtree(path, ignore_errors=True)


def blame(error):
    """'violation' if this comes of what the code under test did or returned, 'harness' if of the sandbox (memory, disk)."""
    if isinstance(error, MemoryError) or (isinstance(error, OSError) and error.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EDQUOT)):
        return 'harness'
    return 'violation'


def describe(error):
    if isinstance(error, Violation):
        return str(error)
    frames = [f for f in traceback.extract_tb(error.__traceback__) if os.path.abspath(f.filename).startswith(TREE)]
    where = ' at %s:%d in %s' % (os.path.relpath(frames[-1].filename, TREE), frames[-1].lineno, frames[-1].name) if frames else ''
    return '%s %s: %s%s' % ('the code raised' if frames else 'what the code gave cannot be used:', type(error).__name__, error, where)


def run_facet(f, prop, out, budget, more=0.0):
    """In a process of its own."""
    global SCRATCH
    faulthandler.enable(open(out + '.fault', 'w'))
    SCRATCH = tempfile.mkdtemp(prefix='verif.%s.%s.' % (prop, f.name))
    os.chdir(SCRATCH)
    result = {'facet': f.name, 'rule': f.rule, 'evaluations': 0, 'nontrivial': 0, 'samples': [], 'violation': None, 'error': None}
    seen = set()
    skipped = []
    start = time.time()
    failing = {}

    import hypothesis
    from hypothesis import strategies as st

    def execute(case):
        if f.shard and not skipped:
            # the first case is the simplest one, which the first shard has
            skipped.append(True)
            return
        now = time.time()
        if failing:
            if now - failing['since'] > SHRINK_SECONDS:
                raise _StopShrinking()
        elif now - start > budget or (result['evaluations'] >= enough and now - start > more):
            raise _Enough()
        text = dumps(case)
        with open(out + '.current', 'w') as stream:
            stream.write(text)
        try:
            value = f.function(decode(json.loads(text)))
        except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
            raise
        except Exception as error:
            result['evaluations'] += 1
            if blame(error) == 'violation':
                if not failing:
                    failing['since'] = time.time()
                if 'case' not in failing or len(text) <= len(failing['case']):
                    failing['case'], failing['message'] = text, describe(error)
                    failing['trace'] = ''.join(traceback.format_exception(type(error), error, error.__traceback__))[-4000:]
                raise
            failing['harness'] = ''.join(traceback.format_exception(type(error), error, error.__traceback__)) + '\ncase: ' + text[:3000]
            raise _StopShrinking()
        result['evaluations'] += 1
        if value is not False:
            key = hashlib.sha1(text.encode()).digest()
            if key not in seen:
                seen.add(key)
                if len(result['samples']) < 3 and len(text) < 1500 and result['nontrivial'] in (0, 5, 25):
                    result['samples'].append({'facet': f.name, 'case': json.loads(text)})
                result['nontrivial'] += 1

    enough = max(1, int((f.quick if TIER != 'thorough' else f.thorough) * SCALE / f.shards))
    count = (int(enough * MORE) if more > 0.0 else enough) + (1 if f.shard else 0)
    strategy = f.strategy() if callable(f.strategy) and not isinstance(f.strategy, st.SearchStrategy) else f.strategy
    settings = hypothesis.settings(max_examples=count, database=None, deadline=None, derandomize=False,
                                   report_multiple_bugs=False, print_blob=False, verbosity=hypothesis.Verbosity.quiet,
                                   suppress_health_check=list(hypothesis.HealthCheck),
                                   phases=(hypothesis.Phase.explicit, hypothesis.Phase.generate, hypothesis.Phase.shrink))
    test = hypothesis.seed(SEED * 1000003 + zlib.crc32(f.name.encode()) + 7919 * f.shard)(settings(hypothesis.given(strategy)(execute)))
    try:
        with quiet():
            try:
                test()
            except _Enough:
                pass
            except (Exception, _StopShrinking) as error:
                if not failing:
                    result['error'] = ''.join(traceback.format_exception(type(error), error, error.__traceback__))
        if 'harness' in failing and 'case' not in failing:
            result['error'] = failing['harness']
        elif 'case' in failing:
            result['violation'] = {'case': json.loads(failing['case']), 'message': failing['message'], 'trace': failing['trace']}
    finally:
        os.chdir('/')
        shutil.rmtree(SCRATCH, ignore_errors=True)
    result['seconds'] = time.time() - start
    with open(out, 'w') as stream:
        json.dump(result, stream)


def beyond(process, out):
    """What a case takes beyond any measure (the code does not terminate, or takes all memory), if it does."""
    try:
        since = time.time() - os.stat(out + '.current').st_mtime
        if since > CASE_SECONDS:
            return 'the code under test had not finished this case after %d s' % since
        with open('/proc/%d/statm' % process.pid) as stream:
            used = int(stream.read().split()[1]) * os.sysconf('SC_PAGE_SIZE')
        if used > CASE_BYTES:
            return 'the code under test took %d MB on this case' % (used >> 20)
    except (OSError, ValueError, IndexError):
        pass
    return None


def load(prop):
    names = glob.glob(os.path.join(VERIF, 'checks', prop.lower() + '_*.py'))
    if len(names) != 1:
        sys.stderr.write('no check for %s\n' % prop)
        sys.exit(2)
    return importlib.import_module(os.path.basename(names[0])[:-3])


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as stream:
        return [k for k in json.load(stream)['known'] if k['property'] == prop]


def replay(prop, path):
    global SCRATCH
    with open(path) as stream:
        data = json.load(stream)
    f = [g for g in FACETS if g.name == data['facet']][0]
    SCRATCH = tempfile.mkdtemp(prefix='verif.%s.replay.' % prop)
    os.chdir(SCRATCH)
    try:
        with quiet():
            f.function(decode(data['case']))
    except Exception as error:
        traceback.print_exc()
        if blame(error) == 'violation':
            print('%s %s: %s' % (prop, f.name, describe(error)))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        return 2
    finally:
        os.chdir('/')
        shutil.rmtree(SCRATCH, ignore_errors=True)
    print('%s %s: held on this case' % (prop, f.name))
    return 0


def main():
    prop = sys.argv[1]
    start = time.time()
    with quiet():
        module = load(prop)
    # the facets registered themselves with this module under its importable name
    import harness
    FACETS[:] = harness.FACETS
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        sys.exit(harness.replay(prop, os.path.abspath(sys.argv[3])))
    only = os.environ.get('VERIF_FACET')
    facets = [f for f in FACETS if not only or f.name == only]
    evidence = os.path.join(VERIF, 'evidence')
    os.makedirs(evidence, exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif.%s.' % prop)
    shards = []
    for f in facets:
        for n in range(f.shards):
            g = copy.copy(f)
            g.shard = n
            shards.append(g)
    facets = shards
    total_cost = sum(f.cost for f in facets)
    pending, running, results, errors = sorted(facets, key=lambda f: -f.cost), {}, [], []
    rounds = max(1.0, total_cost / CORES)
    hard = 840.0 if TIER != 'thorough' else 3000.0
    while pending or running:
        while pending and len(running) < CORES:
            f = pending.pop(0)
            out = os.path.join(work, '%s.%d' % (f.name, f.shard))
            budget = min(TOTAL, TOTAL * f.cost / rounds) if total_cost > CORES else TOTAL
            process = multiprocessing.get_context('fork').Process(target=harness.run_facet, args=(f, prop, out, budget, budget * MORE_SECONDS / TOTAL if TIER != 'thorough' else 0.0))
            process.start()
            running[(f.name, f.shard)] = (f, process, out)
        for (name, shard), (f, process, out) in list(running.items()):
            process.join(0.02)
            if process.exitcode is None:
                excess = beyond(process, out)
                if excess:
                    with open(out + '.current') as stream:
                        case = json.load(stream)
                    process.kill()
                    process.join()
                    del running[(name, shard)]
                    results.append({'facet': name, 'rule': f.rule, 'evaluations': 1, 'nontrivial': 1, 'samples': [], 'error': None, 'seconds': 0.0,
                                    'violation': {'case': case, 'message': excess, 'trace': ''}})
                    continue
                if time.time() - start > hard:
                    process.kill()
                    process.join()
                    errors.append('%s: no answer within the time limit' % name)
                    del running[(name, shard)]
                continue
            del running[(name, shard)]
            if process.exitcode == 0 and os.path.exists(out):
                with open(out) as stream:
                    results.append(json.load(stream))
            elif process.exitcode < 0 and -process.exitcode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL) and os.path.exists(out + '.current'):
                with open(out + '.current') as stream:
                    case = json.load(stream)
                results.append({'facet': name, 'rule': f.rule, 'evaluations': 1, 'nontrivial': 1, 'samples': [], 'error': None, 'seconds': 0.0,
                                'violation': {'case': case, 'message': 'the code under test crashed the process with signal %d' % -process.exitcode,
                                              'trace': open(out + '.fault').read()[-4000:]}})
            else:
                errors.append('%s: worker ended with %s' % (name, process.exitcode))
    status = 0
    results.sort(key=lambda r: (r['facet'], len(json.dumps(r['violation']))))
    reported = set()
    for r in results:
        if r['error']:
            errors.append('%s: %s' % (r['facet'], r['error']))
        if r['violation'] and r['facet'] not in reported:
            reported.add(r['facet'])
            path = os.path.join(evidence, '%s.%s.replay.json' % (prop, r['facet']))
            with open(path, 'w') as stream:
                json.dump({'property': prop, 'facet': r['facet'], 'case': r['violation']['case'], 'message': r['violation']['message'],
                           'trace': r['violation']['trace'], 'seed': SEED, 'tier': TIER, 'replay_cmd': './check %s --replay %s' % (prop, path)}, stream, indent=1)
            print('%s %s: %s' % (prop, r['facet'], r['violation']['message']))
            print('  minimal case: %s' % json.dumps(r['violation']['case'])[:2000])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            status = 1
    # findings recorded rather than repaired: say so while they still fail
    for finding in known_findings(prop):
        probe = getattr(module, finding['probe'])
        with scratch() as directory, quiet():
            here = os.getcwd()
            os.chdir(directory)
            try:
                fails = probe()
            finally:
                os.chdir(here)
        if fails:
            print('KNOWN-FINDING: property=%s %s' % (prop, finding['what']))
    samples = [s for r in results for s in r['samples']]
    per_facet = {}
    for r in results:
        entry = per_facet.setdefault(r['facet'], {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': r['rule'], 'seconds': 0.0})
        entry['evaluations'] += r['evaluations']
        entry['distinct_nontrivial'] += r['nontrivial']
        entry['seconds'] = round(entry['seconds'] + r['seconds'], 1)
    document = {'property': prop, 'tier': 'thorough' if TIER == 'thorough' else 'quick', 'seed': SEED, 'level': 'exploration',
                'coverage': {'evaluations': sum(r['evaluations'] for r in results),
                             'distinct_nontrivial': sum(r['nontrivial'] for r in results),
                             'rule': (module.__doc__ or '').strip(),
                             'facets': per_facet,
                             'samples': samples[:12]},
                'wall_s': round(time.time() - start, 2)}
    with open(os.path.join(evidence, prop + '.json'), 'w') as stream:
        json.dump(document, stream, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for name in sorted(set(error.split(':')[0] for error in errors)):
        sys.stderr.write('check %s: error of the check: %s\n' % (prop, [e for e in errors if e.startswith(name + ':')][0][-2000:]))
    if status == 0 and errors:
        status = 2
    if status == 0:
        print('%s: held on %d cases (%d distinct and non-trivial), %.1f s' % (prop, document['coverage']['evaluations'], document['coverage']['distinct_nontrivial'], document['wall_s']))
    sys.exit(status)


if __name__ == '__main__':
    main()
