"""Cases: step sequences (daily, monthly, annual, single; starts and ends around month ends, leap days and year ends, with
times of day), catalogues whose entries have times in any order, several per step, with gaps, outside the range, fixed
or annual files, one to three inputs with their own missing-data policies, outputs, and annual batches of days. Oracle:
calendar arithmetic on the times listed in the catalogue. A case is non-trivial when there are two steps or more or a
file is missing."""

import calendar
import datetime

from hypothesis import strategies as st
from harness import facet, require, Violation

from eumopps.catalogue import placeholder
from eumopps.catalogue.catalogue import Catalogue
from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset, CatalogueFileEntry
from eumopps.catalogue.operation import Operation
from eumopps.catalogue.step import StepDaily, StepOnce
from eumopps.catalogue.storage import DataStorageFiles
from eumopps.version.svn import set_allow_unversioned_code
from eustace.analysis.advanced_standard.examples import placeholder as analysis_placeholder
from eustace.analysis.advanced_standard.examples.step import StepAnnual, StepMonthly
from eustace.analysis.advanced_standard.examples.stepmidmonth import StepMidMonth

DAY = datetime.timedelta(days=1)
EPOCH = datetime.datetime(1850, 1, 1)


@st.composite
def near(draw, low=1852, high=2100):
    """A day near a month end."""
    y = draw(st.one_of(st.integers(low, high), st.sampled_from([1900, 1904, 2000, 1999, 2001])))
    m = draw(st.one_of(st.integers(1, 12), st.sampled_from([1, 2, 3, 12])))
    return datetime.datetime(y, m, 1) + DAY * draw(st.integers(-3, 3))


clock = st.one_of(st.just(0), st.just(0), st.just(43200), st.integers(0, 86399), st.just(86399))


@st.composite
def sequences(draw):
    kind = draw(st.sampled_from(['daily', 'daily', 'daily', 'monthly', 'annual']))
    start = draw(near())
    if draw(st.booleans()):
        start += datetime.timedelta(seconds=draw(clock))
    length = {'daily': st.integers(0, 40), 'monthly': st.integers(0, 500), 'annual': st.integers(0, 1500)}[kind]
    end = start + DAY * draw(length)
    if draw(st.booleans()):
        end += datetime.timedelta(seconds=draw(clock))
    if draw(st.integers(0, 4)) == 0 and kind != 'daily':
        end = datetime.datetime(end.year, 12, 31, 23, 59, draw(st.sampled_from([0, 30, 58, 59])))
    return {'kind': kind, 'start': start, 'end': end}


def make_step(s, text=False):
    cls = {'daily': StepDaily, 'monthly': StepMonthly, 'annual': StepAnnual}[s['kind']]
    if text:
        return cls(s['start'].strftime('%Y%m%d%H%M%S'), s['end'].strftime('%Y%m%d%H%M%S'))
    return cls(s['start'], s['end'])


def index_of(s, t):
    """The step a time belongs to."""
    if s['kind'] == 'daily':
        return (t - s['start']) // DAY
    if s['kind'] == 'monthly':
        return (t.year - s['start'].year) * 12 + t.month - s['start'].month
    return t.year - s['start'].year


def start_of(s, i):
    if s['kind'] == 'daily':
        return s['start'] + DAY * i
    if s['kind'] == 'monthly':
        k = s['start'].year * 12 + s['start'].month - 1 + i
        return datetime.datetime(k // 12, k % 12 + 1, 1)
    return datetime.datetime(s['start'].year + i, 1, 1)


def count_of(s):
    return index_of(s, s['end']) + 1


NEEDED = {'daily': ('%Y', '%m', '%d'), 'monthly': ('%Y', '%m'), 'annual': ('%Y',)}
pattern_lists = st.sampled_from([['%Y/', 'f_%Y%m%d.nc'], ['f_%Y%m%d%H%M%S.nc'], ['f_%Y%m.nc'], ['%Y/%m/', 'f_%d.nc'], ['%Y/', 'f_%Y.nc'], ['fixed.nc'], ['a/', 'b_%d_%m_%Y.x'], ['%m/f_%Y'], ['x%Y%m%dT%H.nc']])


def filled(patterns, t):
    out = ''
    for k, p in enumerate(patterns):
        for key, value in (('%Y', '%04d' % t.year), ('%m', '%02d' % t.month), ('%d', '%02d' % t.day), ('%H', '%02d' % t.hour), ('%M', '%02d' % t.minute), ('%S', '%02d' % t.second)):
            p = p.replace(key, value)
        if k and not out.endswith('/'):
            out += '/'
        out += p
    return out


def unique(s, patterns):
    return all(f in ''.join(patterns) for f in NEEDED[s['kind']])


@facet(st.tuples(sequences(), st.lists(st.integers(-40 * 86400, 40 * 86400), max_size=6), st.booleans(), pattern_lists), quick=800, thorough=25000)
def steps(case):
    """step numbers and step times determine each other; outputs of a step are named after its time"""
    s, offsets, text, patterns = case
    step = make_step(s, text)
    count = step.count()
    require(count == count_of(s), '%s steps from %s to %s: %d, expected %d', s['kind'], s['start'], s['end'], count, count_of(s))
    names = {}
    for i in range(count):
        t = step.time_at_index(i)
        require(t == start_of(s, i), 'step %d from %s is at %s', i, s['start'], t)
        require(step.index_at_time(t) == i, 'step %d is at %s but that time has step %d', i, t, step.index_at_time(t))
        entry = step.create_output_entry(patterns, i)
        require(entry.name == filled(patterns, t) and entry.time == t, 'output of step at %s is %r at %s', t, entry.name, entry.time)
        names.setdefault(entry.name, []).append(i)
    require(step.is_uniquely_defined_by(patterns) == unique(s, patterns), '%r defines a %s step: %s', patterns, s['kind'], step.is_uniquely_defined_by(patterns))
    if unique(s, patterns):
        require(all(len(v) == 1 for v in names.values()), 'several steps write the same file: %r', [v for v in names.values() if len(v) > 1][:3])
    for o in offsets:
        for base in (s['start'], s['end']):
            t = base + datetime.timedelta(seconds=o)
            require(step.index_at_time(t) == index_of(s, t), 'time %s belongs to %s step %d of those from %s, not %d', t, s['kind'], index_of(s, t), s['start'], step.index_at_time(t))
    return count > 1


@facet(st.tuples(st.integers(1800, 2100), st.integers(0, 700)), quick=300, thorough=5000)
def mid_months(case):
    """monthly steps at mid month: the middle of that month, named after it"""
    year, index = case
    step = StepMidMonth('%d0101000000' % year, index + 1)
    t = step.time_at_index(index)
    y, m = year + index // 12, index % 12 + 1
    expected = datetime.datetime(y, m, 1) + datetime.timedelta(days=calendar.monthrange(y, m)[1]) / 2
    require(t == expected, 'middle of month %d since %d is %s, expected %s', index, year, t, expected)
    entry = step.create_output_entry(['%Y/', 'x_%Y%m.nc'], index)
    require(entry.time == t and entry.name == '%04d/x_%04d%02d.nc' % (y, y, m), 'output of month %d is %r at %s', index, entry.name, entry.time)
    require(step.operation_indices_for_input_entry(entry) == [index], 'input at %s used for %r', t, step.operation_indices_for_input_entry(entry))
    require(list(step.operation_indices_for_input_entry(CatalogueFileEntry('f'))) == list(range(index + 1)), 'fixed input not used at every step')
    return index > 0


@st.composite
def resolutions(draw):
    s = draw(sequences())
    if s['kind'] == 'daily':
        s['end'] = min(s['end'], s['start'] + 12 * DAY)
    n = count_of(s)
    inputs = []
    for _ in range(draw(st.integers(1, 3))):
        patterns = draw(pattern_lists)
        times = set()
        several = draw(st.integers(0, 3)) == 0
        for i in range(-1, n + 1):
            if draw(st.integers(0, 9)) == 0 and not several:
                continue
            t0, t1 = start_of(s, i), start_of(s, i + 1)
            for _ in range(draw(st.integers(0, 3)) if several else 1):
                times.add(t0 + datetime.timedelta(seconds=draw(st.integers(0, int((t1 - t0).total_seconds()) - 1))))
        byname = {}
        for t in sorted(times):
            byname.setdefault(filled(patterns, t), t)
        entries = draw(st.permutations(sorted(byname.items())))
        if draw(st.integers(0, 9)) == 0:
            entries = []
        inputs.append({'patterns': patterns, 'entries': [list(e) for e in entries], 'subset': draw(st.integers(0, 1)), 'policy': draw(st.sampled_from(['not_allowed', 'allowed', 'skip', 'skip'])), 'list': draw(st.booleans())})
    return {'sequence': s, 'inputs': inputs, 'output': draw(pattern_lists), 'extra_before': draw(st.integers(0, 2)),
            'outsubset': draw(st.integers(0, 2)), 'next': draw(sequences())['kind'], 'shift': draw(st.integers(-3, 3))}


def expected_entries(s, patterns, entries):
    """For each step the indices of its files."""
    n = count_of(s)
    if unique(s, patterns):
        return [[k for k, (name, t) in enumerate(entries) if index_of(s, t) == i] for i in range(n)]
    return [[k for k, (name, t) in enumerate(entries) if name == filled(patterns, start_of(s, i))] for i in range(n)]


def run_resolution(s, inputs, output, extra, kinds, outsubset=0):
    """Build the catalogue and resolve; returns (operation or exception, catalogue)."""
    set_allow_unversioned_code(True)
    datasets = [CatalogueDataSet('unrelated%d' % k, '/u', subsets=[CatalogueDataSubset(DataStorageFiles(['u_%Y%m%d']), [])]) for k in range(extra)]
    runmodule = {'python_function': 'eumopps.catalogue.test.examplemodule.run', 'fixed': 5, 'when': placeholder.StepTime(), 'number': placeholder.StepIndex(),
                 'out': [{'file': placeholder.OutputFile('result', outsubset)}]}
    for k, i in enumerate(inputs):
        subset = CatalogueDataSubset(DataStorageFiles(i['patterns']), [CatalogueFileEntry(name, t, [], None, None) for name, t in i['entries']])
        other = CatalogueDataSubset(DataStorageFiles(['o_%Y%m%d']), [CatalogueFileEntry('o', datetime.datetime(2000, 1, 1))])
        datasets.append(CatalogueDataSet('in%d' % k, '/d%d' % k, subsets=[subset, other] if i['subset'] == 0 else [other, subset]))
        runmodule['in%d' % k] = kinds(i)('in%d' % k, i['subset'], i['policy'])
    catalogue = Catalogue(datasets)
    operation = Operation(runmodule, make_step(s), 'op', newdatasets=[CatalogueDataSet('result', subsets=[CatalogueDataSubset(DataStorageFiles(['unwritten_%d' % k] if k != outsubset else output)) for k in range(3)])])
    try:
        operation.resolve_operation_references(catalogue, '/out')
    except ValueError as error:
        return error, catalogue
    return operation, catalogue


@facet(resolutions(), quick=800, thorough=20000, shards=3)
def inputs_and_outputs(case):
    """each step gets exactly the files of its time, missing ones by the stated policy, and its own output"""
    s, inputs = case['sequence'], case['inputs']
    n = count_of(s)
    result, catalogue = run_resolution(s, inputs, case['output'], case['extra_before'], lambda i: placeholder.InputFileList if i['list'] else placeholder.InputFile, case['outsubset'])
    wanted = [expected_entries(s, i['patterns'], i['entries']) for i in inputs]
    refuse = any(i['policy'] == 'not_allowed' and not all(w) for i, w in zip(inputs, wanted)) or any(not i['list'] and any(len(x) > 1 for x in w) for i, w in zip(inputs, wanted))
    if refuse:
        require(isinstance(result, ValueError), 'a missing (or second) file was accepted although not allowed')
        return True
    if isinstance(result, ValueError):
        raise Violation('refused although every rule was met: %s' % result)
    keep = [i for i in range(n) if all(w[i] or inp['policy'] != 'skip' for inp, w in zip(inputs, wanted))]
    require(result.count == len(keep), '%d operations, expected %d', result.count, len(keep))
    for k, (i, w) in enumerate(zip(inputs, wanted)):
        d = case['extra_before'] + k
        found = [list(map(int, x)) for x in result.runmodule['in%d' % k].operation_parameters]
        expected = [sum([[d, i['subset'], e] for e in (w[j] or [-1])], []) for j in keep]
        require(found == expected, 'input %d (%r, %s): references %r, expected %r', k, i['patterns'], i['policy'], found[:8], expected[:8])
    require(list(result.runmodule['when'].operation_parameters) == [start_of(s, j) for j in keep], 'step times %r', result.runmodule['when'].operation_parameters[:8])
    require([int(x) for x in result.runmodule['number'].operation_parameters] == keep, 'step numbers %r, expected %r', result.runmodule['number'].operation_parameters[:8], keep[:8])
    require(result.runmodule['fixed'] == 5, 'a constant parameter became %r', result.runmodule['fixed'])
    # outputs
    d = case['extra_before'] + len(inputs)
    require([x.name for x in catalogue.datasets][d:] == ['result'] and catalogue.datasets[d].path == '/out', 'output data set is missing')
    matches = catalogue.datasets[d].subsets[case['outsubset']].matches
    require(all(not x.matches for k, x in enumerate(catalogue.datasets[d].subsets) if k != case['outsubset']), 'outputs are listed in another subset')
    names = [m.name for m in matches]
    require(len(set(names)) == len(names), 'an output is listed twice: %r', names[:8])
    refs = [list(map(int, x)) for x in result.runmodule['out'][0]['file'].operation_parameters]
    require([x[:2] for x in refs] == [[d, case['outsubset']]] * len(keep), 'output references %r', refs[:8])
    require([names[x[2]] for x in refs] == [filled(case['output'], start_of(s, j)) for j in keep], 'outputs %r', [names[x[2]] for x in refs][:8])
    require(sorted(set(x[2] for x in refs)) == list(range(len(names))), 'outputs that no step writes are listed')
    if unique(s, case['output']):
        require(len(names) == len(keep), 'two steps write the same file')
        require([matches[x[2]].time for x in refs] == [start_of(s, j) for j in keep], 'output times are wrong')
        # a later operation with steps of its own uses these outputs
        after = {'kind': case['next'], 'start': s['start'] + DAY * case['shift'], 'end': max(s['start'] + DAY * case['shift'], s['end'])}
        later = Operation({'python_function': 'eumopps.catalogue.test.examplemodule.run', 'files': placeholder.InputFileList('result', case['outsubset'], 'allowed')}, make_step(after), 'later')
        later.resolve_operation_references(catalogue)
        found = [list(map(int, x)) for x in later.runmodule['files'].operation_parameters]
        groups = expected_entries(after, case['output'], [(m.name, m.time) for m in matches])
        require(found == [sum([[d, case['outsubset'], e] for e in (g or [-1])], []) for g in groups], 'outputs %r used by %s steps from %s: %r', names[:4], after['kind'], after['start'], found[:4])
    return n > 1


@st.composite
def once(draw):
    return {'entries': draw(st.lists(st.integers(0, 400), max_size=4, unique=True)), 'policy': draw(st.sampled_from(['not_allowed', 'allowed', 'skip'])), 'fixed': draw(st.booleans())}


@facet(once(), quick=200, thorough=4000)
def single_step(case):
    """an operation done once gets all files of its inputs"""
    set_allow_unversioned_code(True)
    entries = [CatalogueFileEntry('f%d' % k, datetime.datetime(2000, 1, 1) + DAY * k) for k in case['entries']]
    catalogue = Catalogue([CatalogueDataSet('in', '/p', subsets=[CatalogueDataSubset(DataStorageFiles(['f_%Y%m%d']), entries)])])
    operation = Operation({'python_function': 'eumopps.catalogue.test.examplemodule.run', 'a': placeholder.InputFileList('in', 0, case['policy']), 'o': placeholder.OutputFile('result')},
                          StepOnce(), 'op', newdatasets=[CatalogueDataSet('result', '/own', subsets=[CatalogueDataSubset(DataStorageFiles(['x/', 'y.nc']))])])
    refused = False
    try:
        operation.resolve_operation_references(catalogue)
    except ValueError:
        refused = True
    require(refused == (not entries and case['policy'] == 'not_allowed'), 'refused: %s with %d files and policy %s', refused, len(entries), case['policy'])
    if refused:
        return True
    skipped = not entries and case['policy'] == 'skip'
    require(operation.count == (0 if skipped else 1), '%d operations', operation.count)
    if not skipped:
        found = list(map(int, operation.runmodule['a'].operation_parameters[0]))
        require(found == sum([[0, 0, k] for k in (range(len(entries)) or [-1])], []), 'references %r', found)
        require([m.name for m in catalogue.datasets[1].subsets[0].matches] == ['x/y.nc'] and catalogue.datasets[1].path == '/own', 'output is %r', [m.name for m in catalogue.datasets[1].subsets[0].matches])
    return True


# ---------------------------------------------------------------- annual batches of days

def day_number(t):
    return (t - EPOCH) // DAY


@st.composite
def batches(draw):
    start = draw(near(1851, 2090)) + datetime.timedelta(seconds=draw(clock) if draw(st.booleans()) else 0)
    end = start + DAY * draw(st.one_of(st.integers(0, 5), st.integers(0, 800)))
    if draw(st.booleans()):
        end = end.replace(hour=0, minute=0, second=0) + datetime.timedelta(seconds=draw(clock))
        end = max(start, end)
    patterns = draw(st.sampled_from([['%Y/', 'f_%Y%m%d.nc'], ['f_%Y%m%d%H.nc'], ['fixed.nc'], ['d/', 'fixed.nc']]))
    if '%d' not in ''.join(patterns):
        # see known_fixed_file_first_day below
        start = start.replace(hour=0, minute=0, second=0)
        end = max(start, end)
    gaps = draw(st.sets(st.integers(0, 810), max_size=6))
    whole = draw(st.sets(st.integers(0, 3), max_size=2))
    return {'start': start, 'end': end, 'patterns': patterns, 'gaps': gaps, 'years_missing': whole, 'before': draw(st.integers(0, 3)), 'after': draw(st.integers(0, 3)),
            'hour': draw(st.integers(0, 23)), 'policy': draw(st.sampled_from(['not_allowed', 'allowed', 'skip'])), 'shuffle': draw(st.integers(0, 5)), 'present': draw(st.booleans())}


@facet(batches(), quick=400, thorough=10000, shards=2)
def annual_batches(case):
    """annual batches list every day of the period once, in order, with that day's file, number, time and output"""
    import random
    set_allow_unversioned_code(True)
    start, end, patterns = case['start'], case['end'], case['patterns']
    first, last = day_number(start), day_number(end)
    years = list(range(start.year, end.year + 1))
    days = [[d for d in range(first, last + 1) if (EPOCH + DAY * d).year == y] for y in years]
    dated = '%d' in ''.join(patterns)
    entries = []
    if dated:
        for d in range(first - case['before'], last + 1 + case['after']):
            t = EPOCH + DAY * d + datetime.timedelta(hours=case['hour'])
            if d - first in case['gaps'] or t.year - start.year in case['years_missing']:
                continue
            entries.append((filled(patterns, t), t))
        random.Random(case['shuffle']).shuffle(entries)
    elif case['present']:
        entries = [(filled(patterns, start), None)]
    catalogue = Catalogue([CatalogueDataSet('in', '/p', subsets=[CatalogueDataSubset(DataStorageFiles(patterns), [CatalogueFileEntry(n, t) for n, t in entries])])])
    p = analysis_placeholder
    operation = Operation({'python_function': 'eumopps.catalogue.test.examplemodule.run', 'files': p.AnnualBatchDays('in', 0, case['policy']), 'numbers': p.AnalysisAnnualBatchDayIndices(),
                           'times': p.AnalysisAnnualBatchDayTimes(), 'out': p.AnnualBatchDaysOutput('result')}, StepAnnual(start, end), 'op',
                          newdatasets=[CatalogueDataSet('result', '/o', subsets=[CatalogueDataSubset(DataStorageFiles(['%Y/', 'o_%Y%m%d.nc']))])])
    refused = False
    try:
        operation.resolve_operation_references(catalogue)
    except (ValueError, NameError):    # its own exception is not imported in the module of examples
        refused = True
    if dated:
        of_day = {day_number(t): k for k, (n, t) in enumerate(entries)}
        nothing = [i for i, y in enumerate(years) if not any(t.year == y for n, t in entries)]
        wanted = [[of_day.get(d, -1) for d in ds] for ds in days]
    else:
        nothing = [] if entries else list(range(len(years)))
        wanted = [[0 if entries else -1 for d in ds] for ds in days]
    require(refused == (bool(nothing) and case['policy'] == 'not_allowed'), 'refused: %s with policy %s and years without files %r', refused, case['policy'], nothing)
    if refused:
        return True
    keep = [i for i in range(len(years)) if not (case['policy'] == 'skip' and i in nothing)]
    require(operation.count == len(keep), '%d operations for %d years', operation.count, len(keep))
    for name, expected in (('numbers', [days[i] for i in keep]), ('times', [[EPOCH + DAY * d for d in days[i]] for i in keep])):
        found = [list(x) for x in operation.runmodule[name].operation_parameters]
        require(found == expected, 'days of years from %s to %s: %s begin %r with %r entries, expected %r with %r', start, end, name, [f[:2] for f in found], [len(f) for f in found], [f[:2] for f in expected], [len(f) for f in expected])
    found = [[int(x) for x in f] for f in operation.runmodule['files'].operation_parameters]
    expected = [sum([[0, 0, e] for e in wanted[i]], []) for i in keep]
    require(found == expected, 'files of days from %s to %s: %r entries per year, expected %r; first %r, expected %r', start, end, [len(f) // 3 for f in found], [len(f) // 3 for f in expected], found and found[0][:9], expected and expected[0][:9])
    outputs = [m.name for m in catalogue.datasets[1].subsets[0].matches]
    refs = [[int(x) for x in f] for f in operation.runmodule['out'].operation_parameters]
    named = [[outputs[r[k + 2]] for k in range(0, len(r), 3)] for r in refs]
    require(named == [[filled(['%Y/', 'o_%Y%m%d.nc'], EPOCH + DAY * d) for d in days[i]] for i in keep], 'outputs of days from %s to %s begin %r', start, end, named and named[0][:2])
    return True


@facet(st.tuples(near(1851), st.integers(0, 900), clock), quick=200, thorough=4000)
def daily_indices(case):
    """daily steps are numbered by days since the epoch of the analysis"""
    start, length, seconds = case
    start += datetime.timedelta(seconds=seconds)
    step = StepDaily(start, start + DAY * length)
    found = [int(x) for x in analysis_placeholder.AnalysisStepIndex().operation_input_resolve(None, None, step).operation_parameters]
    require(found == [day_number(start) + k for k in range(length + 1)], 'day numbers from %s for %d days are %r (%d)', start, length + 1, found[:3], len(found))
    return length > 0


@facet(st.tuples(st.sampled_from(['dataset', 'subset', 'again', 'path']), st.sampled_from(['file', 'list', 'annual', 'out', 'annualout'])), quick=30, thorough=60)
def refusals(case):
    """references to data sets that do not exist, or outputs defined twice, are refused"""
    set_allow_unversioned_code(True)
    what, kind = case
    p = analysis_placeholder
    make = {'file': placeholder.InputFile, 'list': placeholder.InputFileList, 'annual': p.AnnualBatchDays, 'out': placeholder.OutputFile, 'annualout': p.AnnualBatchDaysOutput}[kind]
    entries = [CatalogueFileEntry('f_20000101', datetime.datetime(2000, 1, 1))]
    catalogue = Catalogue([CatalogueDataSet('d', '/p', subsets=[CatalogueDataSubset(DataStorageFiles(['f_%Y%m%d']), entries)])])
    name, subset = ('none', 0) if what == 'dataset' else ('d', 3 if what == 'subset' else 0)
    newdatasets = [CatalogueDataSet('n', None, subsets=[CatalogueDataSubset(DataStorageFiles(['x']))])] if what == 'path' else None
    step = StepAnnual(datetime.datetime(2000, 1, 1), datetime.datetime(2000, 1, 1)) if kind.startswith('annual') else StepDaily(datetime.datetime(2000, 1, 1), datetime.datetime(2000, 1, 1))
    operation = Operation({'python_function': 'eumopps.catalogue.test.examplemodule.run', 'a': make(name, subset)}, step, 'op', newdatasets=newdatasets)
    refused = False
    try:
        operation.resolve_operation_references(catalogue)
    except (ValueError, NameError):    # its own exception is not imported in the module of examples
        refused = True
    expected = what != 'again' or kind in ('out', 'annualout')
    require(refused == expected, 'reference of kind %s with wrong %s: refused is %s', kind, what, refused)
    return True


def known_fixed_file_first_day():
    """Probe of a known finding: true while it fails."""
    set_allow_unversioned_code(True)
    catalogue = Catalogue([CatalogueDataSet('in', '/p', subsets=[CatalogueDataSubset(DataStorageFiles(['fixed.nc']), [CatalogueFileEntry('fixed.nc', None)])])])
    operation = Operation({'python_function': 'eumopps.catalogue.test.examplemodule.run', 'files': analysis_placeholder.AnnualBatchDays('in', 0, 'allowed')},
                          StepAnnual(datetime.datetime(2000, 1, 1, 12), datetime.datetime(2000, 1, 3, 12)), 'op')
    operation.resolve_operation_references(catalogue)
    return [int(x) for x in operation.runmodule['files'].operation_parameters[0]] != [0, 0, 0] * 3
