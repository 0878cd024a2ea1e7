"""Cases: stores of raw binary files (fixed and mobile locations; 0 to 25 observations a day; 0 to 3 correlation ranges; days and
whole sources without files, damaged files) counted and inspected by the tools and their command lines, over periods within, around
and beyond the days stored; location pointers and correlation ranges prepared from them; and descriptions of the inputs of 1 to 12
days in any order, merged and read back. Oracle: what was put into the files. A case is non-trivial when it has an observation, or
more than one day of descriptions."""

import collections
import contextlib
import datetime
import inspect
import io
import json
import math
import os
import sys
import uuid

import numpy
from hypothesis import strategies as st
from harness import facet, require, scratch, raises
from support import python2_binary_files

from eustace.analysis import inspectinput, obscount, obscountsources, preparecorrelationranges, preparedailyfixed, preparedailymobile, preparelocationpointers
from eustace.analysis.advanced_standard.fileio import optimization_inputs
from eustace.analysis.fileio import observationsource_rawbinary as raw
from eustace.analysis.fileio.locationpointers import LocationPointersRawBinaryReader
from eustace.analysis.observationsource import Observations

python2_binary_files()

EPOCH = datetime.datetime(1850, 1, 1)
SOURCES = ['surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice', 'surfaceairmodel_lake', 'insitu_land', 'insitu_ocean']
OBSERVABLES = ['Tmin', 'Tmax', 'Tmean']
values = st.one_of(st.floats(150, 350), st.floats(-1e6, 1e6), st.sampled_from([0.0, -0.0, 1e-300]))


@st.composite
def stores(draw):
    source = draw(st.integers(0, 5))
    ranges = draw(st.lists(st.floats(0.001, 5000.0), max_size=3))
    place = st.tuples(st.floats(-90, 90), st.floats(-180, 360)).map(list)
    locations = draw(st.lists(place, min_size=1, max_size=6))
    days = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 3)) == 0:
            days.append(None)
            continue
        here = locations if source != 5 else draw(st.lists(place, min_size=1, max_size=4))
        n = draw(st.sampled_from([0, 1, 2, 3, 7, 25]))
        days.append({'locations': here, 'rows': [[draw(st.integers(0, len(here) - 1)), draw(values), draw(values), [draw(values) for r in ranges]] for _ in range(n)]})
    return {'source': source, 'observable': draw(st.integers(0, 2)), 'ranges': ranges, 'locations': locations, 'days': days, 'ids': draw(st.lists(st.integers(1, 2 ** 64), min_size=8, max_size=8, unique=True)),
            'start': draw(st.one_of(st.integers(1, 60000), st.sampled_from([363, 364, 365, 18261, 54786, 54850]))), 'before': draw(st.integers(-2, 3)), 'after': draw(st.integers(-2, 3)), 'text': draw(st.booleans())}


def date(number):
    return EPOCH + datetime.timedelta(days=number)


class Store(object):
    """Writes a store without the file name generator."""

    def __init__(self, case, root):
        self.source, self.observable, self.root = SOURCES[case['source']], OBSERVABLES[case['observable']], root
        self.case = case
        self.uuid = uuid.UUID(int=case['ids'][0])
        self.ranges_name = os.path.join(root, '%s_%s_localcorrelationranges.bin' % (self.source, self.observable))
        raw.LocalCorrelationRangeRawBinaryWriter().write(self.ranges_name, case['ranges'])
        self.lookup_name = os.path.join(root, 'locationlookup_insitu_land.bin' if self.source == 'insitu_land' else 'locationlookup_satellite.bin')
        if case['source'] != 5:
            raw.LocationLookupRawBinaryWriter().write(self.lookup_name, raw.LocationLookupWithID(self.uuid, self.table(case['locations'])))
        for k, day in enumerate(case['days']):
            if day is None:
                continue
            u = self.uuid
            if case['source'] == 5:
                u = uuid.UUID(int=case['ids'][1 + k])
                raw.LocationLookupRawBinaryWriter().write(self.name(k, '_mobilelocations'), raw.LocationLookupWithID(u, self.table(day['locations'])))
            n = len(day['rows'])
            column = lambda j: numpy.array([r[j] for r in day['rows']], numpy.float64)
            raw.ObservationRawBinaryWriter().write_day(self.name(k), u, Observations(numpy.zeros(n, bool), numpy.array([float(case['start'] + k)] * n), numpy.array([r[0] for r in day['rows']], numpy.uint64), column(1), column(2),
                                                       [numpy.array([r[3][c] for r in day['rows']], numpy.float64) for c in range(len(case['ranges']))]), case['start'] + k)

    @staticmethod
    def table(locations):
        return numpy.array(locations, numpy.float64).reshape(-1, 2).T

    def name(self, k, extra=''):
        t = date(self.case['start'] + k)
        return os.path.join(self.root, self.source, '%04d' % t.year, '%s_%s%s_%04d%02d%02d.bin' % (self.source, self.observable, extra, t.year, t.month, t.day))


def command(module, *arguments):
    """Printed by the command line tool, or None when it fails."""
    out, before = io.StringIO(), sys.argv
    sys.argv = ['tool'] + list(arguments)
    try:
        with contextlib.redirect_stdout(out):
            module.main()
    finally:
        sys.argv = before
    return json.loads(out.getvalue())


def expected_counts(case):
    """(first day, last day, counts)"""
    first, last = case['start'] - case['before'], case['start'] + len(case['days']) - 1 + case['after']
    first = max(first, 0)
    last = max(first, last)
    there = {case['start'] + k: len(day['rows']) for k, day in enumerate(case['days']) if day is not None}
    return first, last, [there.get(d) for d in range(first, last + 1)]


def check_summary(found, counts, what):
    present = [c for c in counts if c is not None]
    require(found['number_of_days'] == len(counts), '%s: %s days, expected %d', what, found['number_of_days'], len(counts))
    require(found['missing_days'] == len(counts) - len(present), '%s: %s missing days, expected %d', what, found['missing_days'], len(counts) - len(present))
    require(found['total_observations'] == sum(present), '%s: %s observations, expected %d', what, found['total_observations'], sum(present))
    mean = found['mean_observations_per_day']
    require(mean is None if not present else abs(mean - sum(present) / float(len(present))) < 1e-9, '%s: mean %s of %s', what, mean, counts)


@facet(stores(), quick=300, thorough=8000, shards=2)
def counts(case):
    """non-trivial when a day counted has observations"""
    with scratch() as root:
        s = Store(case, root)
        first, last, wanted = expected_counts(case)
        a, b = date(first), date(last)
        if case['text']:
            a, b = a.strftime('%Y%m%d'), b.strftime('%Y%m%d')
        counter = obscount.ObsCounter(root, s.source, s.observable, a, b)
        found = counter.count_all_days()
        require(list(found) == wanted, 'counts %s, expected %s', found, wanted)
        check_summary(counter.summary_statistics().__dict__, wanted, 'summary')
        check_summary(command(obscount, '--path', root, '--source', s.source, '--observable', s.observable, '--startdate', date(first).strftime('%Y%m%d'), '--enddate', date(last).strftime('%Y%m%d')), wanted, 'command')
        return any(wanted)


@st.composite
def several(draw):
    found = draw(st.lists(stores(), min_size=1, max_size=3, unique_by=lambda c: c['source']))
    return {'stores': found, 'damage': draw(st.integers(0, 3)), 'order': draw(st.integers(0, 1)), 'pick': draw(st.integers(0, 1000))}


@facet(several(), quick=120, thorough=3000, shards=2)
def counts_of_sources(case):
    """several sources and observables, some of which cannot be read: non-trivial when one can and has observations"""
    with scratch() as root:
        details, wanted = [], {}
        for c in case['stores']:
            s = Store(c, root)
            first, last, numbers = expected_counts(c)
            observables = [s.observable, [o for o in OBSERVABLES if o != s.observable][0]][::1 if case['order'] else -1]
            details.append({'source': s.source, 'observables': observables, 'startdate': date(first).strftime('%Y%m%d'), 'enddate': date(last).strftime('%Y%m%d')})
            wanted[s.source] = {s.observable: numbers, observables[0 if observables[1] == s.observable else 1]: None}
        # damage the header of one file: its source cannot be counted, the others can
        c = case['stores'][case['pick'] % len(case['stores'])]
        s = SOURCES[c['source']]
        there = [k for k, d in enumerate(c['days']) if d is not None]
        if case['damage'] and there:
            k = there[case['pick'] % len(there)]
            store = [x for x in case['stores'] if x is c][0]
            first, last, _ = expected_counts(store)
            if first <= store['start'] + k <= last:
                t = date(store['start'] + k)
                name = os.path.join(root, s, '%04d' % t.year, '%s_%s_%04d%02d%02d.bin' % (s, OBSERVABLES[c['observable']], t.year, t.month, t.day))
                with open(name, 'r+b') as stream:
                    stream.write(b'SOMETHINGELSE')
                wanted[s][OBSERVABLES[c['observable']]] = None
        with open(os.path.join(root, 'list.json'), 'w') as stream:
            json.dump(details, stream)
        found = command(obscountsources, '--datapath', root, '--sourcelist', os.path.join(root, 'list.json'))
        require(sorted(found) == sorted(wanted), 'sources %s, expected %s', sorted(found), sorted(wanted))
        some = False
        for source, parts in wanted.items():
            require(sorted(found[source]) == sorted(parts), '%s: observables %s, expected %s', source, sorted(found[source]), sorted(parts))
            for observable, numbers in parts.items():
                here = found[source][observable]
                if numbers is None:
                    require(set(here) == {'error'}, '%s %s: %s, expected an error', source, observable, here)
                else:
                    require('error' not in here, '%s %s: %s', source, observable, here)
                    check_summary(here, numbers, source)
                    some = some or any(numbers)
        return some


@facet(stores(), quick=300, thorough=8000, shards=2)
def inspection(case):
    """every observation of the day with its own place: non-trivial when there is one"""
    with scratch() as root:
        s = Store(case, root)
        some = False
        for k, day in enumerate(case['days']):
            arguments = ['--path', root, '--source', s.source, '--observable', s.observable, '--date', date(case['start'] + k).strftime('%Y%m%d')]
            if day is None:
                require(raises(Exception, command, inspectinput, *arguments), 'a day without file is inspected')
                continue
            found = command(inspectinput, *arguments)
            require(len(found) == len(day['rows']), '%d observations, expected %d', len(found), len(day['rows']))
            for f, r in zip(found, day['rows']):
                wanted = {'m': r[1], 'u': r[2], 'c': r[3], 'lat': day['locations'][r[0]][0], 'lon': day['locations'][r[0]][1]}
                require(f == wanted, 'inspected %s, expected %s', f, wanted)
            some = some or bool(found)
        return some


@facet(st.tuples(stores(), st.permutations(list(range(6)))), quick=200, thorough=5000, shards=2)
def pointers(case):
    """pointers prepared for daily files in any order: non-trivial when there is an observation"""
    case, order = case
    case = dict(case, source=case['source'] % 5)
    with scratch() as root:
        for day in case['days']:
            if day is not None:
                day['locations'] = case['locations']
                for r in day['rows']:
                    r[0] = r[0] % len(case['locations'])
        s = Store(case, root)
        order = [k for k in order if k < len(case['days']) and case['days'][k] is not None]
        name = os.path.join(root, 'pointers.bin')
        with contextlib.redirect_stdout(io.StringIO()):
            preparelocationpointers.run(name, s.lookup_name, s.ranges_name, [s.name(k) for k in order])
        for i in range(len(case['locations'])):
            records = LocationPointersRawBinaryReader().read_pointer_records(name, s.uuid, i)
            wanted = [(case['start'] + k, r) for k in order for r in case['days'][k]['rows'] if r[0] == i]
            found = []
            for record in records:
                with open(s.name(int(record['daynumber']) - case['start']), 'rb') as stream:
                    stream.seek(int(record['fileoffset']) - 8)
                    found.append((int(record['daynumber']), stream.read(8 * (3 + len(case['ranges'])))))
            expected = [(d, numpy.uint64(i).tobytes() + numpy.array([r[1], r[2]] + r[3], numpy.float64).tobytes()) for d, r in wanted]
            require(sorted(found) == sorted(expected), 'location %d points to days %s, expected %s', i, [f[0] for f in found], [d for d, r in wanted])
        for wrong in (s.name(0)[:-4] + '.nc', s.name(0)[:-12] + '20010229.bin'):
            require(raises(ValueError, preparelocationpointers.extractdaynumber, wrong), 'day number of %s', wrong)
        for k in range(6):
            require(int(preparelocationpointers.extractdaynumber(s.name(k))) == case['start'] + k, 'day number of %s', s.name(k))
        return any(case['days'][k]['rows'] for k in order)


@facet(st.tuples(st.sampled_from(SOURCES), st.sampled_from(OBSERVABLES), st.lists(st.lists(st.floats(0.001, 5000.0), max_size=3), min_size=3, max_size=3), st.text('abc_/.', min_size=1, max_size=8)), quick=150, thorough=3000)
def correlation_ranges(case):
    """non-trivial when there is a range"""
    source, observable, ranges, name = case
    made = []
    module = preparedailymobile if source == 'insitu_ocean' else preparedailyfixed
    original = module.SOURCECLASS[source]

    class Stand(object):
        def __init__(self, *args, **kwargs):
            inspect.signature(original).bind(*args, **kwargs)
            made.append((args, kwargs))

        def local_correlation_length_scale(self, which):
            return ranges[OBSERVABLES.index(which)]

    module.SOURCECLASS[source] = Stand
    try:
        with scratch() as root:
            output = os.path.join(root, 'a', 'ranges.bin')
            preparecorrelationranges.run(output, name, source, observable)
            found = raw.LocalCorrelationRangeRawBinaryReader().read(output)
    finally:
        module.SOURCECLASS[source] = original
    wanted = ranges[OBSERVABLES.index(observable)]
    require(len(found) == len(wanted) and all(a == b for a, b in zip(found, wanted)), 'ranges %s, expected %s', list(found), wanted)
    require(len(made) == 1 and name in made[0][0] + tuple(made[0][1].values()), 'source made from %s', made)
    return bool(wanted)


word = st.one_of(st.text('abcXYZ_/.-0', max_size=8), st.text(max_size=3))
plain = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2 ** 40, 2 ** 40), st.floats(-1e300, 1e300), word), lambda inner: st.one_of(st.lists(inner, max_size=3), st.dictionaries(word, inner, max_size=3)), max_leaves=5)


@st.composite
def summaries(draw):
    days = draw(st.lists(st.integers(0, 60000), min_size=1, max_size=12, unique=True))
    source = st.fixed_dictionaries({'name': st.sampled_from(SOURCES), 'fixed_location_lookup_filename': st.one_of(st.none(), word), 'filenames': st.dictionaries(word, st.one_of(st.none(), word), max_size=2), 'other': plain})
    return {'days': [[d, draw(st.integers(0, 86399)) if draw(st.booleans()) else 0, draw(st.lists(source, max_size=3))] for d in days], 'depth': draw(st.integers(0, 2)), 'again': draw(st.booleans())}


@facet(summaries(), quick=200, thorough=5000)
def optimisation_inputs(case):
    """non-trivial with more than one day"""
    with scratch() as root:
        files, wanted = [], collections.OrderedDict()
        for k, (d, seconds, inputs) in enumerate(case['days']):
            t = date(d) + datetime.timedelta(seconds=seconds)
            name = os.path.join(root, *(['deep'] * case['depth'] + ['%d' % t.year, 'summary_%d.json' % k]))
            if case['again']:
                # what an earlier run left is replaced
                optimization_inputs.input_summary(t, name, inputs + [{'name': 'old', 'something': 'x' * 500}])
            optimization_inputs.input_summary(t, name, inputs)
            files.append(name)
            wanted[t.isoformat()] = inputs
        merged = os.path.join(root, 'merged', 'all.json')
        optimization_inputs.merge_input_summaries(files, merged)
        found = optimization_inputs.generate_input_descriptor(merged)
        require(list(found) == list(wanted), 'times %s, expected %s', list(found), list(wanted))
        for t in wanted:
            require(json.dumps(found[t], sort_keys=True) == json.dumps(wanted[t], sort_keys=True), 'inputs of %s: %s, expected %s', t, found[t], wanted[t])
        with open(merged) as stream:
            require(json.dumps(collections.OrderedDict(json.load(stream))) is not None, 'not plain')
    return len(case['days']) > 1
