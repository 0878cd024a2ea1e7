"""Cases: sets of locations (0 to 40), days of observations on them (0 to 60 per day, with masks, other days' times,
repeated locations, any finite or non-finite value), 0 to 3 correlation ranges, fixed and mobile locations, location
pointers over up to 5 days; files cut at any byte or removed, and locations that do not exist. Oracle: the arrays written. The files are read by the Python readers, and by the C++ readers
and input manager compiled from the tree. A case is non-trivial when at least one observation is written."""

import os
import uuid

import numpy
from hypothesis import strategies as st
from harness import facet, require, scratch, raises, Violation
from support import driver, python2_binary_files

from eustace.analysis.fileio import observationsource_rawbinary as raw
from eustace.analysis.fileio.locationpointers import LocationPointersRawBinaryReader, LocationPointersRawBinaryWriter
from eustace.analysis.observationsource import Observations
from eustace.timeutils.epoch import epoch_plus_days

python2_binary_files()

SOURCES = ['surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice', 'surfaceairmodel_lake', 'insitu_land', 'insitu_ocean']
LOOKUP = {'surfaceairmodel_land': 'satellite', 'surfaceairmodel_ocean': 'satellite', 'surfaceairmodel_ice': 'satellite', 'surfaceairmodel_lake': 'lake', 'insitu_land': 'insitu_land'}
OBSERVABLES = ['Tmin', 'Tmax', 'Tmean']

values = st.one_of(st.floats(150, 350), st.floats(width=64), st.sampled_from([0.0, -0.0, 1e-300, 5e-324, 1.7e308]))


@st.composite
def stores(draw, several=5, mobile=None):
    source = draw(st.integers(0, 5)) if mobile is None else (5 if mobile else draw(st.integers(0, 4)))
    ranges = draw(st.lists(st.floats(0.001, 5000.0), max_size=3))
    start = draw(st.one_of(st.integers(1, 60000), st.sampled_from([364, 365, 18261, 54786, 54850])))
    days = []
    locations = draw(st.lists(st.tuples(st.floats(-90, 90), st.floats(-180, 360)), min_size=0, max_size=draw(st.sampled_from([1, 5, 40]))))
    for _ in range(draw(st.integers(1, several))):
        here = locations if source != 5 else draw(st.lists(st.tuples(st.floats(-90, 90), st.floats(-180, 360)), max_size=8))
        n = draw(st.sampled_from([0, 1, 2, 3, 7, 60])) if here else 0
        rows = [[draw(st.integers(0, len(here) - 1)), draw(values), draw(values), [draw(values) for r in ranges], draw(st.integers(0, 4)) == 0, draw(st.sampled_from([0, 0, 0, 0.5, 0.99, -1, 1]))] for _ in range(n)]
        days.append({'rows': rows, 'locations': [list(l) for l in here] if source == 5 else None})
    return {'source': source, 'observable': draw(st.integers(0, 2)), 'ranges': ranges, 'start': start, 'days': days, 'locations': [list(l) for l in locations], 'ids': draw(st.lists(st.integers(1, 2 ** 64), min_size=8, max_size=8, unique=True)), 'time': draw(st.sampled_from(['array', 'scalar']))}


def same(a, b):
    """Bit for bit."""
    return numpy.asarray(a, numpy.float64).tobytes() == numpy.asarray(b, numpy.float64).tobytes()


def observations(case, k):
    rows = case['days'][k]['rows']
    n = len(rows)
    day = case['start'] + k
    time = numpy.array([day + r[5] for r in rows], numpy.float64) if case['time'] == 'array' else numpy.array(float(day))
    return Observations(numpy.array([r[4] for r in rows], bool), time, numpy.array([r[0] for r in rows], numpy.uint64), numpy.array([r[1] for r in rows], numpy.float64),
                        numpy.array([r[2] for r in rows], numpy.float64), [numpy.array([r[3][c] for r in rows], numpy.float64) for c in range(len(case['ranges']))])


def written(case, k):
    """Rows that should be in the file of day k."""
    return [r for r in case['days'][k]['rows'] if not r[4] and (case['time'] == 'scalar' or 0 <= r[5] < 1)]


class Store(object):
    def __init__(self, case, root):
        self.case, self.root = case, root
        self.source, self.observable = SOURCES[case['source']], OBSERVABLES[case['observable']]
        self.names = raw.ObservationSourceBinaryFilenameGenerator(self.source, root)
        self.uuid = uuid.UUID(int=case['ids'][0])
        self.ranges_name = self.names.filename_local_correlation_ranges(self.observable)
        raw.LocalCorrelationRangeRawBinaryWriter().write(self.ranges_name, case['ranges'])
        self.mobile = case['source'] == 5
        self.lookup_name = os.path.join(root, 'locationlookup_%s.bin' % LOOKUP.get(self.source, 'none'))
        raw.LocationLookupRawBinaryWriter().write(self.lookup_name, raw.LocationLookupWithID(self.uuid, self.table(case['locations'])))
        for k, day in enumerate(case['days']):
            u = self.day_uuid(k)
            if self.mobile:
                raw.LocationLookupRawBinaryWriter().write(self.names.filename_mobile_locations(self.observable, case['start'] + k), raw.LocationLookupWithID(u, self.table(day['locations'])))
            raw.ObservationRawBinaryWriter().write_day(self.day_name(k), u, observations(case, k), case['start'] + k)

    @staticmethod
    def table(locations):
        return numpy.array(locations, numpy.float64).reshape(-1, 2).T

    def day_uuid(self, k):
        return uuid.UUID(int=self.case['ids'][1 + k]) if self.mobile else self.uuid

    def day_name(self, k):
        return self.names.filename_observations(self.observable, self.case['start'] + k)


def check_rows(rows, got, what, locations=None):
    require(len(got) == len(rows), '%s: %d observations, expected %d', what, len(got), len(rows))
    for i, (g, r) in enumerate(zip(got, rows)):
        require(int(g[0]) == r[0], '%s: observation %d has location %d, expected %d', what, i, int(g[0]), r[0])
        require(same(g[1:], [r[1], r[2]] + r[3]), '%s: observation %d is %r, expected %r', what, i, list(g[1:]), [r[1], r[2]] + r[3])


@facet(stores(), quick=500, thorough=15000, shards=3)
def python_files(case):
    """what the Python readers read is what was written"""
    with scratch() as root:
        s = Store(case, root)
        lookup = raw.LocationLookupRawBinaryReader().read(s.lookup_name)
        require(lookup.uuid == s.uuid and lookup.lookuptable.shape == (2, len(case['locations'])) and same(lookup.lookuptable, s.table(case['locations'])), 'locations %r read as %r', case['locations'], lookup.lookuptable)
        u, n = raw.LocationLookupRawBinaryReader().read_uuid_and_count(s.lookup_name)
        require(u == s.uuid and n == len(case['locations']), 'location count %r', n)
        ranges = raw.LocalCorrelationRangeRawBinaryReader().read(s.ranges_name)
        require(same(ranges, case['ranges']), 'correlation ranges %r read as %r', case['ranges'], ranges)
        any_written = False
        for k in range(len(case['days'])):
            day = case['start'] + k
            t = epoch_plus_days(day)
            require(s.day_name(k) == os.path.join(root, s.source, '%04d' % t.year, '%s_%s_%04d%02d%02d.bin' % (s.source, s.observable, t.year, t.month, t.day)), 'file name %s', s.day_name(k))
            rows = written(case, k)
            any_written = any_written or bool(rows)
            reader = raw.ObservationRawBinaryReader(len(ranges))
            require(reader.read_observation_count(s.day_name(k)) == len(rows), 'count %r, expected %d', reader.read_observation_count(s.day_name(k)), len(rows))
            require([int(x) for x in reader.read_location_ids(s.day_name(k), s.day_uuid(k))] == [r[0] for r in rows], 'location identifiers differ')
            lookup = raw.LocationLookupWithID(s.day_uuid(k), s.table(case['days'][k]['locations'] or case['locations']))
            single = raw.ObservationSourceSingleDayRawBinary(lookup, {s.observable: raw.ObservableFileSpec(s.day_name(k), ranges)}, day)
            require(list(single.observables()) == [s.observable] and same(single.local_correlation_length_scale(s.observable), case['ranges']), 'observables or length scales differ')
            for obs in (reader.read_day(s.day_name(k), s.day_uuid(k), day), single.observations(s.observable)):
                require(not numpy.any(obs.mask) and len(obs.mask) == len(rows), 'mask of read observations %r', obs.mask)
                require(numpy.all(obs.time == day) and obs.number_of_observations() == len(rows) and len(obs.locallycorrelatederror) == len(ranges), 'time %r', obs.time)
                check_rows(rows, list(zip(obs.location, obs.measurement, obs.uncorrelatederror, *obs.locallycorrelatederror)), 'day %d' % day)
            missing = raw.ObservationSourceSingleDayRawBinary(lookup, {s.observable: raw.ObservableFileSpec(None, ranges)}, day).observations(s.observable)
            require(missing.number_of_observations() == 0, 'a day without file has %d observations', missing.number_of_observations())
        return any_written


@facet(st.fixed_dictionaries({'rows': st.lists(st.tuples(st.one_of(st.integers(0, 2 ** 24 + 100), st.integers(2 ** 24, 2 ** 53)), st.floats(150, 350), st.floats(0, 9)), max_size=12), 'repeat': st.sampled_from([1, 1, 1, 300]), 'day': st.integers(0, 70000), 'id': st.integers(1, 2 ** 64)}), quick=150, thorough=4000)
def many_locations(case):
    """any location number is kept, and any number of observations"""
    rows = case['rows'] * case['repeat']
    column = lambda k, kind: numpy.array([r[k] for r in rows], kind)
    with scratch() as root:
        name, u = os.path.join(root, 'a', 'b.bin'), uuid.UUID(int=case['id'])
        raw.ObservationRawBinaryWriter().write_day(name, u, Observations(numpy.zeros(len(rows), bool), numpy.full(len(rows), float(case['day'])), column(0, numpy.uint64), column(1, float), column(2, float), []), case['day'])
        reader = raw.ObservationRawBinaryReader(0)
        require([int(x) for x in reader.read_location_ids(name, u)] == [r[0] for r in rows], 'location numbers %r', [r[0] for r in case['rows']])
        obs = reader.read_day(name, u, case['day'])
        check_rows([[r[0], r[1], r[2], []] for r in rows], list(zip(obs.location, obs.measurement, obs.uncorrelatederror)), 'day')
    return len(rows) > 0


@facet(st.tuples(stores(), st.integers(0, 3)), quick=200, thorough=5000)
def refusals(case):
    """files of another format, or for other locations, are refused"""
    case, how = case
    with scratch() as root:
        s = Store(case, root)
        n = len(case['ranges'])
        other = uuid.UUID(int=case['ids'][7])
        day = case['start']
        require(raises(Exception, raw.ObservationRawBinaryReader(n).read_day, s.day_name(0), other, day), 'observations for other locations were read')
        wrong = raw.ObservationSourceSingleDayRawBinary(raw.LocationLookupWithID(other, s.table(case['locations'])), {s.observable: raw.ObservableFileSpec(s.day_name(0), case['ranges'])}, day)
        require(raises(Exception, wrong.observations, s.observable), 'observations for other locations were read')
        if how == 0:
            require(raises(Exception, raw.ObservationRawBinaryReader(n).read_day, s.lookup_name, s.uuid, day), 'locations were read as observations')
            require(raises(Exception, raw.LocationLookupRawBinaryReader().read, s.day_name(0)), 'observations were read as locations')
            require(raises(Exception, raw.LocalCorrelationRangeRawBinaryReader().read, s.day_name(0)), 'observations were read as ranges')
            for command in (['observations', str(n), s.lookup_name], ['locations', s.day_name(0)], ['ranges', s.day_name(0)]):
                answer = driver(*command)
                require(answer is not None and answer and answer[0] == 'EXCEPTION header', 'C++ read %s: %r', command[0], answer)
        elif how == 1:
            for name, command in ((s.day_name(0), ['observations', str(n), s.day_name(0)]), (s.lookup_name, ['locations', s.lookup_name]), (s.ranges_name, ['ranges', s.ranges_name])):
                data = open(name, 'rb').read()
                with open(name, 'wb') as stream:
                    stream.write(data[:15] + b'2' + data[16:])
                answer = driver(*command)
                require(answer is not None and answer and answer[0] == 'EXCEPTION header', 'C++ read another version of %s: %r', command[0], answer)
            require(raises(Exception, raw.ObservationRawBinaryReader(n).read_day, s.day_name(0), s.day_uuid(0), day), 'another version was read')
            require(raises(Exception, raw.LocationLookupRawBinaryReader().read, s.lookup_name), 'another version was read')
            require(raises(Exception, raw.LocalCorrelationRangeRawBinaryReader().read, s.ranges_name), 'another version was read')
        else:
            for name, command in ((s.day_name(0), ['observations', str(n), s.day_name(0)]), (s.lookup_name, ['locations', s.lookup_name]), (s.ranges_name, ['ranges', s.ranges_name])):
                with open(name, 'ab') as stream:
                    stream.write(b'x' * how)
                answer = driver(*command)
                require(answer is not None and answer and answer[0] == 'EXCEPTION size', 'C++ read %s with %d extra bytes: %r', command[0], how, answer and answer[:3])
    return True


def numbers(words):
    return [float.fromhex(w) if w not in ('nan', '-nan', 'inf', '-inf') else float(w) for w in words]


def alike(a, b):
    return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))


@facet(stores(), quick=400, thorough=12000, shards=3)
def cpp_files(case):
    """the C++ readers and input manager read what Python wrote"""
    with scratch() as root:
        s = Store(case, root)
        ranges = case['ranges']
        answer = driver('locations', s.lookup_name)
        require(answer is not None and answer[0] == 'uuid ' + s.uuid.bytes.hex() and len(answer) == 1 + len(case['locations']), 'C++ locations: %r', answer and answer[:2])
        for line, l in zip(answer[1:], case['locations']):
            require(alike(numbers(line.split()), l), 'C++ location %s, expected %r', line, l)
        answer = driver('ranges', s.ranges_name)
        require(answer is not None and alike(numbers(answer), ranges), 'C++ ranges %r', answer)
        for k in range(len(case['days'])):
            answer = driver('observations', str(len(ranges)), s.day_name(k))
            require(answer is not None and answer[0] == 'uuid ' + s.day_uuid(k).bytes.hex(), 'C++ observations: %r', answer and answer[:1])
            rows = written(case, k)
            require(len(answer) - 1 == len(rows), 'C++ read %d observations, expected %d', len(answer) - 1, len(rows))
            for line, r in zip(answer[1:], rows):
                words = line.split()
                require(int(words[0]) == r[0] and alike(numbers(words[1:]), [r[1], r[2]] + r[3]), 'C++ observation %s, expected %r', line, r)
        first, last = case['start'], case['start'] + len(case['days']) - 1
        answer = driver('manager', root, str(case['source']), str(case['observable']), str(first), str(last), *[str(d) for d in range(first, last + 1)])
        require(answer is not None, 'the C++ input manager crashed')
        answer = list(answer)
        require(answer[0] == 'totallocations %d' % (0 if s.mobile else len(case['locations'])), 'C++ manager: %s, expected %d', answer[0], len(case['locations']))
        require(answer[1] == 'total %d' % sum(len(written(case, k)) for k in range(len(case['days']))), 'C++ manager: %s', answer[1])
        answer = answer[2:]
        for k in range(len(case['days'])):
            rows = written(case, k)
            places = case['days'][k]['locations'] if s.mobile else case['locations']
            require(answer[0] == 'day %d %d %d %d' % (first + k, len(rows), len(rows), len(places) if s.mobile else 0), 'C++ manager: %s, expected %d observations', answer[0], len(rows))
            require(alike(numbers(answer[1].split()[1:]), ranges), 'C++ manager: %s', answer[1])
            for line, r in zip(answer[2:2 + len(rows)], rows):
                words = line.split()
                require(int(words[1]) == r[0] and alike(numbers(words[2:]), list(places[r[0]]) + [r[1], r[2]] + r[3]), 'C++ manager: %s, expected %r at %r', line, r, places[r[0]])
            answer = answer[2 + len(rows):]
        require(not answer, 'C++ manager gave more: %r', answer[:2])
        return any(written(case, k) for k in range(len(case['days'])))


@facet(st.tuples(stores(mobile=False), st.lists(st.integers(0, 39), max_size=6)), quick=250, thorough=8000, shards=2)
def pointers(case):
    """location pointers find every observation of a location on its day, from Python and from C++"""
    case, ids = case
    n = len(case['locations'])
    ids = [i % n for i in ids] if n else []
    with scratch() as root:
        s = Store(case, root)
        name = os.path.join(root, '%s_%s_locationpointers.bin' % (s.source, s.observable))
        writer = LocationPointersRawBinaryWriter(s.lookup_name, s.ranges_name)
        for k in range(len(case['days'])):
            writer.append_day(s.day_name(k), case['start'] + k)
        writer.write(name)
        expected = {i: [(case['start'] + k, r) for k in range(len(case['days'])) for r in written(case, k) if r[0] == i] for i in range(n)}
        for i in range(n):
            records = LocationPointersRawBinaryReader().read_pointer_records(name, s.uuid, i)
            require([int(d) for d in records['daynumber']] == [d for d, r in expected[i]], 'location %d has days %r, expected %r', i, list(records['daynumber']), [d for d, r in expected[i]])
            for record, (day, r) in zip(records, expected[i]):
                with open(s.day_name(day - case['start']), 'rb') as stream:
                    stream.seek(int(record['fileoffset']) - 8)
                    data = stream.read(8 * (3 + len(case['ranges'])))
                require(data == numpy.uint64(i).tobytes() + numpy.array([r[1], r[2]] + r[3], numpy.float64).tobytes(), 'pointer of location %d on day %d points elsewhere', i, day)
        require(raises(Exception, LocationPointersRawBinaryReader().read_pointer_records, name, uuid.UUID(int=case['ids'][7]), 0), 'pointers for other locations were read')
        require(raises(Exception, LocationPointersRawBinaryReader().read_pointer_records, name, s.uuid, n), 'a location beyond the last was read')
        if n:
            answer = driver('bylocation', root, str(case['source']), str(case['observable']), *[str(i) for i in ids])
            require(answer is not None, 'C++ crashed')
            for i in ids:
                want = expected[i]
                require(answer and answer[0] == 'retrieval %d' % len(want), 'C++ location %d: %r, expected %d', i, answer[:1], len(want))
                for line, (day, r) in zip(answer[1:1 + len(want)], want):
                    words = line.split()
                    require(int(words[1]) == day and alike(numbers(words[2:]), [r[1], r[2]] + r[3]), 'C++ location %d: %s, expected day %d %r', i, line, day, r)
                answer = answer[1 + len(want):]
        return any(expected.values())


@facet(st.tuples(stores(mobile=False), st.sampled_from(['observations', 'locations', 'ranges', 'pointers', 'none', 'beyond']), st.integers(0, 10 ** 6)), quick=300, thorough=8000, shards=2)
def damaged(case):
    """files cut short or absent are refused: nothing is made up for what is not there"""
    case, what, cut = case
    with scratch() as root:
        s = Store(case, root)
        n, day, count = len(case['ranges']), case['start'], len(case['locations'])
        pointers_name = os.path.join(root, '%s_%s_locationpointers.bin' % (s.source, s.observable))
        writer = LocationPointersRawBinaryWriter(s.lookup_name, s.ranges_name)
        for k in range(len(case['days'])):
            writer.append_day(s.day_name(k), day + k)
        writer.write(pointers_name)
        name, header, record = {'observations': (s.day_name(0), 48, 8 * (3 + n)), 'locations': (s.lookup_name, 48, 16), 'ranges': (s.ranges_name, 32, 8), 'pointers': (pointers_name, None, None),
                                'none': (s.day_name(0), None, None), 'beyond': (None, None, None)}[what]
        by_location = lambda i: driver('bylocation', root, str(case['source']), str(case['observable']), str(i))
        refused = lambda answer: answer is not None and len(answer) > 0 and answer[-1].startswith('EXCEPTION')
        if what == 'beyond':
            # a location which is not in the table
            answer = by_location(count + cut % 3)
            require(refused(answer), 'C++ retrieved location %d of %d: %r', count + cut % 3, count, answer and answer[:2])
            return True
        # the same process reads the whole file first
        require(not refused(driver('observations', str(n), s.day_name(0))), 'C++ refused observations')
        size = os.path.getsize(name)
        if what == 'none':
            os.remove(name)
            length = None
        else:
            length = cut % size
            if header is not None and length >= header and (length - header) % record == 0:
                length += 1
                if length >= size:
                    return False
            with open(name, 'r+b') as stream:
                stream.truncate(length)
        first = [i for i in range(count) if any(r[0] == i for r in written(case, 0))]
        if what in ('observations', 'none'):
            reader = raw.ObservationRawBinaryReader(n)
            for call in (lambda: reader.read_day(name, s.uuid, day), lambda: reader.read_location_ids(name, s.uuid), lambda: reader.read_observation_count(name)):
                require(raises(Exception, call), 'Python read observations cut to %r of %d bytes', length, size)
            require(refused(driver('observations', str(n), name)), 'C++ read observations cut to %r of %d bytes', length, size)
            answer = driver('manager', root, str(case['source']), str(case['observable']), str(day), str(day), str(day))
            require(refused(answer), 'C++ manager retrieved observations cut to %r of %d bytes: %r', length, size, answer and answer[:2])
            for i in first[-1:]:
                last = max(k for k, r in enumerate(written(case, 0)) if r[0] == i)
                if length is None or length < 48 + 8 * (3 + n) * (last + 1):
                    answer = by_location(i)
                    require(refused(answer), 'C++ retrieved location %d from observations cut to %r of %d bytes: %r', i, length, size, answer and answer[:3])
        elif what == 'locations':
            for call in (lambda: raw.LocationLookupRawBinaryReader().read(name), lambda: raw.LocationLookupRawBinaryReader().read_uuid_and_count(name)):
                require(raises(Exception, call), 'Python read locations cut to %d of %d bytes', length, size)
            require(refused(driver('locations', name)), 'C++ read locations cut to %d of %d bytes', length, size)
            answer = driver('manager', root, str(case['source']), str(case['observable']), str(day), str(day), str(day))
            require(refused(answer), 'C++ manager used locations cut to %r of %d bytes: %r', length, size, answer and answer[:2])
        elif what == 'ranges':
            require(raises(Exception, raw.LocalCorrelationRangeRawBinaryReader().read, name), 'Python read correlation ranges cut to %d of %d bytes', length, size)
            require(refused(driver('ranges', name)), 'C++ read correlation ranges cut to %d of %d bytes', length, size)
        else:
            # each location is read in full or refused
            offset = 56 + 16 * count
            for i in range(count):
                want = [(day + k, r) for k in range(len(case['days'])) for r in written(case, k) if r[0] == i]
                offset += 16 * len(want)
                if length < (offset if want else 56 + 16 * (i + 1)):
                    require(raises(Exception, LocationPointersRawBinaryReader().read_pointer_records, name, s.uuid, i), 'Python read location %d from pointers cut to %d of %d bytes', i, length, size)
                    answer = by_location(i)
                    require(refused(answer), 'C++ read location %d from pointers cut to %d of %d bytes: %r', i, length, size, answer and answer[:2])
    return True
