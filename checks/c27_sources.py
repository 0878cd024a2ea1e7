"""Cases: station files of up to five stations and six days with any values missing, any quality flags, stations held out, all or
one day chosen and heights adjusted or not; ship files in which the columns come in any order; lake files in which lakes recur and
lie on common grids; pairs of observation sets with locations partly in common. Each is read as an observation source, and station
and ship files are also prepared as daily raw binary files and read back. Oracle: the generated table itself. A case is non-trivial
when something is missing, flagged, held out, shared or repeated."""

import gzip
import os
from datetime import datetime, timedelta

import netCDF4
import numpy
from hypothesis import strategies as st
from harness import facet, require, require_close, raises, scratch
from support import python2_binary_files

from eustace.analysis import preparedailyfixed, preparedailymobile, preparelocationlookup
from eustace.analysis.fileio.observationsource_missing import ObservationSourceMissing
from eustace.analysis.fileio.observationsource_rawbinary import LocationLookupRawBinaryReader, LocationLookupRawBinaryWriter, LocationLookupWithID, ObservableFileSpec, ObservationRawBinaryReader, ObservationSourceSingleDayRawBinary
from eustace.analysis.observationsource import Observations
from eustace.preprocess.fileio.height_adjustment import AltitudeAdjustment
from eustace.preprocess.fileio.insitu_land import ObservationSourceInsituLand
from eustace.preprocess.fileio.insitu_ocean import HadNMAT2Format, ObservationSourceInsituOceanHadNMAT2
from eustace.surfaceairmodel.fileio.lake import ObservationSourceLakeReading

python2_binary_files()
EPOCH = datetime(1850, 1, 1)

# Python 3 hands bytes to the converter for which Python 2 has text
_parse_date = ObservationSourceLakeReading.parse_date
ObservationSourceLakeReading.parse_date = staticmethod(lambda s: _parse_date(s.decode('ascii') if isinstance(s, bytes) else s))

CODES = st.text('ABCXYZ0189', min_size=1, max_size=8)


@st.composite
def stations(draw):
    n, days = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    width = draw(st.sampled_from([8, 9, 12]))
    codes = draw(st.lists(CODES, min_size=n, max_size=n, unique=True))
    complete = draw(st.integers(0, 3)) == 0
    value = st.integers(-6000, 6000) if complete else st.one_of(st.none(), st.integers(-6000, 6000))
    flag = st.sampled_from([0] * draw(st.integers(1, 6)) + [1, 2, 100, -1])
    rows = lambda element: draw(st.lists(st.lists(element, min_size=n, max_size=n), min_size=days, max_size=days))
    first = draw(st.integers(20000, 60000))
    plane = draw(st.one_of(st.none(), st.tuples(st.integers(1000, 3000), st.integers(-10, 10), st.integers(-5, 5))))
    edges = [] if plane else [st.sampled_from([-180.0, -179.9, 179.9, 180.0, 180.1, 359.9])]
    elevation = st.integers(-400, 6000) if draw(st.booleans()) else st.one_of(st.none(), st.integers(-400, 6000))
    return {
        'codes': codes, 'width': width, 'first': first, 'days': days,
        'lat': draw(st.lists(st.integers(-800, 800).map(lambda x: x / 10.0), min_size=n, max_size=n)),
        'lon': draw(st.lists(st.one_of(st.integers(-1700, 1700).map(lambda x: x / 10.0), st.integers(1900, 3500).map(lambda x: x / 10.0), *edges), min_size=n, max_size=n)),
        'elevation': draw(st.lists(elevation, min_size=n, max_size=n)),
        'Tmin': rows(value), 'Tmax': rows(value), 'qmin': rows(flag), 'qmax': rows(flag),
        'held': draw(st.one_of(st.none(), st.lists(st.one_of(st.sampled_from(codes), CODES), max_size=4, unique=True))),
        'heldwidth': draw(st.sampled_from([8, 9, 12])),
        'day': draw(st.one_of(st.none(), st.integers(0, days - 1), st.integers(-1, days))),
        'plane': plane,
        'moved': draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 4), st.sampled_from([0.5, -0.5, 0.01, -0.01, 30.0, -30.0])), min_size=1, max_size=1)),
        'scale': draw(st.sampled_from([1.0, 0.001]))}


def write_codes(nc, codes, width):
    nc.createDimension('station', len(codes))
    nc.createDimension('code_length', width)
    nc.createVariable('station_code', 'S1', ('station', 'code_length'))[:] = numpy.array([list(c.ljust(width, '\0')) for c in codes], 'S1').reshape(len(codes), width)


def write_stations(case, folder):
    name = os.path.join(folder, 'stations.nc')
    with netCDF4.Dataset(name, 'w') as nc:
        write_codes(nc, case['codes'], case['width'])
        nc.createDimension('time', None)
        nc.createVariable('time', 'i4', ('time',))[:] = case['first'] + numpy.arange(case['days'])
        for key, variable in [('lat', 'latitude'), ('lon', 'longitude')]:
            nc.createVariable(variable, 'f4', ('station',))[:] = case[key]
        out = nc.createVariable('elevation', 'f4', ('station',), fill_value=-9999.0)
        out[:] = [-9999.0 if e is None else e for e in case['elevation']]
        for observable, variable, key in [('Tmin', 'tasmin', 'qmin'), ('Tmax', 'tasmax', 'qmax')]:
            out = nc.createVariable(variable, 'i2', ('time', 'station'), fill_value=-32768)
            out.setncatts({'scale_factor': 0.005, 'add_offset': 273.15})
            out.set_auto_maskandscale(False)
            out[:] = [[-32768 if v is None else v for v in row] for row in case[observable]]
            out = nc.createVariable(variable + '_qc', 'i1', ('time', 'station'), fill_value=-128)
            out.set_auto_maskandscale(False)
            if case['days'] % 2:
                out.valid_range = numpy.array([0, 0], 'i1')
            out[:] = case[key]
    held = None
    if case['held'] is not None:
        held = os.path.join(folder, 'held.nc')
        with netCDF4.Dataset(held, 'w') as nc:
            write_codes(nc, case['held'], case['heldwidth'])
    return name, held


def adjuster(case, folder):
    if case['plane'] is None:
        return None
    name = os.path.join(folder, 'altitude.nc')
    lat, lon = numpy.arange(-85.0, 86.0, 10.0), numpy.arange(-175.0, 176.0, 10.0)
    a, b, c = case['plane']
    with netCDF4.Dataset(name, 'w') as nc:
        nc.createDimension('la', lat.size)
        nc.createDimension('lo', lon.size)
        nc.createVariable('la', 'f8', ('la', 'lo'))[:] = numpy.repeat(lat[:, None], lon.size, axis=1)
        nc.createVariable('lo', 'f8', ('la', 'lo'))[:] = numpy.repeat(lon[None, :], lat.size, axis=0)
        nc.createVariable('dem', 'f8', ('la', 'lo'))[:] = (a + b * lat[:, None] + c * lon[None, :]) * (0.001 / case['scale'])
    return AltitudeAdjustment(name, 'la', 'lo', 'dem', case['scale'])


def wrapped(case):
    lon = numpy.array(case['lon'], numpy.float32).astype(float)
    return numpy.where(lon >= 180.0, lon - 360.0, lon)


def expected_observations(case, observable, qc):
    """rows of day, station, value or None, uncertainty"""
    result = []
    for d in range(case['days']):
        if case['day'] is not None and d != case['day']:
            continue
        for s in range(len(case['codes'])):
            value, unc = case[observable][d][s], 0.3
            if value is not None:
                value = value * 0.005 + 273.15
            if qc and case['q' + observable[1:]][d][s] != 0:
                value = None
            if case['held'] is not None and case['codes'][s] in case['held']:
                value = None
            if case['plane'] is not None:
                if case['elevation'][s] is None:
                    value = None
                elif value is not None:
                    a, b, c = case['plane']
                    difference = 0.001 * case['elevation'][s] - 0.001 * (a + b * case['lat'][s] + c * wrapped(case)[s])
                    value, unc = value + 6.5 * difference, numpy.hypot(0.3, 1.1 * difference)
            result.append((case['first'] + d, s, value, unc))
    return result


def compare(found, expected, what):
    n = len(expected)
    require(found.number_of_observations() == n, '%s: %d observations, expected %d', what, found.number_of_observations(), n)
    missing = numpy.array([v is None for _, _, v, _ in expected], bool)
    require(numpy.shape(found.mask) == (n,) and numpy.array_equal(found.mask, missing), '%s: missing %s, expected %s', what, found.mask, missing)
    require(numpy.array_equal(numpy.broadcast_to(found.time, (n,)), [t for t, _, _, _ in expected]), '%s: times %s', what, found.time)
    require(numpy.array_equal(found.location, [s for _, s, _, _ in expected]), '%s: locations %s', what, found.location)
    keep = ~missing
    require_close(numpy.asarray(found.measurement)[keep], numpy.array([v for _, _, v, _ in expected if v is not None], float), what + ': measurements', 0, 0.002)
    require_close(numpy.asarray(found.uncorrelatederror)[keep], numpy.array([u for _, _, v, u in expected if v is not None], float), what + ': uncertainty', 1e-4, 1e-4)
    require(len(found.locallycorrelatederror) == 0, '%s: %d correlated components', what, len(found.locallycorrelatederror))


@facet(stations(), quick=450, thorough=6000, cost=3, shards=4)
def station_files(case):
    """Stations on all or one day, with quality control, stations held out and heights adjusted"""
    with scratch() as folder:
        name, held = write_stations(case, folder)
        for adjust in {None: [None]}.get(case['plane'], [None, adjuster(case, folder)]):
            if adjust is None and case['plane'] is not None:
                chosen = dict(case, plane=None)
            else:
                chosen = case
            source = ObservationSourceInsituLand(name, None if case['day'] is None else case['first'] + case['day'], held, adjust)
            require(set(source.observables()) == {'Tmin', 'Tmax'}, 'observables %s', list(source.observables()))
            present = case['day'] is None or 0 <= case['day'] < case['days']
            require(source.number_of_stations() == len(case['codes']), 'number of stations %s', source.number_of_stations())
            require(source.number_of_days() == (case['days'] if case['day'] is None else 1), 'number of days %s', source.number_of_days())
            require(source.number_of_observations() == source.number_of_days() * len(case['codes']), 'number of observations %s', source.number_of_observations())
            require_close(source.observation_location_lookup(), numpy.array([case['lat'], wrapped(case)]), 'locations', 0, 1e-4)
            if adjust is not None:
                high = numpy.array([0.001 * (e or 0) for e in case['elevation']])
                adjust.load_reference_map()
                require(numpy.all(numpy.asarray(adjust.adjustment_uncertainty(high, source.observation_location_lookup().T)) >= 0), 'uncertainty of adjustment is negative')
            for observable in ['Tmin', 'Tmax', 'Tmin']:
                require(len(source.local_correlation_length_scale(observable)) == 0, 'correlation lengths')
                for qc in [False, True, False]:
                    found = source.observations(observable, qc)
                    if not present:
                        require(found is None, 'observations on a day not in the file')
                        continue
                    compare(found, expected_observations(chosen, observable, qc), '%s, qc %s, height %s' % (observable, qc, adjust is not None))
            source.dataset.close()
    return bool(present and (case['held'] or case['plane'] or any(v is None for row in case['Tmin'] for v in row)))


@facet(stations().filter(lambda c: c['day'] is not None and 0 <= c['day'] < c['days']), quick=300, thorough=4000, cost=3, shards=4)
def station_days(case):
    """Days of stations prepared as raw binary files"""
    with scratch() as folder:
        name, held = write_stations(case, folder)
        lookup, output = os.path.join(folder, 'lookup.bin'), os.path.join(folder, 'day.bin')
        preparelocationlookup.run(lookup, name, 'insitu_land')
        table = LocationLookupRawBinaryReader().read(lookup)
        require_close(table.lookuptable, numpy.array([case['lat'], wrapped(case)]), 'locations', 0, 1e-4)
        day = EPOCH + timedelta(days=case['first'] + case['day'])
        for observable, qc in [('Tmin', True), ('Tmax', False)]:
            preparedailyfixed.run_day(output, lookup, name, day, 'insitu_land', observable, hold_out_list=held, qc_mask=qc, altitude_adjustment=adjuster(case, folder))
            source = ObservationSourceSingleDayRawBinary(table, {observable: ObservableFileSpec(output, [])}, case['first'] + case['day'])
            expected = [e for e in expected_observations(case, observable, qc) if e[2] is not None]
            compare(source.observations(observable), expected, observable)
        # locations of another set of stations are refused
        moved = table.lookuptable.copy()
        for row, station, shift in case['moved']:
            moved[row, station % moved.shape[1]] += shift
        LocationLookupRawBinaryWriter().write(lookup, LocationLookupWithID(table.uuid, moved))
        os.remove(output)
        require(raises(ValueError, preparedailyfixed.run_day, output, lookup, name, day, 'insitu_land', 'Tmin') and not os.path.exists(output), 'other locations are accepted')
    return bool(case['held'] or case['plane'] or any(v is None for v in case['Tmin'][case['day']]))


@st.composite
def ships(draw):
    extra = draw(st.lists(st.sampled_from(['Slp', 'SST', 'Wspd', 'QC1', 'dck', 'sid', 'Press', 'Hgt']), max_size=5, unique=True))
    before = draw(st.integers(0, len(extra)))
    columns = draw(st.permutations(['ID', 'Lat', 'Lon', 'year', 'month', 'day', 'hour'] + extra[:before])) + ['Air T'] + extra[before:]
    rows = draw(st.lists(st.tuples(
        st.text('ABC#019 ', min_size=1, max_size=7), st.integers(-900, 900), st.integers(-1800, 3599),
        st.dates(datetime(1850, 1, 1).date(), datetime(2050, 12, 31).date()).map(lambda d: [d.year, d.month, d.day]), st.integers(0, 2399), st.integers(-9000, 6000)), min_size=1, max_size=8))
    return {'columns': columns, 'rows': [[r[0]] + list(r[1:3]) + r[3] + list(r[4:]) for r in rows], 'other': draw(st.integers(-99999, 99999))}


def write_ships(case, folder):
    name, form = os.path.join(folder, 'ships.txt.gz'), os.path.join(folder, 'format.txt')
    with open(form, 'w') as handle:
        handle.write('Format of these files\n\n%s\n' % '  '.join(case['columns']))
    fields = ['ID', 'Lat', 'Lon', 'year', 'month', 'day', 'hour', 'Air T']
    with gzip.open(name, 'wb') as handle:
        for row in case['rows']:
            line = ''.join(str(row[fields.index(c)] if c in fields else case['other']).rjust(8) for c in case['columns'])
            handle.write((line + '\n').encode('ascii'))
    return name, HadNMAT2Format(form)


@facet(ships(), quick=700, thorough=8000, shards=2)
def ship_files(case):
    """Ships"""
    rows = case['rows']
    days = [(datetime(*r[3:6]) - EPOCH).days for r in rows]
    with scratch() as folder:
        name, form = write_ships(case, folder)
        source = ObservationSourceInsituOceanHadNMAT2(form, name)
        require(list(source.observables()) == ['Tmean'] and source.number_of_observations() == len(rows), 'observables %s, %s observations of %d', list(source.observables()), source.number_of_observations(), len(rows))
        require_close(source.observation_location_lookup(), numpy.array([[0.1 * r[1] for r in rows], [0.1 * r[2] for r in rows]]), 'locations', 0, 1e-4)
        expected = [(d, i, 0.01 * r[7] + 273.15, 1.1) for i, (d, r) in enumerate(zip(days, rows))]
        compare(source.observations('Tmean'), expected, 'ships')
        require(len(source.local_correlation_length_scale('Tmean')) == 0, 'correlation lengths')
        # as daily raw binary files with their own locations
        preparedailymobile.SOURCECLASS = {'insitu_ocean': lambda path: ObservationSourceInsituOceanHadNMAT2(form, path)}
        output, lookup = os.path.join(folder, 'day.bin'), os.path.join(folder, 'locations.bin')
        preparedailymobile.run_day(output, lookup, name, EPOCH + timedelta(days=days[0]), 'insitu_ocean', 'Tmean')
        table = LocationLookupRawBinaryReader().read(lookup)
        back = ObservationSourceSingleDayRawBinary(table, {'Tmean': ObservableFileSpec(output, [])}, days[0])
        compare(back.observations('Tmean'), [e for e in expected if e[0] == days[0]], 'raw binary file')
        require_close(back.observation_location_lookup(), source.observation_location_lookup(), 'locations of raw binary file', 0, 1e-4)
    return len(rows) > 1 and 'Air T' != case['columns'][7]


@st.composite
def lakes(draw):
    step = draw(st.sampled_from([0.05, 0.01, 0.25, 0.5]))
    limit = int(89 / step)
    places = draw(st.lists(st.tuples(st.integers(-limit, limit), st.integers(-2 * limit, 2 * limit)), min_size=1, max_size=5, unique=True))
    # shifted places: further along by whole steps in both directions
    for lat, lon in list(places):
        shift = draw(st.integers(-1, 1))
        ratio = draw(st.sampled_from([1, 2, 10, 36, 180, 360]))
        other = (lat + shift, lon - ratio * shift)
        if abs(other[1]) <= 2 * limit and abs(other[0]) <= limit and other not in places:
            places.append(other)
    rows = draw(st.lists(st.tuples(st.sampled_from(places), st.integers(0, 70000), st.integers(-4000, 4000)), min_size=1, max_size=12))
    order = draw(st.permutations(['DateTime', 'lat', 'lon', 'fTa', 'other']))
    return {'step': step, 'rows': [[list(p), d, t] for p, d, t in rows], 'order': list(order)}


@facet(lakes(), quick=700, thorough=8000, shards=2)
def lake_files(case):
    """Lakes"""
    rows = [(round(p[0] * case['step'] + case['step'] / 2, 6), round(p[1] * case['step'] + case['step'] / 2, 6), d, t * 0.01) for p, d, t in case['rows']]
    with scratch() as folder:
        name = os.path.join(folder, 'lakes.txt')
        with open(name, 'w') as handle:
            handle.write('\t'.join(case['order']) + '\n')
            for lat, lon, day, value in rows:
                fields = {'DateTime': (EPOCH + timedelta(days=day)).strftime('%Y-%m-%d'), 'lat': '%.6f' % lat, 'lon': '%.6f' % lon, 'fTa': '%.4f' % value, 'other': '7'}
                handle.write('\t'.join(fields[c] for c in case['order']) + '\n')
        source = ObservationSourceLakeReading(name)
        require(list(source.observables()) == ['Tmean'] and source.number_of_observations() == len(rows), 'observables %s, %s observations of %d', list(source.observables()), source.number_of_observations(), len(rows))
        table = source.observation_location_lookup()
        distinct = {(numpy.float32(r[0]), numpy.float32(r[1])) for r in rows}
        require(numpy.shape(table) == (2, len(distinct)), '%s locations, expected %d', numpy.shape(table), len(distinct))
        found = source.observations('Tmean')
        require(numpy.array_equal(found.mask, numpy.zeros(len(rows), bool)), 'mask %s', found.mask)
        require(numpy.array_equal(found.time, [r[2] for r in rows]), 'times %s', found.time)
        places = numpy.asarray(table)[:, numpy.asarray(found.location, int)]
        require_close(places, numpy.array([[r[0] for r in rows], [r[1] for r in rows]]), 'place of each observation', 0, 2e-5)
        require_close(found.measurement, [r[3] + 273.15 for r in rows], 'measurements', 0, 1e-4)
        require_close(found.uncorrelatederror, [5.0] * len(rows), 'uncertainty', 1e-6)
        require(len(found.locallycorrelatederror) == 0 and len(source.local_correlation_length_scale('Tmean')) == 0, 'correlated components')
        lookup, output = os.path.join(folder, 'lookup.bin'), os.path.join(folder, 'day.bin')
        preparelocationlookup.run(lookup, name, 'surfaceairmodel_lake')
        written = LocationLookupRawBinaryReader().read(lookup)
        require_close(written.lookuptable, table, 'locations written', 0, 0)
        for day in sorted({r[2] for r in rows})[:3]:
            preparedailyfixed.run_day(output, lookup, name, EPOCH + timedelta(days=day), 'surfaceairmodel_lake', 'Tmean')
            stored = ObservationRawBinaryReader(0).read_day(output, written.uuid, day)
            here = [r for r in rows if r[2] == day]
            require(stored.number_of_observations() == len(here), '%d lake observations on day %d, expected %d', stored.number_of_observations(), day, len(here))
            places = numpy.asarray(table)[:, numpy.asarray(stored.location, int)]
            require_close(places, numpy.array([[r[0] for r in here], [r[1] for r in here]]), 'place of each observation of the day', 0, 2e-5)
            require_close(stored.measurement, [r[3] + 273.15 for r in here], 'measurements of the day', 0, 1e-4)
    return 1 < len(distinct) < len(rows)


@st.composite
def pairs(draw):
    components = draw(st.integers(0, 3))
    pool = sorted(draw(st.sets(st.integers(0, 40), min_size=1, max_size=9)))
    def one():
        chosen = [p for p in pool if draw(st.integers(0, 4))]
        n = len(chosen)
        number = st.integers(0, 4000).map(lambda x: x / 16.0)
        return {'location': chosen, 'mask': draw(st.lists(st.booleans(), min_size=n, max_size=n)), 'value': draw(st.lists(number, min_size=n, max_size=n)), 'unc': draw(st.lists(number, min_size=n, max_size=n)),
                'corr': [draw(st.lists(number, min_size=n, max_size=n)) for _ in range(components)]}
    same = draw(st.booleans())
    a = one()
    b = one()
    if same:
        b = {'location': a['location'], 'mask': a['mask'][::-1], 'value': a['unc'], 'unc': a['value'], 'corr': [c[::-1] for c in a['corr']]}
    return {'a': a, 'b': b, 'time': draw(st.integers(0, 80000)), 'offset': draw(st.one_of(st.integers(0, 1000), st.integers(0, 6000000))), 'reversed': draw(st.integers(0, 3)) == 0, 'late': draw(st.integers(0, 3)) == 0, 'fewer': draw(st.integers(0, 3)) == 0}


def observations(part, time):
    return Observations(numpy.array(part['mask'], bool), time, numpy.array(part['location'], numpy.uint64), numpy.array(part['value'], numpy.float32), numpy.array(part['unc'], numpy.float32), [numpy.array(c, numpy.float32) for c in part['corr']])


@facet(pairs(), quick=3000, thorough=40000)
def joined(case):
    """Means and unions of two observation sets"""
    a, b, time = case['a'], case['b'], numpy.float32(case['time'])
    other = numpy.float32(case['time'] + 1) if case['late'] else time
    if case['fewer'] and b['corr']:
        b = dict(b, corr=b['corr'][1:])
    refuse = case['late'] or len(a['corr']) != len(b['corr'])
    if case['reversed'] and not refuse:
        turned = dict(b, location=b['location'][::-1], mask=b['mask'][::-1], value=b['value'][::-1], unc=b['unc'][::-1], corr=[c[::-1] for c in b['corr']])
        if len(set(a['location']) & set(b['location'])) > 1:
            require(raises(ValueError, Observations.mean, observations(a, time), observations(turned, other)), 'mean of observations at locations in another order')
    both = [(i, b['location'].index(p)) for i, p in enumerate(a['location']) if p in b['location']]
    if refuse:
        require(raises(ValueError, Observations.mean, observations(a, time), observations(b, other)), 'mean of observations which do not match')
        require(raises(ValueError, observations(a, time).append, observations(b, other), case['offset']), 'union of observations which do not match')
        return False
    left, right = observations(a, time), observations(b, other)
    mean = Observations.mean(left, right)
    require(list(mean.location) == [a['location'][i] for i, _ in both], 'locations %s', mean.location)
    require(mean.time == time, 'time %s', mean.time)
    require([bool(m) for m in mean.mask] == [a['mask'][i] or b['mask'][j] for i, j in both], 'mask %s', mean.mask)
    valid = [k for k, (i, j) in enumerate(both) if not (a['mask'][i] or b['mask'][j])]
    pick = lambda part, key, index: numpy.array([(part[key] if key != 'corr' else part['corr'][index[1]])[p] for p in index[0]], float)
    rms = lambda x, y: numpy.sqrt((x * x + y * y) / 2.0)
    ia, ib = [both[k][0] for k in valid], [both[k][1] for k in valid]
    require_close(mean.measurement[valid], (pick(a, 'value', (ia,)) + pick(b, 'value', (ib,))) / 2.0, 'mean of measurements', 1e-5)
    require_close(mean.uncorrelatederror[valid], rms(pick(a, 'unc', (ia,)), pick(b, 'unc', (ib,))), 'uncertainty of mean', 1e-5)
    require(len(mean.locallycorrelatederror) == len(a['corr']), 'components')
    for c in range(len(a['corr'])):
        require_close(mean.locallycorrelatederror[c][valid], rms(pick(a, 'corr', (ia, c)), pick(b, 'corr', (ib, c))), 'correlated uncertainty of mean', 1e-5)
    require(list(left.measurement) == list(numpy.float32(a['value'])) and list(right.mask) == b['mask'], 'the mean changes its arguments')
    # union with locations moved by an offset
    left.append(right, numpy.uint64(case['offset']))
    require([int(p) for p in left.location] == a['location'] + [p + case['offset'] for p in b['location']], 'locations of union %s', left.location)
    require([bool(m) for m in left.mask] == a['mask'] + b['mask'], 'mask of union')
    require_close(left.measurement, a['value'] + b['value'], 'measurements of union', 1e-6)
    require_close(left.uncorrelatederror, a['unc'] + b['unc'], 'uncertainty of union', 1e-6)
    for c in range(len(a['corr'])):
        require_close(left.locallycorrelatederror[c], a['corr'][c] + b['corr'][c], 'correlated uncertainty of union', 1e-6)
    require(left.number_of_observations() == len(a['value']) + len(b['value']) and left.time == time, 'number or time of union')
    return bool(both and len(both) < len(a['location']))


@facet(st.lists(st.sampled_from(['Tmin', 'Tmax', 'Tmean']), min_size=1, max_size=3, unique=True), quick=20, thorough=50)
def missing_source(case):
    """A source without data gives no observations of what it lists"""
    source = ObservationSourceMissing(case)
    require(list(source.observables()) == case, 'observables')
    for observable in ['Tmin', 'Tmax', 'Tmean']:
        if observable in case:
            found = source.observations(observable)
            require(found.number_of_observations() == 0 and len(found.mask) == 0 and len(found.location) == 0 and len(found.measurement) == 0, 'observations of a source without data')
        else:
            require(raises(ValueError, source.observations, observable), 'observations of something else')
    return len(case) > 1
