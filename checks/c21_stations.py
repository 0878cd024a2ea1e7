"""Cases: up to six stations with measurements of minima and maxima on any days and hours, in any order, some days missing at some
stations and times within the resolution of each other, plus breaks and their detection periods, put on a common time axis and
into station files. Oracle: a table of the measurements by station and time. A case is non-trivial when some station lacks a
measurement at a time of another, or times of two measurements differ by less than the resolution."""

import os

import netCDF4
import numpy
from hypothesis import strategies as st
from harness import facet, require, require_close, raises, scratch

from eustace.outputformats import definitions
from eustace.outputformats.stationdata import StationBreak, StationBreakDetectionQuality, StationData, StationDescription, StationDescriptionArray, StationTemperatureSample
from eustace.outputformats.stations import FileBuilderStationData

NAMES = st.one_of(st.text(st.characters(min_codepoint=32, max_codepoint=126), min_size=1, max_size=32).filter(lambda s: s.strip()), st.sampled_from(['Sofia', 'sofia', 'Sofi', 'A', 'X' * 32]))


@st.composite
def collections(draw):
    names = draw(st.lists(NAMES, min_size=1, max_size=6, unique=True))
    # times at least four resolutions apart, each seen with small differences
    days = draw(st.lists(st.one_of(st.integers(0, 80000), st.integers(60000, 60004)), min_size=1, max_size=6, unique=True))
    hour = st.sampled_from([0.0, 0.0, 0.25, 0.5, 0.998])
    times = sorted({d + draw(hour) for d in days})
    jitter = st.sampled_from([0.0, 0.0, 0.0001, -0.0001, 0.0002, -0.0002])
    samples = []
    for t in times:
        for name in draw(st.sets(st.sampled_from(names), min_size=1)):
            value = st.integers(-32767, 32767).map(lambda p: p * 0.005 + 273.15)
            flag = st.integers(0, 254)
            samples.append([name, t + draw(jitter), draw(value), draw(flag), draw(value), draw(flag)])
    samples = draw(st.permutations(samples))
    period = st.tuples(st.integers(0, 80000).map(float), st.integers(0, 2), st.integers(0, 2))
    bounds = st.tuples(st.integers(0, 160000).map(lambda x: x / 2.0), st.integers(0, 160000).map(lambda x: x / 2.0))
    breaks = st.lists(st.tuples(st.sampled_from(names), st.integers(-400, 400).map(lambda x: x / 32.0), bounds, bounds), max_size=4)
    return {'names': names, 'times': times, 'samples': samples, 'periods': draw(st.lists(period, max_size=4)), 'tasmin': draw(breaks), 'tasmax': draw(breaks), 'region': draw(st.sampled_from(['Example', 'eu', 'NH_Land']))}


def build(case):
    data = StationData(StationDescriptionArray([StationDescription(name, 1.0 * i, 2.0 * i, 3.0 * i) for i, name in enumerate(case['names'])]))
    for name, time, low, low_qc, high, high_qc in case['samples']:
        data.add_temperature_sample(StationTemperatureSample(name, time, low, low_qc, high, high_qc))
    for period in case['periods']:
        data.add_break_detection_period(StationBreakDetectionQuality(*period))
    for variable in [definitions.TASMIN, definitions.TASMAX]:
        for name, amplitude, bounds, affected in case[variable.name]:
            data.add_break(variable, StationBreak(name, amplitude, list(bounds), list(affected)))
    return data


COLUMNS = [(definitions.TASMIN, 2), (definitions.TASMIN_QC, 3), (definitions.TASMAX, 4), (definitions.TASMAX_QC, 5)]


def table(case, column):
    """values by time and station"""
    result, missing = numpy.zeros((len(case['times']), len(case['names']))), numpy.ones((len(case['times']), len(case['names'])), bool)
    for sample in case['samples']:
        row = int(numpy.argmin(numpy.abs(numpy.array(case['times']) - sample[1])))
        result[row, case['names'].index(sample[0])] = sample[column]
        missing[row, case['names'].index(sample[0])] = False
    return result, missing


def interesting(case):
    return bool(table(case, 2)[1].any() or len({s[1] for s in case['samples']}) > len(case['times']))


@facet(collections(), quick=1500, thorough=20000, shards=2)
def common_times(case):
    """Measurements on a common time axis"""
    data = build(case)
    found = data.get_unique_temperature_sample_times()
    require(len(found) == len(case['times']), '%d times, expected %d: %s', len(found), len(case['times']), found)
    require(list(found) == sorted(found), 'times are not in order: %s', found)
    require(all(any(t == s[1] for s in case['samples']) for t in found), 'times are not those of measurements: %s', found)
    require_close(found, case['times'], 'times', 0, 0.00021)
    for axis in [found, case['times']]:
        for variable, column in COLUMNS:
            values, missing = table(case, column)
            result = data.get_temperature_samples(axis, variable)
            require(result.shape == missing.shape and numpy.array_equal(numpy.ma.getmaskarray(result), missing), '%s: missing %s, expected %s', variable.name, numpy.ma.getmaskarray(result), missing)
            require_close(numpy.ma.getdata(result)[~missing], values[~missing], variable.name, 1e-7, 0)
    require(data.descriptions.get_station_names() == case['names'] and data.descriptions.get_number_of_stations() == len(case['names']), 'names of stations')
    require([data.descriptions.get_station_index(n) for n in case['names']] == list(range(len(case['names']))), 'numbers of stations')
    require(data.descriptions.get_station_index('no such station at all') is None, 'number of no station')
    # a measurement of no known station is never taken for one of the others
    data.add_temperature_sample(StationTemperatureSample('no such station at all', case['times'][0], 222.0, 1, 333.0, 1))
    for variable, column in COLUMNS:
        values, missing = table(case, column)
        try:
            result = data.get_temperature_samples(case['times'], variable)
        except (ValueError, KeyError, IndexError, TypeError):
            continue
        require(numpy.array_equal(numpy.ma.getmaskarray(result), missing), 'measurement of an unknown station is given to another')
        require_close(numpy.ma.getdata(result)[~missing], values[~missing], variable.name, 1e-7, 0)
    return interesting(case)


@facet(collections(), quick=250, thorough=4000, cost=4, shards=4)
def station_files(case):
    """Station files hold the same"""
    data = build(case)
    with scratch() as folder:
        builder = FileBuilderStationData(folder, case['region'], 'v7', 'institution', 'comment', 'history', 'source')
        times = data.get_unique_temperature_sample_times()
        builder.set_temperature_dimensions(data.descriptions, numpy.array(times))
        for variable, _ in COLUMNS:
            builder.add_temperature_variable(variable, data.get_temperature_samples(times, variable))
        for name in [definitions.DIMENSION_NAME_DETECTION_TIME, definitions.DIMENSION_NAME_TASMIN_BREAK, definitions.DIMENSION_NAME_TASMAX_BREAK]:
            builder.add_status_dimension(name)
        for variable in [definitions.DETECTION_TIME, definitions.TASMIN_DETECTION_QC, definitions.TASMAX_DETECTION_QC]:
            builder.add_status_variable(definitions.DIMENSION_NAME_DETECTION_TIME, variable, data.get_break_detection_quality_variable(variable))
        for dimension, prefix in [(definitions.DIMENSION_NAME_TASMIN_BREAK, 'TASMIN_BREAK_'), (definitions.DIMENSION_NAME_TASMAX_BREAK, 'TASMAX_BREAK_')]:
            for suffix in ['STATION', 'AMPLITUDE', 'TIME_BOUNDS', 'TIME_AFFECTED_BOUNDS']:
                variable = getattr(definitions, prefix + suffix)
                builder.add_status_variable(dimension, variable, data.get_break_variable(variable), bounds=suffix.endswith('BOUNDS'))
        builder.save_and_close()
        names = {k: 'eustace_stations_%s_v7_%s.nc' % (case['region'].lower(), k) for k in ['temperature', 'status']}
        require(sorted(os.listdir(folder)) == sorted(names.values()), 'files %s', os.listdir(folder))
        with netCDF4.Dataset(os.path.join(folder, names['temperature'])) as nc:
            require(nc.featureType == 'timeSeries' and nc.title.endswith('at Stations') and [nc.institution, nc.comment, nc.history, nc.source] == ['institution', 'comment', 'history', 'source'], 'attributes of the file')
            nc.set_auto_mask(False)
            raw = [bytes(b''.join(row)).rstrip(b'\0').decode('ascii') for row in nc.variables['station_name'][:]] if len(case['names']) else []
            require(raw == case['names'], 'names %s, expected %s', raw, case['names'])
            found = nc.variables['time'][:]
            require(numpy.array_equal(found, numpy.array(times).astype(found.dtype)), 'times %s, expected %s', found, times)
            require(nc.variables['time'].units == 'days since 1850-01-01T00:00:00Z', 'unit of time %s', nc.variables['time'].units)
            bounds = nc.variables[nc.variables['time'].bounds][:]
            require_close(bounds, numpy.array([times, numpy.array(times) + 1.0]).T, 'bounds of time', 0, 0.005)
            for variable, column in COLUMNS:
                values, missing = table(case, column)
                found = nc.variables[variable.name]
                require(found.dimensions == ('time', 'station'), '%s over %s', variable.name, found.dimensions)
                found.set_auto_scale(False)
                raw = found[:]
                require(numpy.array_equal(raw == found.getncattr('_FillValue'), missing), '%s: missing %s, expected %s', variable.name, raw == found.getncattr('_FillValue'), missing)
                scaled = raw * getattr(found, 'scale_factor', 1.0) + getattr(found, 'add_offset', 0.0)
                require_close(scaled[~missing], values[~missing], variable.name, 0, 0.0026 if column % 2 == 0 else 0)
        with netCDF4.Dataset(os.path.join(folder, names['status'])) as nc:
            require(nc.title.endswith('Station Status'), 'title %r', nc.title)
            for column, name in enumerate(['detection_time', 'tasmin_detection_qc', 'tasmax_detection_qc']):
                require(numpy.array_equal(numpy.ma.getdata(nc.variables[name][:]), numpy.array([p[column] for p in case['periods']], float)), '%s %s', name, nc.variables[name][:])
            for which in ['tasmin', 'tasmax']:
                expected = case[which]
                require(list(nc.variables[which + '_break_station'][:]) == [case['names'].index(b[0]) for b in expected], 'stations of breaks: %s', nc.variables[which + '_break_station'][:])
                for column, name in enumerate(['amplitude', 'time_bounds', 'time_affected_bounds']):
                    found = nc.variables[which + '_break_' + name]
                    require(found.dimensions == (which + '_break',) + (('bounds',) if column else ()), '%s over %s', name, found.dimensions)
                    require(numpy.array_equal(numpy.ma.getdata(found[:]), numpy.array([b[column + 1] for b in expected], float).reshape(found.shape)), '%s of breaks: %s', name, found[:])
    return interesting(case)
