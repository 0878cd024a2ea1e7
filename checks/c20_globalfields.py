"""Cases: variables of every integer and float type with any fill value, scale, offset and attributes on small grids, and all
defined variables on the full global grid, with values over the whole packing range (its ends and half steps included), any
mask and any day; variables derived from templates. Oracle: the given values, half a packing step, and the definition itself.
A case is non-trivial when it has both masked and unmasked values (templates: when a keyword is replaced)."""

import io
import os
from contextlib import redirect_stdout
from datetime import datetime, timedelta

import netCDF4
import numpy
from hypothesis import strategies as st
from harness import facet, require, require_close, scratch, TIER

from eustace.outputformats import definitions
from eustace.outputformats.filebuilder import FileBuilder
from eustace.outputformats.globalfield import GlobalFieldAxes2D, GlobalFieldAxes2DWithTime
from eustace.outputformats.globalfield_filebuilder import DatasetAttributesGlobalField, FileBuilderGlobalField
from eustace.outputformats.outputvariable import OutputVariable, OutputVariableTemplate

INTEGERS = {'int8': 127, 'uint8': 255, 'int16': 32767, 'uint16': 65535, 'int32': 2 ** 31 - 1}
texts = st.text(st.characters(codec='utf-8', exclude_categories=('Cs', 'Cc')), min_size=1, max_size=12)
FREE = ['standard_name', 'units', 'cell_methods', 'cf_role', 'flag_meanings', 'calendar', 'bounds', 'ancillary_variables', 'axis', 'length_scale_units', 'time_scale_units']
NUMERIC = ['length_scale', 'time_scale']


@st.composite
def variables(draw):
    dtype = draw(st.sampled_from(sorted(INTEGERS) + ['int16', 'int16', 'float32', 'float64']))
    meta = {key: draw(texts) for key in draw(st.sets(st.sampled_from(FREE), max_size=4))}
    for key in draw(st.sets(st.sampled_from(NUMERIC), max_size=1)):
        meta[key] = draw(st.integers(-1000, 1000)) / 4.0
    if dtype in INTEGERS and draw(st.booleans()):
        meta['scale_factor'] = draw(st.sampled_from([0.005, 0.001, 1.5625e-05, 0.1, 2.0, 1.0]))
        meta['add_offset'] = draw(st.sampled_from([0.0, 273.15, 0.5, -20.0]))
    if dtype in INTEGERS:
        high = INTEGERS[dtype]
        low = 0 if dtype.startswith('u') else -high - 1
        fill = draw(st.sampled_from([low, high, 0, 7]))
        packed = st.one_of(st.sampled_from([low, low + 1, high, high - 1, 0, 1]), st.integers(low, high)).filter(lambda x: x != fill)
        part = st.sampled_from([0.0, 0.0, 0.25, -0.375, 0.4375]) if 'scale_factor' in meta else st.just(0.0)
    else:
        fill = draw(st.sampled_from([-32768.0, -999.0, 1e20]))
        packed, part = st.integers(-10 ** 6, 10 ** 6).map(lambda x: x / 64.0).filter(lambda x: x != fill), st.just(0.0)
    shape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    n = int(numpy.prod(shape))
    return {'name': draw(st.sampled_from(['tas', 'x', 'tas_unc_rand', 'Other'])), 'long': draw(st.none() | texts), 'dtype': dtype, 'fill': fill, 'meta': meta, 'shape': shape, 'packed': [draw(packed) for _ in range(n)], 'part': [draw(part) for _ in range(n)],
            'mask': [draw(st.booleans()) for _ in range(n)] if draw(st.booleans()) else None, 'level': draw(st.sampled_from([0, 0, 1, 5])), 'unlimited': draw(st.booleans())}


def compare_attributes(found, variable, name):
    expected = {k: v for k, v in variable.items() if v is not None}
    got = {k: found.getncattr(k) for k in found.ncattrs() if k != '_FillValue'}
    require(sorted(got) == sorted(expected), 'attributes of %s are %s, expected %s', name, sorted(got), sorted(expected))
    for key, value in expected.items():
        require(numpy.array_equal(numpy.asarray(got[key]), numpy.asarray(value)), 'attribute %s of %s is %r, expected %r', key, name, got[key], value)


def compare_values(found, values, mask, scale, what, exact):
    require(numpy.array_equal(numpy.ma.getmaskarray(found), mask), '%s: %d values missing, expected %d', what, int(numpy.ma.getmaskarray(found).sum()), int(mask.sum()))
    difference = numpy.abs(numpy.ma.getdata(found)[~mask].astype(float) - values[~mask])
    limit = 0.0 if exact else scale * 0.5 * (1 + 1e-6) + 1e-12 * numpy.abs(values[~mask]) + 1e-9 * scale
    require(numpy.all(difference <= limit), '%s: value off by %s (packing step %s)', what, difference.max() if difference.size else 0, scale)


@facet(variables(), quick=900, thorough=15000, cost=2, shards=2)
def one_variable(case):
    """Any variable on a small grid"""
    meta = case['meta']
    scale, offset = meta.get('scale_factor', 1.0), meta.get('add_offset', 0.0)
    values = ((numpy.array(case['packed'], float) + numpy.array(case['part'])) * scale + offset).reshape(case['shape'])
    ends = {'uint8': (0, 255), 'uint16': (0, 65535)}.get(case['dtype'], (-INTEGERS.get(case['dtype'], 2 ** 62) - 1, INTEGERS.get(case['dtype'], 2 ** 62)))
    packed = numpy.around((values - offset) / scale)
    # what rounds to the fill value or out of the range is not representable
    if numpy.any(packed > ends[1]) or numpy.any(packed < ends[0]) or numpy.any(packed == case['fill']):
        return False
    if case['dtype'] == 'float32':
        values = values.astype(numpy.float32).astype(float)
    mask = numpy.array(case['mask'] or [False] * values.size).reshape(values.shape)
    variable = OutputVariable(case['name'], numpy.dtype(case['dtype']), numpy.dtype(case['dtype']).type(case['fill']), long_name=case['long'], **meta)
    given = values if case['mask'] is None else numpy.ma.masked_array(values, mask)
    before = values.copy()
    with scratch() as folder:
        path = os.path.join(folder, 'a.nc')
        builder = FileBuilder()
        builder.create(path, 'title', 'institution', 'comment', 'history', 'source')
        for i, n in enumerate(case['shape']):
            builder.add_dimension('d%d' % i, None if i == 0 and case['unlimited'] else n)
        builder.add_variable(variable, tuple('d%d' % i for i in range(len(case['shape']))), given, complevel=case['level'])
        builder.save_and_close()
        with netCDF4.Dataset(path) as nc:
            found = nc.variables[case['name']]
            require(found.dtype == numpy.dtype(case['dtype']), 'type %s, expected %s', found.dtype, case['dtype'])
            require(found.getncattr('_FillValue') == numpy.dtype(case['dtype']).type(case['fill']), 'fill value %s, expected %s', found.getncattr('_FillValue'), case['fill'])
            require(found.dimensions == tuple('d%d' % i for i in range(len(case['shape']))) and found.shape == tuple(case['shape']), 'dimensions %s of %s', found.dimensions, found.shape)
            compare_attributes(found, dict(meta, long_name=case['long']), case['name'])
            compare_values(found[:], values, mask, abs(scale), 'variable', case['dtype'] not in INTEGERS or 'scale_factor' not in meta)
            require({k: nc.getncattr(k) for k in nc.ncattrs()} == {'Conventions': 'CF-1.6', 'title': 'title', 'institution': 'institution', 'comment': 'comment', 'history': 'history', 'source': 'source'}, 'attributes of the file: %s', nc.ncattrs())
    require(numpy.array_equal(values, before), 'given values are changed')
    return bool(mask.any() and not mask.all())


DEFINED = sorted(name for name, v in vars(definitions).items() if isinstance(v, OutputVariable) and v.scale_factor is not None)
STEP = {'temperature': (0.005, 273.15), 'uncertainty': (0.001, 0.0), 'fraction': (1.5625e-05, 0.5), 'perturbation': (0.005, 0.0), 'number': (1, 0)}


def packing(name):
    """scale and offset each kind of output is specified to have"""
    if 'MODELNUMBER' in name:
        return STEP['number']
    if 'PERTURBATION' in name:
        return STEP['perturbation']
    if 'FRACTION' in name or 'INFLUENCE' in name:
        return STEP['fraction']
    if 'UNC' in name:
        return STEP['uncertainty']
    return STEP['temperature']


global_cases = st.fixed_dictionaries({'variables': st.lists(st.sampled_from(DEFINED), min_size=1, max_size=3, unique=True), 'day': st.one_of(st.integers(0, 65000), st.sampled_from([0, 58, 59, 364, 365, 60000])), 'seed': st.integers(0, 10 ** 6), 'masked': st.sampled_from([0.0, 0.3, 0.999]),
                                      'dataset': st.text(st.characters(codec='ascii', categories=('L', 'N')), min_size=1, max_size=8), 'parameter': st.none() | st.tuples(st.just('unc_parameter_0_tas'), texts), 'texts': st.lists(texts, min_size=4, max_size=4)})


@facet(global_cases, quick=24, thorough=260, cost=20, shards=4)
def global_files(case):
    """Whole files"""
    r = numpy.random.RandomState(case['seed'])
    day, chosen, seen = case['day'], [], set()
    for name in case['variables']:
        variable = getattr(definitions, name)
        if variable.name not in seen:
            seen.add(variable.name)
            chosen.append((variable, packing(name)))
    attributes = DatasetAttributesGlobalField(case['dataset'], '1', chosen[0][0].name, *case['texts'])
    when = datetime(1850, 1, 1) + timedelta(days=day)
    with scratch() as folder:
        path = attributes.build_pathname(folder, day)
        expected = os.path.join(folder, '%04d' % when.year, '%s_%s_eustace_0_%04d%02d%02d.nc' % (chosen[0][0].name, case['dataset'].lower(), when.year, when.month, when.day))
        require(path == expected, 'file name %s, expected %s', path, expected)
        builder = FileBuilderGlobalField(path, day, case['dataset'], '1', chosen[0][0].name, *case['texts'])
        fields = {}
        items = [(v.name, v, s) for v, s in chosen]
        if case['parameter']:
            items.append((case['parameter'][0], None, STEP['uncertainty']))
        for name, variable, (scale, offset) in items:
            values = r.randint(-32767, 32768, size=(1, 720, 1440)).astype(float)
            if scale == 1:
                values = numpy.where(values == 0, 1, values)
            else:
                values = values + numpy.clip(r.uniform(-0.49, 0.49, size=values.shape), -0.49 * (values > -32767), 0.49 * (values < 32767))
            values = values * scale + offset
            mask = r.uniform(size=values.shape) < case['masked']
            fields[name] = (values, mask, scale)
            given = numpy.ma.masked_array(values, mask) if case['masked'] else values
            if variable is None:
                builder.add_uncertainty_parameter(name, case['parameter'][1], given)
            else:
                builder.add_global_field(variable, given)
        builder.save_and_close()
        with netCDF4.Dataset(path) as nc:
            require(nc.title == 'EUSTACE Surface Air Temperature Estimates ' + case['dataset'], 'title %r', nc.title)
            require([nc.institution, nc.comment, nc.history, nc.source] == case['texts'], 'attributes of the file')
            require(nc.Conventions == 'CF-1.6', 'conventions %r', nc.Conventions)
            require(float(nc.variables['time'][0]) == day and nc.variables['time'].shape == (1,), 'time %s', nc.variables['time'][:])
            require(netCDF4.num2date(nc.variables['time'][0], nc.variables['time'].units, only_use_cftime_datetimes=False, only_use_python_datetimes=True) == when, 'time in its own units')
            require([float(x) for x in nc.variables['timebounds'][:].ravel()] == [day, day + 1] and nc.variables['time'].bounds == 'timebounds', 'time bounds %s', nc.variables['timebounds'][:])
            lat, lon = nc.variables['latitude'][:], nc.variables['longitude'][:]
            require_close(lat, -89.875 + 0.25 * numpy.arange(720), 'latitudes', 0, 1e-5)
            require_close(lon, -179.875 + 0.25 * numpy.arange(1440), 'longitudes', 0, 2e-5)
            require_close(nc.variables['timeoffset'][:], (-179.875 + 0.25 * numpy.arange(1440)) / 360.0, 'local time', 0, 1e-6)
            require(nc.variables['latitude'].units == 'degrees_north' and nc.variables['longitude'].units == 'degrees_east' and nc.variables['timeoffset'].units == 'days', 'units of coordinates')
            require(sorted(nc.variables) == sorted(list(fields) + ['time', 'timebounds', 'latitude', 'longitude', 'timeoffset']), 'variables %s', sorted(nc.variables))
            for name, variable, (scale, offset) in items:
                values, mask, _ = fields[name]
                found = nc.variables[name]
                require(found.dimensions == ('time', 'latitude', 'longitude') and found.dtype == numpy.int16, '%s: dimensions %s, type %s', name, found.dimensions, found.dtype)
                require(found.scale_factor == scale and found.add_offset == offset, '%s: packed by %s from %s', name, found.scale_factor, found.add_offset)
                compare_values(found[:], values, mask, scale, name, False)
                if variable is None:
                    require(found.long_name == case['parameter'][1] and found.units == 'K', '%s: attributes', name)
                else:
                    compare_attributes(found, {k: v for k, v in vars(variable).items() if k not in ('name', 'dtype', 'fill_value', 'template_long_name')}, name)
                    require(found.getncattr('_FillValue') == variable.fill_value, '%s: fill value', name)
            axes = GlobalFieldAxes2DWithTime(day)
            require_close(axes.latitude.axis_coordinates().points, lat, 'latitude axis', 0, 1e-4)
            require_close(axes.longitude.axis_coordinates().points, lon, 'longitude axis', 0, 1e-4)
            require(list(axes.time.axis_coordinates().points) == [day], 'time axis %s', axes.time)
            require([a.var_name for a in axes.aslist()] == ['time', 'latitude', 'longitude'] and [a.var_name for a in GlobalFieldAxes2D().aslist()] == ['latitude', 'longitude'], 'order of axes')
    return 0 < case['masked']


keywords = st.sampled_from(['quantity', 'component', 'source', 'x_1'])
pieces = st.one_of(st.sampled_from(['daily ', 'Uncertainty in ', ' of ', 'a', 'B', '']), keywords.map(lambda k: '{' + k + '}'))


@facet(st.fixed_dictionaries({'template': st.none() | st.lists(pieces, min_size=1, max_size=5), 'words': st.fixed_dictionaries({k: texts.filter(lambda t: '{' not in t) for k in ['quantity', 'component', 'source', 'x_1']}),
                              'base': st.dictionaries(st.sampled_from(FREE), texts, max_size=4), 'extend': st.dictionaries(st.sampled_from(FREE), texts, max_size=3), 'own': st.dictionaries(st.sampled_from(FREE), texts, max_size=3), 'long': st.none() | texts, 'twice': st.booleans()}), quick=800, thorough=10000)
def templates(case):
    """Variables made from templates have the template's attributes, extended and overridden, and its long name filled in"""
    text = None if case['template'] is None else ''.join(case['template'])
    base = OutputVariableTemplate(numpy.int16, -5, template_long_name=text, scale_factor=0.5, **case['base'])
    made = OutputVariableTemplate.extend(base, **case['extend'])
    used = {k: v for k, v in case['words'].items() if text is not None and '{' + k + '}' in text}
    variable = OutputVariable.from_template(made, 'name', case['long'], **dict(case['own'], **used))
    expected = dict(case['base'], scale_factor=0.5)
    expected.update(case['extend'])
    expected.update(case['own'])
    long_name = case['long']
    if long_name is None and text is not None:
        long_name = text
        for k, v in used.items():
            long_name = long_name.replace('{' + k + '}', v)
        if len(long_name) > 1:
            long_name = long_name[0].upper() + long_name[1:]
    if long_name is not None:
        expected['long_name'] = long_name
    require(variable.name == 'name' and variable.dtype == numpy.int16 and variable.fill_value == -5, 'name, type or fill value')
    require(variable.get_metadata() == expected, 'attributes %s, expected %s', variable.get_metadata(), expected)
    first = dict(case['base'], scale_factor=0.5)
    require(base.get_metadata() == first, 'the template is changed: %s, expected %s', base.get_metadata(), first)
    require(sorted(set(made.get_template_long_name_keywords())) == sorted(used), 'keywords %s', made.get_template_long_name_keywords())
    return bool(used)
