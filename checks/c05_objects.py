"""Cases: nested objects (classes and dictionaries of text, integers, floats, times, lists and tables of them, lists of
simple and of nested objects, missing members), and whole catalogues (data sets, subsets, entries with and without
time, tags, size and checksum, operations with their parameters), written as NetCDF or JSON and read back, in part or
whole. Oracle: equality with the object written (a missing member, an empty list and empty text are one and the same;
trailing empty texts of a table row are padding). A case is non-trivial when it has at least one list or nested object."""

import datetime
import io
import os

from hypothesis import strategies as st
from harness import facet, require, scratch
import genobjects

from eumopps.catalogue import placeholder, step
from eumopps.catalogue.catalogue import Catalogue
from eumopps.catalogue.datareference import DataReference, reference_integers_to_list, reference_list_to_integers
from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset, CatalogueFileEntry
from eumopps.catalogue.fileio.formatjson import CatalogueReaderJSON, CatalogueWriterJSON
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF, CatalogueWriterNetCDF
from eumopps.catalogue.operation import Operation
from eumopps.catalogue.operationparameters import OperationParameterList, OperationFileReference, OperationFileListReference
from eumopps.catalogue.storage import DataStorageFiles, DataStorageTar, DataStorageTarGZip
from eumopps.jsonobjects import jsonobjects
from eumopps.netcdfobjects import netcdfobjects

CLASSES = {'Thing': genobjects.Thing, 'Other': genobjects.Other, 'Catalogue': Catalogue, 'DataSet': CatalogueDataSet, 'Subset': CatalogueDataSubset,
           'Entry': CatalogueFileEntry, 'Files': DataStorageFiles, 'Operation': Operation, 'ParameterList': OperationParameterList,
           'FileReference': OperationFileReference, 'FileListReference': OperationFileListReference, 'Daily': step.StepDaily, 'Once': step.StepOnce,
           'Runner': genobjects.Runner, 'InputFile': placeholder.InputFile, 'OutputFile': placeholder.OutputFile, 'StepTime': placeholder.StepTime}

# ---------------------------------------------------------------- objects

short = st.text(alphabet='abcXYZ012 _-./%:', min_size=1, max_size=12)
words = st.one_of(short, short, short, short, short, short, short, st.builds(lambda s, n: (s * n)[:n], short, st.integers(13, 400)))
integers = st.one_of(st.integers(-5, 5), st.integers(-2 ** 31 + 1, 2 ** 31 - 1), st.integers(-2 ** 53, 2 ** 53), st.integers(-2 ** 62, 2 ** 62))
floats = st.one_of(st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([0.0, 0.1, -1.5, 1e-300, 1e300]))
times = st.datetimes(datetime.datetime(1700, 1, 1), datetime.datetime(2200, 1, 1)).map(lambda t: t.replace(microsecond=0))
MEMBERS = ['alpha', 'beta', 'gamma', 'delta']


def optional(s):
    return st.one_of(s, s, s, st.none())


def lists(s):
    return st.one_of(st.lists(s, min_size=1, max_size=5), st.lists(s, min_size=1, max_size=5), st.lists(s, min_size=9, max_size=13))


simple = st.one_of(words, integers, floats, times)
simple_list = st.one_of(lists(words), lists(optional(integers)), lists(optional(floats)), lists(optional(times)), lists(integers), lists(floats), lists(times))
table = st.one_of(st.lists(st.lists(integers, max_size=4), min_size=1, max_size=4).filter(lambda t: any(t)),
                  st.lists(st.lists(floats, max_size=4), min_size=1, max_size=4).filter(lambda t: any(t)),
                  st.lists(st.lists(words, max_size=8), min_size=1, max_size=4).filter(lambda t: any(t)))


def members(values, min_size=1):
    return st.dictionaries(st.sampled_from(MEMBERS), values, min_size=min_size, max_size=4)


def objects(values, min_size=1):
    return st.builds(lambda m, c: dict(m, **{'@': c}) if c else m, members(values, min_size), st.sampled_from(['Thing', 'Other', None, 'Thing']))


@st.composite
def uniform_objects(draw):
    """A list of simple objects with the same members."""
    kinds = draw(members(st.sampled_from(['words', 'integers', 'floats', 'times', 'tags', 'numbers', 'reals'])))
    cls = draw(st.sampled_from(['Thing', 'Other', None]))
    table_of = {'words': optional(words), 'integers': optional(integers), 'floats': optional(floats), 'times': optional(times),
                'tags': st.integers(1, 6).flatmap(lambda n: st.lists(words, min_size=n, max_size=n)) if draw(st.booleans()) else st.lists(words, min_size=2, max_size=2),
                'numbers': st.lists(integers, min_size=1, max_size=3), 'reals': st.lists(floats, min_size=1, max_size=3)}
    out = []
    for _ in range(draw(st.integers(1, 5))):
        o = {k: draw(table_of[v]) for k, v in sorted(kinds.items())}
        if cls:
            o['@'] = cls
        out.append(o)
    return out


simple_object = objects(st.one_of(simple, simple_list))
values = st.recursive(st.one_of(simple, simple_list, table, simple_object, uniform_objects()),
                      lambda inner: st.one_of(objects(inner), st.lists(objects(inner).map(lambda o: dict(o, zeta={'@': 'Other', 'alpha': 'nested', 'beta': {'alpha': 1}})), min_size=1, max_size=3)), max_leaves=8)


def construct(spec):
    if isinstance(spec, dict):
        m = {k: construct(v) for k, v in spec.items() if k != '@'}
        return make(spec['@'], m) if '@' in spec else m
    if isinstance(spec, list):
        return [construct(v) for v in spec]
    return spec


def make(name, m):
    return CLASSES[name](**m)


def blank(x):
    return x is None or (isinstance(x, (list, str)) and len(x) == 0)


def normal(x):
    """A plain form of an object in which missing, empty and padding are the same."""
    import numpy
    if hasattr(x, '__dict__') and not isinstance(x, type):
        d = {k: normal(v) for k, v in x.__dict__.items()}
        d = {k: v for k, v in d.items() if not blank(v)}
        d['@'] = x.__class__.__module__.split('.')[-1] + '.' + x.__class__.__name__
        return d
    if isinstance(x, dict):
        d = {str(k): normal(v) for k, v in x.items()}
        return {k: v for k, v in d.items() if not blank(v)}
    if isinstance(x, numpy.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        out = [normal(v) for v in x]
        if out and all(v is None or isinstance(v, str) for v in out):
            out = [v or '' for v in out]
            while out and out[-1] == '':
                out.pop()
        return out
    if isinstance(x, numpy.generic):
        return x.item()
    return x


def same(a, b):
    if type(a) != type(b):
        return False
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return a == b


def require_same(loaded, original, what):
    a, b = normal(loaded), normal(original)
    require(same(a, b), '%s: read %s, written %s', what, str(a)[:700], str(b)[:700])


@facet(values, quick=500, thorough=15000, shards=3)
def netcdf_objects(case):
    """any supported object written as NetCDF is read back equal"""
    original = construct(case)
    with scratch() as root:
        path = os.path.join(root, 'o.nc')
        nc = netcdfobjects.nc_open_for_save(path)
        holder = genobjects.Thing(item=original, other=genobjects.Thing(deep=genobjects.Thing(name='n')))
        netcdfobjects.save_complex_python_object(nc, None, holder)
        nc.close()
        nc = netcdfobjects.nc_open_for_load(path)
        loaded = netcdfobjects.load_object(nc)
        nc.close()
        require_same(loaded, construct({'@': 'Thing', 'item': case, 'other': {'@': 'Thing', 'deep': {'@': 'Thing', 'name': 'n'}}}), 'NetCDF object')
    return isinstance(case, (list, dict))


@facet(values, quick=1500, thorough=40000)
def json_objects(case):
    """any object written as JSON is read back equal"""
    stream = io.StringIO()
    jsonobjects.save(stream, construct(case))
    stream.seek(0)
    loaded = jsonobjects.load(stream)
    require_same(loaded, construct(case), 'JSON object')
    return isinstance(case, (list, dict))


# ---------------------------------------------------------------- catalogues

@st.composite
def entries(draw):
    n = draw(st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(9, 13), st.sampled_from([3, 40])))
    ntags = draw(st.integers(0, 3))
    timed = draw(st.sampled_from(['all', 'none', 'some']))
    some = draw(st.sampled_from(['all', 'none', 'some']))
    out = []
    for i in range(n):
        e = {'@': 'Entry', 'name': '%s%d.nc' % (draw(words), i), 'tags': [draw(words) for _ in range(ntags)]}
        if timed == 'all' or (timed == 'some' and draw(st.booleans())):
            e['time'] = draw(times)
        if some == 'all' or (some == 'some' and draw(st.booleans())):
            e['checksum'] = str(draw(st.integers(0, 2 ** 32)))
            e['size'] = draw(st.integers(0, 2 ** 40))
        out.append(e)
    return out


@st.composite
def catalogues(draw):
    datasets = []
    for d in range(draw(st.sampled_from([1, 2, 3, 1, 2, 3, 1, 2, 3, 11]))):
        subsets = []
        for _ in range(draw(st.sampled_from([1, 2, 3, 1, 2, 3, 1, 2, 3, 11])) if d < 2 else 1):
            layout = {'@': 'Files', 'patterns': draw(st.lists(words, min_size=1, max_size=2))}
            subsets.append({'@': 'Subset', 'layout': layout, 'matches': draw(entries()),
                            'value_errors': draw(st.lists(words, max_size=2)), 'archive_unused': draw(st.one_of(st.just([]), st.lists(st.lists(words, min_size=1, max_size=3), min_size=1, max_size=3)))})
        datasets.append({'@': 'DataSet', 'name': 'set%d' % d, 'path': '/' + draw(st.text(alphabet='ab/', max_size=5)) + 'p', 'toolchain': draw(st.lists(words, max_size=2)),
                         'subsets': subsets, 'non_matching': draw(st.lists(words, max_size=3))})
    operations = []
    for o in range(draw(st.sampled_from([0, 1, 2, 3, 1, 2, 3, 1, 2, 3, 1, 2, 3, 1, 2, 21]))):
        count = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(9, 14)))
        refs = []
        for d, ds in enumerate(datasets):
            for s, sub in enumerate(ds['subsets']):
                refs.extend([d, s, e] for e in range(len(sub['matches'])))
        runmodule = {'python_function': 'genobjects.record%d' % o} if draw(st.booleans()) else {'@': 'Runner'}
        runmodule['plain'] = draw(simple.filter(lambda v: not isinstance(v, datetime.datetime)))
        if draw(st.booleans()):
            runmodule['numbers'] = {'@': 'ParameterList', 'operation_parameters': draw(st.lists(integers, min_size=count, max_size=count))}
        if draw(st.booleans()):
            runmodule['days'] = {'@': 'ParameterList', 'operation_parameters': draw(st.lists(times, min_size=count, max_size=count))}
        if refs:
            runmodule['one'] = {'@': 'FileReference', 'operation_parameters': draw(st.lists(st.sampled_from(refs + [refs[0][:2] + [-1]]), min_size=count, max_size=count))}
            runmodule['several'] = {'@': 'FileListReference', 'operation_parameters': [sum(draw(st.lists(st.sampled_from(refs), min_size=1, max_size=3)), []) for _ in range(count)]}
            runmodule['nested'] = {'again': [runmodule['one'], runmodule['several']], 'flag': 3}
        start = draw(times)
        operations.append({'@': 'Operation', 'runmodule': runmodule, 'name': 'operation%d' % o, 'count': count, 'toolchain': draw(st.lists(words, min_size=1, max_size=2)),
                           'step': {'@': 'Daily', 'start': start, 'end': start + datetime.timedelta(days=count - 1)}})
    return {'@': 'Catalogue', 'datasets': datasets, 'identifier': draw(words), 'operations': operations}


@facet(catalogues(), quick=240, thorough=6000, shards=4)
def netcdf_catalogues(case):
    """a catalogue written as NetCDF is read back equal, whole and in part"""
    with scratch() as root:
        path = os.path.join(root, 'c.nc')
        CatalogueWriterNetCDF().save(path, construct(case))
        reader = CatalogueReaderNetCDF()
        require_same(reader.load(path), construct(case), 'catalogue')
        require(reader.load_identifier(path) == case['identifier'], 'identifier %r', reader.load_identifier(path))
        for o in case['operations']:
            require_same(reader.load_operation(path, o['name']), construct(o), 'operation %s' % o['name'])
            require(reader.operationcount(path, o['name']) == o['count'], 'count %r of %r', reader.operationcount(path, o['name']), o['count'])
            for batch in (1, 2, 3, o['count'], o['count'] + 1):
                expected = -(-o['count'] // batch)
                require(reader.operationcount(path, o['name'], batch) == expected, '%r batches of %d for %d operations', reader.operationcount(path, o['name'], batch), batch, o['count'])
            if 'python_function' in o['runmodule']:
                require_same(reader.load_operation(path, o['runmodule']['python_function']), construct(o), 'operation by function name')
        if case['operations']:
            require(reader.operationcount(path, 'no such operation') == 0, 'count of an operation that does not exist')
        refs = [DataReference(d, s, e) for d, ds in enumerate(case['datasets']) for s, sub in enumerate(ds['subsets']) for e in range(-1, len(sub['matches']))
                if sub['matches']]
        expected = [os.path.join(case['datasets'][r.dataset]['path'], case['datasets'][r.dataset]['subsets'][r.subset]['matches'][r.entry]['name']) if r.entry >= 0 else None for r in refs]
        found = reader.load_data_pathnames(path, refs)
        require(found == expected, 'path names %r, expected %r', found, expected)
        flat = reference_list_to_integers(refs)
        require([r.aslist() for r in reference_integers_to_list(flat)] == [r.aslist() for r in refs], 'references change when flattened')
        # writing what was read gives the same again
        again = os.path.join(root, 'c2.nc')
        CatalogueWriterNetCDF().save(again, reader.load(path))
        require_same(reader.load(again), construct(case), 'catalogue written a second time')
    return True


@facet(st.tuples(st.integers(0, 400), st.integers(0, 2 ** 20), st.booleans()).flatmap(lambda c: st.tuples(st.just(c[0]), st.lists(st.tuples(*3 * [st.integers(-1, c[1])]), max_size=6), st.just(c[2]))), quick=300, thorough=5000)
def references(case):
    """references to files survive being stored as numbers, however many there are"""
    n, some, numpy_numbers = case
    import numpy
    items = (list(some) * (n // max(1, len(some)) + 1))[:n] + list(some) if some else []
    refs = [DataReference(*i) for i in items]
    flat = reference_list_to_integers(refs)
    require([int(i) for i in flat] == [int(j) for i in items for j in i], 'references as integers %r', flat)
    back = reference_integers_to_list(numpy.array(flat, numpy.int64) if numpy_numbers else flat)
    require([[int(j) for j in r.aslist()] for r in back] == [list(i) for i in items], '%d references became %d', len(items), len(back))
    return len(items) > 1


@st.composite
def descriptions(draw):
    """Catalogue descriptions with placeholders, as configuration files hold them."""
    datasets = [{'@': 'DataSet', 'name': 'set%d' % d, 'path': draw(words), 'subsets': [{'@': 'Subset', 'layout': {'@': 'Files', 'patterns': draw(st.lists(words, min_size=1, max_size=2))}}
                                                                                       for _ in range(draw(st.integers(1, 2)))]} for d in range(draw(st.integers(0, 3)))]
    operations = []
    for o in range(draw(st.integers(0, 2))):
        runmodule = {'python_function': 'genobjects.record', 'a': {'@': 'InputFile', 'datasetname': draw(words), 'subsetindex': draw(st.integers(0, 2)),
                                                                  'missing_data': draw(st.sampled_from(['allowed', 'skip', 'not_allowed']))},
                     'b': [{'@': 'OutputFile', 'datasetname': draw(words), 'subsetindex': draw(st.integers(0, 2))}, {'@': 'StepTime'}], 'c': draw(st.one_of(integers, words))}
        start = draw(times)
        operations.append({'@': 'Operation', 'runmodule': runmodule, 'name': draw(words),
                           'step': draw(st.sampled_from([{'@': 'Once'}, {'@': 'Daily', 'start': start, 'end': start + datetime.timedelta(days=3)}]))})
    return {'@': 'Catalogue', 'datasets': datasets, 'identifier': draw(words), 'operations': operations}


@facet(descriptions(), quick=300, thorough=8000)
def json_catalogues(case):
    """a catalogue description written as JSON is read back equal"""
    with scratch() as root:
        path = os.path.join(root, 'c.json')
        CatalogueWriterJSON().save(path, construct(case))
        require_same(CatalogueReaderJSON().load(path), construct(case), 'catalogue description')
    return bool(case['datasets'] or case['operations'])
