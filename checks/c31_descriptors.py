"""Cases: descriptors of the whole analysis made from the templates of the suite (input sources added or left out) for 1 to 3
iterations, periods of 1 to 75 days over ends of months and years, any names of commands and data sets (one being the beginning of
another), daily or monthly operations, in one go or iterations added to those of an earlier descriptor; built into a catalogue with
generated input files (some days without), and each of their operations resolved to the parameters it would run with. Oracle: for
each operation the function, files to read and write, day numbers and settings which the iterated analysis needs there, and: what is
read has been written by an operation before, nothing is written twice. A case is non-trivial with more than one iteration."""

import copy
import datetime
import importlib
import inspect
import json
import os
import sys

from hypothesis import strategies as st
from harness import facet, require, scratch, raises

import eumopps
import eumopps.catalogue.jsonfiller
import eustace.analysis.advanced_standard.examples.jsonfiller
from eumopps.catalogue.build import build
from eumopps.catalogue.catalogue import Catalogue
from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset, CatalogueFileEntry
from eumopps.catalogue.fileio.formatjson import CatalogueReaderJSON
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF, CatalogueWriterNetCDF
from eumopps.catalogue.storage import DataStorageFiles
from eumopps.version.svn import set_allow_unversioned_code
from eumopps.netcdfobjects import netcdfobjects
import eustace.toolchain

TEMPLATES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(eumopps.__file__))), 'roses', 'fullstace', 'advanced_standard', 'templates')
EPOCH = datetime.datetime(1850, 1, 1)
DAY = datetime.timedelta(days=1)
SOURCES = ['insitu_land', 'insitu_ocean', 'surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice']
STORAGE = ['storage_climatology', 'storage_large_scale', 'storage_local']
WHERE = 'eustace.analysis.advanced_standard.examples.moving_climatology.'


class quiet(object):
    def __enter__(self):
        self.out, sys.stdout = sys.stdout, open(os.devnull, 'w')

    def __exit__(self, *args):
        sys.stdout.close()
        sys.stdout = self.out


class kept_open(object):
    """The catalogue is opened once to resolve many operations."""

    class Proxy(object):
        def __init__(self, dataset):
            self.dataset = dataset

        def __getattr__(self, name):
            return getattr(self.dataset, name)

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *args):
            pass

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        original = self.original = netcdfobjects.nc_open_for_load
        self.dataset = original(self.path)
        proxy = kept_open.Proxy(self.dataset)
        netcdfobjects.nc_open_for_load = lambda path: proxy if path == self.path else original(path)

    def __exit__(self, *args):
        netcdfobjects.nc_open_for_load = self.original
        self.dataset.close()


@st.composite
def analyses(draw):
    word = st.sampled_from(['climatology', 'clim', 'local', 'large', 'scale', 'a', 'solution', 'output', 'x1', 'sol_0', 'B'])
    names = draw(st.lists(st.lists(word, min_size=1, max_size=3).map('_'.join), min_size=9, max_size=9, unique=True))
    commands = draw(st.lists(st.lists(word, min_size=1, max_size=3).map('_'.join), min_size=6, max_size=6, unique=True))
    # names of the last parts must stay apart from those with a number or 'sample' added
    kind = draw(st.sampled_from(['single', 'batch', 'batch', 'examples', 'examples']))
    start = draw(st.one_of(st.dates(datetime.date(1850, 1, 1), datetime.date(2030, 1, 1)), st.sampled_from([datetime.date(2000, 2, 27), datetime.date(1999, 12, 30), datetime.date(1900, 2, 25), datetime.date(2015, 12, 1)])))
    days = draw(st.integers(1, 6 if kind == 'single' else 75))
    if kind != 'single' and draw(st.integers(0, 2)):
        days = min(days, 12)
    first = draw(st.integers(0, 2)) if kind == 'examples' else 0
    extra = draw(st.lists(st.sampled_from(['surfaceairmodel_lake', 'insitu', 'insitu_land_2', 'surfaceairmodel']), max_size=2, unique=True))
    return {'kind': kind, 'start': datetime.datetime(start.year, start.month, start.day), 'days': days, 'first': first, 'iterations': draw(st.integers(1, 3 if days < 13 else 2)), 'grid': kind != 'examples' or draw(st.booleans()),
            'names': ['%s.%d' % (n, k) if draw(st.integers(0, 3)) == 0 else n for k, n in enumerate(names)], 'commands': commands, 'land': draw(st.integers(0, 1)), 'globe': draw(st.integers(0, 1)),
            'missing': draw(st.lists(st.integers(0, 75), max_size=6, unique=True)), 'extra': extra, 'without': draw(st.lists(st.sampled_from(SOURCES), max_size=2, unique=True)), 'apart': draw(st.booleans())}


def templates(case, directory):
    for name in ('operation', 'batch_operation', 'outputgrid'):
        with open(os.path.join(TEMPLATES, 'advstd_%s_template.json' % name)) as stream:
            template = json.load(stream)
        if 'inputsources' in template['runmodule']:
            sources = [s for s in template['runmodule']['inputsources'] if s['name'] not in case['without']]
            require([s['name'] for s in template['runmodule']['inputsources']] == SOURCES, 'sources of the template')
            for k, other in enumerate(case['extra']):
                if sources:
                    sources.insert(k, dict(copy.deepcopy(sources[-1]), name=other))
            template['runmodule']['inputsources'] = sources
        with open(os.path.join(directory, name + '.json'), 'w') as stream:
            json.dump(template, stream)


def describe(case, directory, first, last, grid):
    n, c = case['names'], case['commands']
    end = case['start'] + DAY * (case['days'] - 1)
    arguments = [directory, directory, 'operation.json', 'batch_operation.json', 'outputgrid.json', case['start'].strftime('%Y%m%d'), end.strftime('%Y%m%d'), case['land'], case['globe'],
                 c[0], n[0], c[1], n[1], c[2], n[2], c[3], n[3], c[4], n[4], c[5], n[5], n[6], n[7], n[8]]
    if case['kind'] == 'examples':
        filler = eustace.analysis.advanced_standard.examples.jsonfiller.FullstaceJsonFiller(first, last, grid, *arguments)
    else:
        filler = eumopps.catalogue.jsonfiller.FullstaceJsonFiller(last + 1, *arguments)
    with quiet():
        (filler.create_descriptor if case['kind'] == 'single' else filler.create_batch_descriptor)('made.json', case['kind'] == 'single')
    with open(os.path.join(directory, 'made.json')) as stream:
        return json.load(stream), filler


def template_datasets(value, found):
    """Data sets that the inputs refer to: name to number of subsets."""
    if isinstance(value, dict):
        if 'datasetname' in value:
            found[value['datasetname']] = max(found.get(value['datasetname'], 1), 1 + value.get('subsetindex', 0))
        for v in value.values():
            template_datasets(v, found)
    elif isinstance(value, list):
        for v in value:
            template_datasets(v, found)


def input_name(dataset, subset, day, root):
    """(path or None) of an input of a day."""
    if dataset.startswith('locationlookup') or dataset.endswith('correlationranges'):
        return os.path.join(root, dataset, 'one%d.bin' % subset)
    return os.path.join(root, dataset, day.strftime('%Y'), 'in%d_%%Y%%m%%d.bin' % subset).replace('%Y', day.strftime('%Y')).replace('%m', day.strftime('%m')).replace('%d', day.strftime('%d'))


def input_catalogue(case, descriptor, root):
    found = {}
    for operation in descriptor['operations']:
        template_datasets(operation['runmodule'].get('inputsources', []), found)
    datasets = []
    for name, subsets in sorted(found.items()):
        parts = []
        for k in range(subsets):
            if name.startswith('locationlookup') or name.endswith('correlationranges'):
                parts.append(CatalogueDataSubset(DataStorageFiles(['one%d.bin' % k]), [CatalogueFileEntry('one%d.bin' % k, None)]))
            else:
                entries = []
                for d in range(case['days']):
                    if d not in case['missing'] or d % 3:
                        t = case['start'] + DAY * d
                        entries.append(CatalogueFileEntry(t.strftime('%Y/') + 'in%d_' % k + t.strftime('%Y%m%d.bin'), t))
                parts.append(CatalogueDataSubset(DataStorageFiles(['%Y/', 'in%d_%%Y%%m%%d.bin' % k]), entries))
        datasets.append(CatalogueDataSet(name, os.path.join(root, name), subsets=parts))
    return Catalogue(datasets)


def flat(value, path=(), out=None):
    out = {} if out is None else out
    if isinstance(value, dict):
        for k, v in value.items():
            flat(v, path + (k,), out)
    elif isinstance(value, (list, tuple)) and value and isinstance(value[0], dict):
        for k, v in enumerate(value):
            flat(v, path + (k,), out)
    else:
        out[path] = [x for x in value] if hasattr(value, '__len__') and not isinstance(value, str) else value
    return out


class Model(object):
    """The operations expected: name, and per run its parameters."""

    def __init__(self, case, root, first, last, grid):
        self.case, self.root = case, root
        self.days = [case['start'] + DAY * d for d in range(case['days'])]
        self.batched = case['kind'] != 'single'
        self.groups = []
        for d in self.days:
            if self.groups and (not self.batched or (self.groups[-1][0].year, self.groups[-1][0].month) == (d.year, d.month)) and self.batched:
                self.groups[-1].append(d)
            else:
                self.groups.append([d])
        self.operations = []
        n, c = case['names'], case['commands']
        self.solution = [n[1], n[3], n[4]]
        for i in range(first, last + 1):
            end = i == last and grid
            for k in (0, 1):
                self.measure(i, k, c[2 * k], n[2 * k])
                self.solve(i, k, c[2 * k + 1], n[2 * k], end)
            self.local(i, c[4], end)
        if grid:
            self.grid(last, c[5], n[5:9])

    def path(self, dataset, *name):
        return os.path.join(self.root, dataset, *name)

    def state(self, j, iteration, extra=''):
        name = '%s%s_%d' % (self.solution[j], extra, iteration)
        return self.path(name, name + '.pickle')

    def daily(self, name, day, suffix='pickle'):
        return self.path(name, day.strftime('%Y'), '%s_%s.%s' % (name, day.strftime('%Y%m%d'), suffix))

    def local_state(self, iteration, day, extra=''):
        return self.daily('%s%s_%d' % (self.solution[2], extra, iteration), day)

    def number(self, day):
        return (day - EPOCH).days

    def common(self, function, sample=False, prior=False):
        return {('python_function',): WHERE + function, ('insitu_biases',): self.case['land'], ('global_biases',): self.case['globe'], ('compute_uncertainties',): 0, ('method',): 'EXACT',
                ('compute_sample',): int(sample), ('compute_prior_sample',): int(prior)}

    def sources(self, days, listed):
        """Input files of a day, or of each of a list of days."""
        return ('sources', days, listed)

    def add(self, name, runs, inputs=None, samples=None):
        self.operations.append((name, runs, inputs, samples))

    def measurement_file(self, name, group):
        return self.daily(name, group[0]) if not self.batched else self.path(name, group[0].strftime('%Y'), '%s_%s.pickle' % (name, group[0].strftime('%Y%m')))

    def measure(self, i, k, command, name):
        name = '%s_%d' % (name, i)
        runs = []
        for group in self.groups:
            p = self.common('process_inputs_batch' if self.batched else 'process_inputs')
            p[('component_index',)] = k
            p[(STORAGE[k], 'measurementfilename_write')] = self.measurement_file(name, group)
            if not self.batched:
                p[(STORAGE[k], 'measurement_time_index_write')] = self.number(group[0])
                p[('time_index',)] = self.number(group[0])
                p[(STORAGE[2], 'time_index')] = self.number(group[0])
            else:
                p[('time_indices',)] = [self.number(d) for d in group]
                if i > 0:
                    p[('?', STORAGE[k], 'statefilename_read')] = self.state(k, i - 1)
            for j in (0, 1):
                if j != k and (j < k or i > 0):
                    p[(STORAGE[j], 'statefilename_read')] = self.state(j, i if j < k else i - 1)
            if i > 0:
                if self.batched:
                    p[(STORAGE[2], 'statefilelist_read')] = [self.local_state(i - 1, d) for d in group]
                    p[(STORAGE[2], 'time_list')] = [self.number(d) for d in group]
                else:
                    p[(STORAGE[2], 'statefilename_read')] = self.local_state(i - 1, group[0])
            runs.append(p)
        self.add('%s_%d' % (command, i), runs, self.groups)

    def solve(self, i, k, command, measurements, end):
        p = self.common('solve', end, end and not self.batched)
        p[('component_index',)] = k
        p[(STORAGE[k], 'measurementfilelist_read')] = [self.measurement_file('%s_%d' % (measurements, i), g) for g in self.groups]
        p[(STORAGE[k], 'statefilename_write')] = self.state(k, i)
        prior = self.state(k, i, '_prior_sample')
        if end:
            p[(STORAGE[k], 'sample_filename_write')] = self.state(k, i, '_sample')
            if not self.batched:
                p[(STORAGE[k], 'prior_sample_filename_write')] = prior
        self.add('%s_%d' % (command, i), [p], None, 'state' if end else None)
        if end and self.batched:
            q = self.common('solve', False, True)
            q[('component_index',)] = k
            q[(STORAGE[k], 'prior_sample_filename_write')] = prior
            self.add('%s_prior_sample_%d' % (command, i), [q], None, 'state')

    def local(self, i, command, end):
        runs = []
        for d in self.days:
            p = self.common('process_inputs', end, end)
            p[('component_index',)] = 2
            p[('time_index',)] = p[(STORAGE[2], 'time_index')] = self.number(d)
            for j in (0, 1):
                p[(STORAGE[j], 'statefilename_read')] = self.state(j, i)
            p[(STORAGE[2], 'statefilename_write')] = self.local_state(i, d)
            if end:
                p[(STORAGE[2], 'sample_filename_write')] = self.local_state(i, d, '_sample')
                p[(STORAGE[2], 'prior_sample_filename_write')] = self.local_state(i, d, '_prior_sample')
            runs.append(p)
        self.add('%s_%d' % (command, i), runs, [[d] for d in self.days], 'state' if end else None)

    def grid(self, i, command, names):
        runs = []
        tail = '_%d' % i if self.case['kind'] == 'examples' else ''
        names = [n + tail for n in names]
        for group in self.groups:
            p = self.common('output_grid_batch' if self.batched else 'output_grid')
            for j in (0, 1):
                for key, extra in (('state', ''), ('sample_', '_sample'), ('prior_sample_', '_prior_sample')):
                    p[(STORAGE[j], key + 'filename_read')] = self.state(j, i, extra)
            for key, extra in (('state', ''), ('sample_', '_sample'), ('prior_sample_', '_prior_sample')):
                files = [self.local_state(i, d, extra) for d in group]
                p[(STORAGE[2], key + ('filelist_read' if self.batched else 'filename_read'))] = files if self.batched else files[0]
            numbers = [self.number(d) for d in group]
            if self.batched:
                p[('time_indices',)] = p[(STORAGE[2], 'time_list')] = numbers
            else:
                p[('time_index',)] = p[(STORAGE[2], 'time_index')] = numbers[0]
                p[('processdate',)] = group[0]
            for key, name in zip(('outputfile', 'climatologyfile', 'largescalefile', 'localfile'), names):
                files = [self.daily(name, d, 'nc') for d in group]
                p[(key + 's',) if self.batched else (key,)] = files if self.batched else files[0]
            runs.append(p)
        self.add(command + tail, runs, None, 'output')


def expected_sources(case, template, days, root):
    """Flat input source parameters of a run, from the template."""
    listed = len(template) and case['kind'] != 'single'
    out, position = {}, 0
    for source in template:
        if source['name'] not in SOURCES:
            continue

        def walk(value, path):
            if isinstance(value, dict) and 'datasetname' in value:
                name, subset = value['datasetname'], value.get('subsetindex', 0)
                files = []
                for d in days:
                    offset = (d - case['start']).days
                    there = name.startswith('locationlookup') or name.endswith('correlationranges') or offset not in case['missing'] or offset % 3
                    files.append(input_name(name, subset, d, root) if there else None)
                out[path] = files if 'Batch' in value['python_class'] else files[0]
            elif isinstance(value, dict):
                for k, v in value.items():
                    walk(v, path + (k,))
            else:
                out[path] = value
        walk(source, ('inputsources', position))
        position += 1
    return out


IGNORED = {'covariates_descriptor', 'breakpoints_file', 'global_biases_group_list'}


@facet(analyses(), quick=160, thorough=2400, shards=8, cost=3)
def analysis(case):
    set_allow_unversioned_code(True)
    eustace.toolchain.RECORD_JASMIN_TOOLCHAIN = False
    first, last = case['first'], case['first'] + case['iterations'] - 1
    names = case['names']
    made = [n + e for n in (names[0], names[1], names[2], names[3], names[4]) for e in ('_0', '_1', '_2', '_3', '_4', '_sample_%d' % last, '_prior_sample_%d' % last)] + [n + e for n in names[5:] for e in ('', '_%d' % last)]
    commands = [c + '_%d' % k for c in case['commands'] for k in range(5)] + [case['commands'][k] + '_prior_sample_%d' % last for k in (1, 3)] + [case['commands'][5]]
    if len(set(made)) < len(made) or len(set(commands)) < len(commands):
        return False
    with scratch() as root:
        templates(case, root)
        with open(os.path.join(root, 'operation.json')) as stream:
            single_sources = json.load(stream)['runmodule']['inputsources']
        with open(os.path.join(root, 'batch_operation.json')) as stream:
            batch_sources = json.load(stream)['runmodule']['inputsources']
        output = os.path.join(root, 'out')
        path = os.path.join(root, 'catalogue.nc')
        pieces = []
        if first > 0:
            pieces.append((0, first - 1, False))
        pieces.append((first, last, case['grid']))
        written, model, counts, declared = {}, [], {}, []
        for k, (a, b, grid) in enumerate(pieces):
            descriptor, filler = describe(case, root, a, b, grid)
            if k == 0:
                CatalogueWriterNetCDF().save(path, input_catalogue(case, descriptor, os.path.join(root, 'in')))
            storages = {}
            for operation in descriptor['operations']:
                # parameters of storage as plain dictionaries
                storages[operation['name']] = {s: operation['runmodule'][s].pop('python_class') for s in STORAGE}
                require(all(s in operation['runmodule'] for s in STORAGE), 'storage of %s', operation['name'])
                declared.extend(dataset['name'] for dataset in operation['newdatasets'])
            require(len(set(declared)) == len(declared), 'data sets made more than once: %s', sorted(n for n in set(declared) if declared.count(n) > 1))
            with open(os.path.join(root, 'plain.json'), 'w') as stream:
                json.dump(descriptor, stream)
            with quiet():
                build(CatalogueReaderJSON().load(os.path.join(root, 'plain.json')), path, update=True, pathdefault=output, nochecksum=True)
            expected = Model(case, output, a, b, grid)
            require([o['name'] for o in descriptor['operations']] == [e[0] for e in expected.operations], 'operations %s, expected %s', [o['name'] for o in descriptor['operations']], [e[0] for e in expected.operations])
            with kept_open(path):
                for name, runs, inputs, samples in expected.operations:
                    operation = CatalogueReaderNetCDF().load_operation(path, name)
                    require(operation.count == len(runs), '%s has %d runs, expected %d', name, operation.count, len(runs))
                    picked = sorted({0, 1, len(runs) // 2, len(runs) - 1} & set(range(len(runs))))
                    for index in range(len(runs)):
                        wanted = dict(runs[index])
                        optional = {p[1:]: wanted.pop(p) for p in list(wanted) if p[0] == '?'}
                        if index in picked:
                            one = copy.deepcopy(operation)
                            one.resolve_single_operation(path, index, 'now')
                            found = {p: v for p, v in flat(one.runmodule).items() if p[0] not in IGNORED and p[-1] != 'keep_in_memory'}
                            size = found.pop(('sample_size',))
                            if samples == 'state':
                                require(size >= 1, 'size of samples %s in %s', size, name)
                                counts['state'] = size
                            elif samples == 'output':
                                require(1 <= size <= counts.get('state', size), '%d samples are written of %s', size, counts)
                            else:
                                require(size == 0, 'size of samples %s in %s', size, name)
                            if inputs is not None:
                                batched = wanted[('python_function',)].endswith('_batch')
                                wanted.update(expected_sources(case, batch_sources if batched else single_sources, inputs[index], os.path.join(root, 'in')))
                                if not any(s['name'] in SOURCES for s in single_sources):
                                    wanted[('inputsources',)] = []
                            for p, v in optional.items():
                                if p in found:
                                    require(found[p] == v, '%s run %d: %s is %s, expected %s', name, index, '.'.join(str(w) for w in p), found[p], v)
                                    found.pop(p)
                            found = {p: v for p, v in found.items() if not (v == {} or v == [] and p not in wanted)}
                            require(set(found) == set(wanted), '%s run %d: parameters not expected %s, not there %s', name, index, sorted(map(str, set(found) - set(wanted))), sorted(map(str, set(wanted) - set(found))))
                            for p in sorted(wanted, key=str):
                                require(found[p] == wanted[p], '%s run %d: %s is %s, expected %s', name, index, '.'.join(str(w) for w in p), found[p], wanted[p])
                            if index == 0:
                                function = wanted[('python_function',)]
                                inspect.signature(getattr(importlib.import_module(function.rsplit('.', 1)[0]), function.rsplit('.', 1)[1])).bind(**{k: None for k in one.runmodule if k != 'python_function'})
                                for s, kind in storages[name].items():
                                    kind = getattr(importlib.import_module(kind.rsplit('.', 1)[0]), kind.rsplit('.', 1)[1])
                                    inspect.signature(kind).bind(**{k: None for k in one.runmodule[s]})
                        # the files expected make a consistent history by themselves
                        for p, v in wanted.items():
                            last_word = str(p[-1])
                            files = v if isinstance(v, list) else [v]
                            if last_word.endswith('_read') and 'file' in last_word:
                                for f in files:
                                    require(f in written, '%s reads %s before it is written', name, f)
                        for p, v in wanted.items():
                            last_word = str(p[-1])
                            if last_word.endswith('_write') and 'file' in last_word or p[0] in ('outputfile', 'outputfiles', 'climatologyfile', 'climatologyfiles', 'largescalefile', 'largescalefiles', 'localfile', 'localfiles'):
                                for f in v if isinstance(v, list) else [v]:
                                    require(f not in written, '%s writes %s, which %s has written', name, f, written.get(f))
                                    written[f] = name
    return case['iterations'] > 1


@facet(analyses(), quick=40, thorough=400, shards=2)
def refusals(case):
    """unfilled fields and no iterations are refused: non-trivial always"""
    with scratch() as root:
        templates(case, root)
        arguments = [root, root, 'operation.json', 'batch_operation.json', 'outputgrid.json', '20000101', '20000102', case['land'], case['globe']] + ['n%d' % k for k in range(15)]
        for kind, method in (('single', 'create_descriptor'), ('batch', 'create_batch_descriptor')):
            filler = eumopps.catalogue.jsonfiller.FullstaceJsonFiller(0, *arguments)
            with quiet():
                require(raises(ValueError, getattr(filler, method), 'made.json'), 'no iterations are accepted')
            with open(os.path.join(root, 'operation.json')) as stream:
                template = json.load(stream)
            template['runmodule']['method2'] = [{'a': 1}, {'b': None}]
            with open(os.path.join(root, 'broken.json'), 'w') as stream:
                json.dump(template, stream)
            arguments[2] = 'broken.json'
            filler = eumopps.catalogue.jsonfiller.FullstaceJsonFiller(1, *arguments)
            with quiet():
                require(raises(ValueError, getattr(filler, method), 'made.json', True), 'a field that is not filled is accepted')
                getattr(filler, method)('made.json')
            arguments[2] = 'operation.json'
    return True
