"""Cases: catalogues built to file (at once or by updates) from generated data sets on disk with gaps, holding one to
three operations (functions or classes, also nested parameters, consuming inputs or the outputs of an operation before),
missing-file policies, batch sizes from one to beyond the count, indices inside and outside the range. The operations
run are recorders. Oracle: the list of operations expected from the files that exist, each with its parameters. A
case is non-trivial when some operation has two runs or more."""

import datetime
import io
import os

from hypothesis import strategies as st
from harness import facet, require, scratch, raises, Violation

import verifops
import verifops.toolchain

from eumopps.catalogue import placeholder
from eumopps.catalogue.build import build, main as build_main
from eumopps.catalogue.catalogue import Catalogue
from eumopps.catalogue import commandcount, commandrun, multiplecommandsrun
from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF, CatalogueWriterNetCDF
from eumopps.catalogue.fileio.formatjson import CatalogueWriterJSON
from eumopps.catalogue.jinja.eumopps_cylc import eumopps_cylc
from eumopps.catalogue.jinja.batches import BatchSpecification, BatchSpecificationCollection
from eumopps.catalogue.operation import Operation
from eumopps.catalogue.operationparameters import OperationTimeStamp, OperationCatalogueID
from eumopps.catalogue.step import StepDaily
from eumopps.catalogue.storage import DataStorageFiles
from eumopps.version.svn import set_allow_unversioned_code

DAY = datetime.timedelta(days=1)


@st.composite
def catalogues(draw):
    start = datetime.datetime(draw(st.integers(1999, 2002)), 12, 25) + DAY * draw(st.integers(0, 20))
    n = draw(st.integers(1, 9))
    inputs = []
    for _ in range(draw(st.integers(1, 2))):
        inputs.append({'days': sorted(draw(st.sets(st.integers(-1, n), max_size=n + 2)) if draw(st.booleans()) else range(n)),
                       'per_day': draw(st.sampled_from([1, 1, 2])), 'fixed': draw(st.integers(0, 4)) == 0})
    operations = []
    for k in range(draw(st.integers(1, 3))):
        previous = draw(st.booleans()) if k else False
        operations.append({'kind': draw(st.sampled_from(['function', 'class', 'function'])), 'policy': draw(st.sampled_from(['allowed', 'skip', 'skip', 'allowed'])), 'input': draw(st.integers(0, len(inputs) - 1)),
                           'previous': previous, 'nested': draw(st.integers(0, 2)), 'named': True, 'constant': draw(st.sampled_from([7, 2.5, 'text', '', -3])),
                           'stamp': draw(st.booleans()), 'identity': draw(st.booleans()), 'own_path': draw(st.sampled_from([None, None, 'before', 'after']))})
    return {'start': start, 'n': n, 'inputs': inputs, 'operations': operations, 'update': draw(st.booleans()), 'sizes': draw(st.lists(st.integers(1, 12), min_size=1, max_size=3, unique=True)),
            'filenames': draw(st.sampled_from(['in%d_%%Y%%m%%d', 'a/in%d_%%Y%%m%%d', '%%Y/in%d_%%m%%d']))}


def pattern(case, k):
    i = case['inputs'][k]
    if i['fixed']:
        return ['fixed%d.nc' % k]
    return [case['filenames'] % k + ('_%A.nc' if i['per_day'] > 1 else '.nc')]


def write_inputs(case, root):
    for k, i in enumerate(case['inputs']):
        names = []
        if i['fixed']:
            names.append('fixed%d.nc' % k)
        else:
            for d in i['days']:
                t = case['start'] + DAY * d
                for part in range(i['per_day']):
                    names.append(t.strftime(case['filenames'] % k) + ('_%d.nc' % part if i['per_day'] > 1 else '.nc'))
        for name in names:
            path = os.path.join(root, 'data%d' % k, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as stream:
                stream.write(name)
        os.makedirs(os.path.join(root, 'data%d' % k), exist_ok=True)


def input_names(case, root, k, d):
    """Names of the files of day d."""
    i = case['inputs'][k]
    if i['fixed']:
        return [os.path.join(root, 'data%d' % k, 'fixed%d.nc' % k)]
    t = case['start'] + DAY * d
    if d not in i['days']:
        return []
    return [os.path.join(root, 'data%d' % k, t.strftime(case['filenames'] % k) + ('_%d.nc' % part if i['per_day'] > 1 else '.nc')) for part in range(i['per_day'])]


def operation_module(case, k, root):
    o = case['operations'][k]
    i = case['inputs'][o['input']]
    source = placeholder.InputFileList('d%d' % o['input'], 0, o['policy']) if i['per_day'] > 1 else placeholder.InputFile('d%d' % o['input'], 0, o['policy'])
    parameters = {'source': source, 'when': placeholder.StepTime(), 'number': placeholder.StepIndex(), 'constant': o['constant'], 'output': placeholder.OutputFile('r%d' % k), 'operation': k}
    if o['own_path']:
        parameters['second'] = placeholder.OutputFile('s%d' % k)
    if o['previous']:
        parameters['before'] = placeholder.InputFile('r%d' % (k - 1), 0, 'allowed')
    if o['stamp']:
        parameters['stamp'] = OperationTimeStamp()
    if o['identity']:
        parameters['identity'] = OperationCatalogueID()
    if o['nested'] == 1:
        parameters['inner'] = [{'again': placeholder.StepTime(), 'file': placeholder.InputFileList('d%d' % o['input'], 0, 'allowed')}]
    elif o['nested'] == 2:
        parameters['inner'] = verifops.Holder(again=placeholder.StepTime(), file=placeholder.InputFileList('d%d' % o['input'], 0, 'allowed'))
    if o['kind'] == 'class':
        return verifops.Runner(**parameters)
    return dict(parameters, python_function='verifops.record')


def expected_runs(case, root):
    """Per operation the list of expected parameters."""
    result = []
    kept_before = None
    for k, o in enumerate(case['operations']):
        runs, kept = [], set()
        for d in range(case['n']):
            files = input_names(case, root, o['input'], d)
            if not files and o['policy'] == 'skip':
                continue
            kept.add(d)
            several = case['inputs'][o['input']]['per_day'] > 1
            t = case['start'] + DAY * d
            p = {'operation': k, 'source': ((files or [None]) if several else (files or [None])[0]), 'when': t, 'number': d, 'constant': o['constant'], 'output': os.path.join(root, 'out', t.strftime('%Y'), t.strftime('r%d_%%Y%%m%%d.nc' % k))}
            if o['previous']:
                p['before'] = os.path.join(root, 'out', t.strftime('%Y'), t.strftime('r%d_%%Y%%m%%d.nc' % (k - 1))) if d in kept_before else None
            if o['own_path']:
                p['second'] = os.path.join(root, 'own%d' % k, t.strftime('s%d_%%Y%%m%%d.nc' % k))
            if o['nested']:
                p['inner'] = {'again': t, 'file': files or [None]}
            runs.append(p)
        kept_before = kept
        result.append(runs)
    return result


def new_datasets(case, k, root):
    """The data sets an operation makes: one at the default path and possibly another at a path of its own."""
    main = CatalogueDataSet('r%d' % k, subsets=[CatalogueDataSubset(DataStorageFiles(['%Y/', 'r%d_%%Y%%m%%d.nc' % k]))])
    other = CatalogueDataSet('s%d' % k, os.path.join(root, 'own%d' % k), subsets=[CatalogueDataSubset(DataStorageFiles(['s%d_%%Y%%m%%d.nc' % k]))])
    where = case['operations'][k]['own_path']
    return [main] if not where else [other, main] if where == 'before' else [main, other]


def parts(case, root):
    set_allow_unversioned_code(True)
    write_inputs(case, root)
    datasets = [CatalogueDataSet('d%d' % k, os.path.join(root, 'data%d' % k), subsets=[CatalogueDataSubset(DataStorageFiles(pattern(case, k)))]) for k in range(len(case['inputs']))]
    end = case['start'] + DAY * (case['n'] - 1)
    operations = [Operation(operation_module(case, k, root), StepDaily(case['start'], end), 'op%d' % k, newdatasets=new_datasets(case, k, root)) for k in range(len(case['operations']))]
    return datasets, operations


def make(case, root):
    path = os.path.join(root, 'catalogue.nc')
    datasets, operations = parts(case, root)
    if case['update']:
        build(Catalogue(datasets), path, pathdefault=os.path.join(root, 'out'), nochecksum=True)
        seen = [CatalogueReaderNetCDF().load_identifier(path)]
        for o in operations:
            build(Catalogue([], operations=[o]), path, update=True, pathdefault=os.path.join(root, 'out'), nochecksum=True)
            seen.append(CatalogueReaderNetCDF().load_identifier(path))
        require(len(set(seen)) == len(seen), 'identifiers %r of a catalogue updated', seen)
    else:
        build(Catalogue(datasets, operations=operations), path, pathdefault=os.path.join(root, 'out'), nochecksum=True)
    return path


def plain(value):
    """As comparable plain Python values."""
    import numpy
    if isinstance(value, verifops.Holder):
        value = value.__dict__
    if isinstance(value, dict):
        return {str(k): plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if isinstance(value, numpy.ndarray):
        return [plain(v) for v in value.tolist()]
    if isinstance(value, numpy.generic):
        return value.item()
    return value


def ran(call, expected, case, k, identity):
    o = case['operations'][k]
    call = plain(call)
    if o['nested'] == 1:
        call['inner'] = call['inner'][0]
    stamp = call.pop('stamp', None)
    require(stamp == ('the time' if o['stamp'] else None), 'time stamp %r', stamp)
    if o['identity']:
        require(call.pop('identity', None) == identity, 'catalogue identifier was not passed on')
    for c in (call, call.get('inner') or {}):          # files of one step come in any order
        for key in ('source', 'file'):
            if isinstance(c.get(key), list) and None not in c[key]:
                c[key] = sorted(c[key])
    for key in sorted(set(call) | set(expected)):
        require(key in call and key in expected and call[key] == expected[key], 'operation %d at %s: parameter %s is %r, expected %r', k, expected['when'], key, call.get(key), expected.get(key))


def start(path, *args, **kwargs):
    del verifops.calls[:]
    result = commandrun.commandrun('the time', path, *args, **kwargs)
    return result, list(verifops.calls)


@facet(catalogues(), quick=120, thorough=6000, shards=6, cost=2.0)
def batches(case):
    """over all batches and indices every operation runs exactly once with the files of its step"""
    with scratch() as root:
        path = make(case, root)
        expected = expected_runs(case, root)
        identity = CatalogueReaderNetCDF().load_identifier(path)
        for k, runs in enumerate(expected):
            name = 'op%d' % k
            for size in [None] + case['sizes']:
                out = io.StringIO()
                commandcount.main([path, name] + (['--batchsize', str(size)] if size else []), out)
                count = int(out.getvalue())
                require(count == -(-len(runs) // (size or 1)), '%d batches of %s for %d operations', count, size, len(runs))
                done = []
                if size is None:
                    for index in range(count):
                        done += start(path, name, index, allow_toolchain_mismatch=True)[1]
                else:
                    for b in range(count):
                        for index in range(size):
                            inside = b * size + index < len(runs)
                            try:
                                calls = start(path, name, index, use_batch_size=size, batch=b, allow_toolchain_mismatch=True)[1]
                            except ValueError:
                                require(not inside, 'operation %d of batch %d of size %d was refused (%d operations)', index, b, size, len(runs))
                                calls = list(verifops.calls)
                            require(len(calls) == (1 if inside else 0), 'index %d of batch %d of size %d ran %d operations', index, b, size, len(calls))
                            done += calls
                require(len(done) == len(runs), '%d operations ran, expected %d', len(done), len(runs))
                for call, wanted in zip(done, runs):
                    ran(call, wanted, case, k, identity)
        return max(len(r) for r in expected) > 1


@facet(st.tuples(catalogues(), st.integers(-12, 24), st.sampled_from([None, 1, 3, 5]), st.integers(-2, 6)), quick=90, thorough=4000, shards=2)
def outside(case):
    """an index outside the reported range runs nothing; so do listing and unknown names"""
    case, index, size, batch = case
    with scratch() as root:
        path = make(case, root)
        runs = expected_runs(case, root)[0]
        which = index if size is None else batch * size + index
        try:
            start(path, 'op0', index, use_batch_size=size, batch=batch if size else None, allow_toolchain_mismatch=True)
            refused = False
        except ValueError:
            refused = True
        inside = 0 <= which < len(runs)
        if inside and size is None:
            require(not refused and len(verifops.calls) == 1, 'operation %d of %d did not run', which, len(runs))
        if not inside:
            require(not verifops.calls, 'operation %d of %d ran something', which, len(runs))
            if size is None:
                require(refused, 'operation %d of %d was not refused', which, len(runs))
        if runs:
            start(path, 'op0', 0, justlist=True)
            require(not verifops.calls, 'listing ran the operation')
        require(raises((ValueError, KeyError, IndexError, TypeError, AttributeError), start, path, 'unknown', 0) or not verifops.calls, 'an unknown operation ran')
        require(raises(ValueError, start, path, 'op0', 0, use_batch_size=4), 'a batch size without a batch was accepted')
        require(raises(ValueError, start, path, 'op0', 0, batch=1), 'a batch without batch size was accepted')
    return True


REVISIONS = ['1234', '1235', '12', '1234M', '1230:1234', 'Unversioned directory']


@facet(st.fixed_dictionaries({'catalogue': catalogues(), 'revision': st.one_of(st.just(['1234', '1234']), st.tuples(st.sampled_from(REVISIONS), st.sampled_from(REVISIONS))), 'same': st.booleans(),
                              'versions': st.tuples(*2 * [st.lists(st.sampled_from(['a-1', 'a-2', 'b-1']), min_size=1, max_size=3)]), 'change': st.sampled_from(['equal', 'other', 'more', 'fewer', 'turned', 'repeated']), 'flags': st.tuples(st.booleans(), st.sampled_from([False, False, True])),
                              'mode': st.sampled_from(['single', 'batch', 'grouped'])}), quick=150, thorough=3000, shards=3)
def code_versions(case):
    """the versions of all code an operation was catalogued with must be those it runs with, in the same order, or the run must be allowed explicitly"""
    catalogue = case['catalogue']
    catalogue['operations'] = catalogue['operations'][:1]
    catalogue['operations'][0].update(previous=False, kind='function')
    catalogue['update'] = False
    revisions = [case['revision'][0], case['revision'][0] if case['same'] else case['revision'][1]]
    first = list(case['versions'][0])
    versions = [first, {'equal': first, 'other': list(case['versions'][1]), 'more': first + ['c-1'], 'fewer': first[:-1], 'turned': first[::-1], 'repeated': first + first[-1:]}[case['change']]]
    saved, path_before = list(verifops.toolchain.versions), os.environ['PATH']
    with scratch() as root:
        program = os.path.join(root, 'svnversion')

        def now(which):
            verifops.toolchain.versions[:] = versions[which]
            with open(program, 'w') as stream:
                stream.write('#!/bin/sh\necho "%s"\n' % revisions[which])
            os.chmod(program, 0o755)
        try:
            os.environ['PATH'] = root + ':' + path_before
            datasets, operations = parts(catalogue, root)
            path, description = os.path.join(root, 'catalogue.nc'), os.path.join(root, 'd.json')
            CatalogueWriterJSON().save(description, Catalogue(datasets, operations=operations))
            now(0)
            set_allow_unversioned_code(False)
            clean = [r.isdigit() for r in revisions]
            try:
                build_main(['--nochecksum', '--pathdefault', os.path.join(root, 'out'), description, path] + (['--allow_unversioned_code'] if case['flags'][0] else []))
                built = True
            except Exception as error:
                require(not (clean[0] or case['flags'][0]), 'the catalogue could not be built with revision %s: %s', revisions[0], error)
                built = False
            require(built == (clean[0] or case['flags'][0]), 'a catalogue was built from code that is not versioned (%s)', revisions[0])
            if not built:
                require(not os.path.exists(path), 'a catalogue was left by a build that was refused')
                return True
            runs = expected_runs(catalogue, root)[0]
            if not runs:
                return False
            wanted = [['eumopps-R%06d' % int(revisions[k]) if clean[k] else 'eumopps-UNVERSIONED'] + versions[k] for k in (0, 1)]
            held = CatalogueReaderNetCDF().load_operation(path, 'op0').toolchain
            require(list(held) == wanted[0], 'the catalogue holds the versions %r, expected %r', held, wanted[0])
            now(1)
            flag = ['--allow_unversioned_code'] if case['flags'][1] else []
            set_allow_unversioned_code(False)
            allowed = case['flags'][1] or (clean[1] and wanted[0] == wanted[1])
            del verifops.calls[:]
            try:
                if case['mode'] == 'grouped':
                    multiplecommandsrun.main([path, 'verifops.outer', 'op0', '2', '0'] + flag)
                elif case['mode'] == 'batch':
                    commandrun.main([path, 'op0', '0', '--use_batch_size', '3', '--batch', '0'] + flag)
                else:
                    commandrun.main([path, 'op0', '0'] + flag)
                refused = None
            except Exception as error:
                refused = error
            if allowed:
                require(refused is None and verifops.calls, 'catalogued with %r, run with %r, flag %r: did not run (%s)', wanted[0], wanted[1], flag, refused)
            else:
                require(refused is not None and not verifops.calls, 'catalogued with %r, run with %r (%s), flag %r: ran', wanted[0], wanted[1], revisions[1], flag)
        finally:
            os.environ['PATH'] = path_before
            verifops.toolchain.versions[:] = saved
            set_allow_unversioned_code(True)
    return True


@facet(st.fixed_dictionaries({'counts': st.lists(st.one_of(st.integers(0, 40), st.integers(0, 10 ** 6)), min_size=1, max_size=3), 'sizes': st.lists(st.one_of(st.integers(1, 50), st.integers(1, 2000)), min_size=1, max_size=3)}), quick=60, thorough=2000)
def counts(case):
    """the batches reported cover all operations and the last one is not empty, for any count and size"""
    with scratch() as root:
        path = os.path.join(root, 'c.nc')
        operations = [Operation({'python_function': 'verifops.record'}, StepDaily(datetime.datetime(1850, 1, 1), datetime.datetime(1850, 1, 1)), name='op%d' % k, count=n, toolchain=['v']) for k, n in enumerate(case['counts'])]
        CatalogueWriterNetCDF().save(path, Catalogue([], 'identifier', operations))
        for k, n in enumerate(case['counts']):
            for size in [1] + case['sizes']:
                out = io.StringIO()
                commandcount.main([path, 'op%d' % k, '--batchsize', str(size)], out)
                require(int(out.getvalue()) == -(-n // size), '%s batches of %d for %d operations', out.getvalue(), size, n)
                spec = BatchSpecification(path, 'op%d' % k, size)
                require(spec.cycle_points_required() == -(-n // size), '%s cycle points of %d for %d operations', spec.cycle_points_required(), size, n)
    return max(case['counts']) > 1


@facet(st.fixed_dictionaries({'catalogue': catalogues(), 'name': st.sampled_from(['op0', 'verifops.record', 'op1']), 'how': st.sampled_from(['together', 'update'])}), quick=40, thorough=1500)
def ambiguous(case):
    """a name that fits more than one operation runs none of them"""
    catalogue = dict(case['catalogue'], update=False)
    catalogue['operations'] = [dict(o, kind='function', previous=False) for o in (catalogue['operations'] * 2)[:2]]
    with scratch() as root:
        datasets, operations = parts(catalogue, root)
        path = os.path.join(root, 'catalogue.nc')
        if case['name'].startswith('op'):
            operations[1].name = case['name']
        out = os.path.join(root, 'out')
        if case['how'] == 'together':
            build(Catalogue(datasets, operations=operations), path, pathdefault=out, nochecksum=True)
        else:
            build(Catalogue(datasets, operations=operations[:1]), path, pathdefault=out, nochecksum=True)
            build(Catalogue([], operations=operations[1:]), path, update=True, pathdefault=out, nochecksum=True)
        runs = expected_runs(catalogue, root)
        if case['name'] == 'op1':
            if runs[1]:
                require(len(start(path, 'op1', 0, allow_toolchain_mismatch=True)[1]) == 1, 'a name that fits one operation did not run it')
            return True
        require(raises(ValueError, start, path, case['name'], 0, allow_toolchain_mismatch=True) and not verifops.calls, 'name %s fits two operations and one of them ran', case['name'])
        require(raises(ValueError, CatalogueReaderNetCDF().operationcount, path, case['name']), 'operations were counted for a name that fits two')
    return True


@facet(catalogues(), quick=60, thorough=3000, shards=2)
def toolchains(case):
    """an operation catalogued under other code versions runs only when that is allowed"""
    with scratch() as root:
        path = make(case, root)
        runs = expected_runs(case, root)[0]
        if not runs:
            return False
        try:
            require(len(start(path, 'op0', 0)[1]) == 1, 'same versions: the operation did not run')
            verifops.toolchain.versions[0] = 'verifops-2'
            require(raises(ValueError, start, path, 'op0', 0) and not verifops.calls, 'other versions: the operation ran')
            require(len(start(path, 'op0', 0, allow_toolchain_mismatch=True)[1]) == 1, 'other versions allowed: the operation did not run')
        finally:
            verifops.toolchain.versions[0] = 'verifops-1'
    return True


@facet(catalogues(), quick=60, thorough=3000, shards=2)
def grouped(case):
    """a grouped run hands the results of exactly the operations of the batch to the outer operation"""
    case['operations'][0]['kind'] = 'function'
    with scratch() as root:
        path = make(case, root)
        runs = expected_runs(case, root)[0]
        identity = CatalogueReaderNetCDF().load_identifier(path)
        for size in case['sizes']:
            seen = []
            count = -(-len(runs) // size)
            for b in range(count):
                del verifops.calls[:]
                multiplecommandsrun.multiple_commands_run('the time', path, 'verifops.outer', 'op0', size, b, True)
                require(verifops.calls and isinstance(verifops.calls[-1], tuple), 'the outer operation did not run last')
                given = verifops.calls[-1][1]
                require(len(given) == len(verifops.calls) - 1 and all(x is y for x, y in zip(given, verifops.calls)), 'the outer operation got something else than the results')
                seen += given
            require(len(seen) == len(runs), '%d results in %d batches of %d, expected %d', len(seen), count, size, len(runs))
            for call, wanted in zip(seen, runs):
                ran(dict(call), wanted, case, 0, identity)
            for b in (count, count + 1):
                del verifops.calls[:]
                try:
                    multiplecommandsrun.multiple_commands_run('the time', path, 'verifops.outer', 'op0', size, b, True)
                except (ValueError, IndexError):
                    pass
                require(all(isinstance(c, tuple) and c[1] == [] for c in verifops.calls), 'batch %d of %d operations in batches of %d ran or handed on %r', b, len(runs), size, verifops.calls)
        if runs:
            del verifops.calls[:]
            multiplecommandsrun.multiple_commands_run('the time', path, 'verifops.outer', 'op0', 1, 0, True, justlist=True)
            require(not any(isinstance(c, tuple) for c in verifops.calls), 'listing a grouped run ran the outer operation')
        require(raises(ValueError, multiplecommandsrun.multiple_commands_run, 'the time', path, 'verifops.outer', 'op0', 0, 0, True), 'batch size 0 was accepted')
    return len(runs) > 1


@facet(catalogues(), quick=40, thorough=1500)
def schedules(case):
    """the suite schedule covers every operation"""
    with scratch() as root:
        path = make(case, root)
        runs = expected_runs(case, root)
        need = []
        for k, r in enumerate(runs):
            spec = BatchSpecification(path, 'op%d' % k, case['sizes'][0])
            count = -(-len(r) // case['sizes'][0])
            need.append(count)
            require(spec.operation_count() == len(r) and spec.cycle_points_required() == count, '%s operations in %s cycles, expected %d in %d', spec.operation_count(), spec.cycle_points_required(), len(r), count)
            require(spec.scheduling() == 'R/P1/%d' % (count - 1), 'schedule %s', spec.scheduling())
            require(spec.subtask_name() == 'op%d<subtask_op%d>' % (k, k), 'sub-task %s', spec.subtask_name())
            options = '--allow_unversioned_code' if case['n'] % 2 else ''
            lines = BatchSpecification(path, 'op%d' % k, case['sizes'][0], options).subtask().split('\n')
            require(lines[0].strip() == '[[op%d<subtask_op%d>]]' % (k, k), 'section %s', lines[0])
            words = lines[1].split('=', 1)[1].split()
            wanted = ['python', '-m', 'eumopps.catalogue.commandrun', path, 'op%d' % k, '$CYLC_TASK_PARAM_subtask_op%d' % k, '--use_batch_size', str(case['sizes'][0]), '--batch', '$CYLC_TASK_CYCLE_POINT'] + options.split()
            require(lines[1].split('=', 1)[0].strip() == 'script' and words == wanted, 'script of the sub-task is %r', lines[1])
            require(spec.subtask_parameters() == 'subtask_op%d = 0..%d' % (k, case['sizes'][0] - 1), 'parameters %s', spec.subtask_parameters())
        specs = BatchSpecificationCollection({'op%d' % k: {'catalogue': path, 'batchsize': case['sizes'][0]} for k in range(len(runs))})
        require(specs.cycle_points_required() == max(need) and specs.initial_cycle_point() == 0 and specs.final_cycle_point() == max(need) - 1, 'cycles %s', specs.cycle_points_required())
        config = {'op%d' % k: {'catalogue': path, 'batchsize': case['sizes'][0]} for k in range(len(runs))}
        got = [eumopps_cylc(config, name) for name in ('cycle_points_required', 'initial_cycle_point', 'final_cycle_point')]
        require(got == [max(need), 0, max(need) - 1], 'cycle points of the template filter are %r, expected %r', got, [max(need), 0, max(need) - 1])
        require(sorted(l.strip() for l in eumopps_cylc(config, 'parameters').splitlines() if l.strip()) == sorted('subtask_op%d = 0..%d' % (k, case['sizes'][0] - 1) for k in range(len(runs))), 'parameters %r', eumopps_cylc(config, 'parameters'))
        text = eumopps_cylc(config, 'subtasks')
        for k in range(len(runs)):
            spec = BatchSpecification(path, 'op%d' % k, case['sizes'][0])
            require(spec.subtask() in text, 'sub-task %d is not among the sub-tasks', k)
            require(eumopps_cylc(config, 'module_scheduling', 'op%d' % k) == spec.scheduling() and eumopps_cylc(config, 'module_subtask', 'op%d' % k) == spec.subtask() and
                    eumopps_cylc(config, 'module_subtask_name', 'op%d' % k) == spec.subtask_name(), 'template filter for operation %d differs from its schedule', k)
    return True


def list_entries(path):
    catalogue = CatalogueReaderNetCDF().load(path)
    return [(d.name, [sorted(e.name for e in (x.matches or [])) for x in d.subsets]) for d in catalogue.datasets]


@facet(catalogues(), quick=40, thorough=1500, shards=2)
def command_lines(case):
    """the command line programs build the catalogue described and run what they are asked to"""
    with scratch() as root:
        datasets, operations = parts(case, root)
        path, description = os.path.join(root, 'catalogue.nc'), os.path.join(root, 'd.json')
        options = ['--allow_unversioned_code', '--nochecksum', '--pathdefault', os.path.join(root, 'out')]
        writer = CatalogueWriterJSON()
        if case['update']:
            writer.save(description, Catalogue(datasets))
            build_main(options + [description, path])
            for k, o in enumerate(operations):
                writer.save(description, Catalogue([], operations=[o]))
                build_main(options + ['--update', description, path])
        else:
            writer.save(description, Catalogue(datasets, operations=operations))
            build_main(options + [description, path])
        identity = CatalogueReaderNetCDF().load_identifier(path)
        empty = os.path.join(root, 'empty.nc')
        open(empty, 'w').close()
        require(raises(ValueError, build_main, options + [description, empty]) and os.path.getsize(empty) == 0, 'an existing file was replaced without being asked to')
        before = open(path, 'rb').read()
        require(raises(ValueError, build_main, options + [description, path]) and open(path, 'rb').read() == before, 'an existing catalogue was replaced without being asked to')
        expected = expected_runs(case, root)
        size = case['sizes'][0]
        for k, runs in enumerate(expected):
            done = []
            for which in range(len(runs)):
                del verifops.calls[:]
                if k % 2 == 0:
                    commandrun.main([path, 'op%d' % k, str(which), '--allow_unversioned_code'])
                else:
                    commandrun.main([path, 'op%d' % k, str(which % size), '--use_batch_size', str(size), '--batch', str(which // size), '--allow_unversioned_code'])
                require(len(verifops.calls) == 1, 'operation %d ran %d times', which, len(verifops.calls))
                call = dict(plain(verifops.calls[0]))
                if case['operations'][k]['stamp']:
                    require(datetime.datetime.fromisoformat(call['stamp'].split()[0]).date() >= datetime.date(2020, 1, 1), 'time stamp %r', call['stamp'])
                    call['stamp'] = 'the time'
                ran(call, runs[which], case, k, identity)
            if runs:
                del verifops.calls[:]
                commandrun.main([path, 'op%d' % k, '0', '--list', '--allow_unversioned_code'])
                require(not verifops.calls, 'listing ran the operation')
                if case['operations'][k]['kind'] == 'function':
                    b = (len(runs) - 1) // size
                    multiplecommandsrun.main([path, 'verifops.outer', 'op%d' % k, str(size), str(b), '--allow_unversioned_code'])
                    require(len(verifops.calls) == len(runs) - b * size + 1 and isinstance(verifops.calls[-1], tuple), 'the last batch of %d ran %d operations of %d', size, len(verifops.calls) - 1, len(runs))
        # one data set alone, over the catalogue that is there
        writer.save(description, Catalogue([CatalogueDataSet('d%d' % k, os.path.join(root, 'data%d' % k), subsets=[CatalogueDataSubset(DataStorageFiles(pattern(case, k)))]) for k in range(len(case['inputs']))]))
        full = [(n, x) for n, x in list_entries(path) if n.startswith('d')]
        last = len(case['inputs']) - 1
        build_main(options + ['--overwrite', '--dataset_filter', 'd%d' % last, description, path])
        require(list_entries(path) == full[last:], 'catalogue of data set %d lists %r, expected %r', last, list_entries(path), full[last:])
        require(CatalogueReaderNetCDF().load_identifier(path) != identity, 'a new catalogue has the identifier of the old one')
        require(raises(ValueError, build_main, options + ['--overwrite', '--dataset_filter', 'none', description, path]), 'a data set that is not described was accepted')
        require(raises(ValueError, build_main, options + [description + 'x', path + 'y']) and not os.path.exists(path + 'y'), 'a description that does not exist was accepted')
        return max(len(r) for r in expected) > 1
