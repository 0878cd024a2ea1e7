"""Cases: catalogues whose operations have 1 to 1100 steps (around the sizes of batches more often), batch and group sizes, stages to
run or to leave out, iterations, conditions to wait for and failing submissions, submitted by the Python and shell tools to a stand-in
for the batch system that keeps what it is given; then each element of the arrays submitted is run with the script and
environment kept, with a stand-in for Python that records its command line. Oracle: the operations run are each of those of the
catalogue, once; what a job waits for, and what that waits for in turn, has all jobs of all stages before it. A case is non-trivial
when a stage needs more than one array, or has more than one stage."""

import importlib
import os
import re
import shutil
import subprocess
import sys

from hypothesis import strategies as st
from harness import facet, require, scratch, raises

import eumopps
from eumopps.catalogue.catalogue import Catalogue
from eumopps.catalogue.fileio.formatnetcdf import CatalogueWriterNetCDF
from eumopps.catalogue.operation import Operation
from eumopps.catalogue.step import StepOnce

ROSES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(eumopps.__file__))), 'roses', 'fullstace')
BSUB = r'''#!/bin/bash
n=$(( $(cat "$STUB/next") + $STUB_STEP ))
echo $n > "$STUB/next"
count=$(ls "$STUB" | grep -c 'args$')
if [ "$STUB_FAIL" = "$count" ]; then echo "no such queue" >&2; exit 255; fi
printf '%s\0' "$@" > "$STUB/$n.args"
env -0 > "$STUB/$n.env"
cat > "$STUB/$n.script"
echo "Job <$n> is submitted to queue <short-serial>."
'''
STUBS = r'''
module() { :; }
rm() { printf 'rm\x1f%s\x1f' "$@" >> "$STUB/ran"; echo >> "$STUB/ran"; }
python() {
  if [ "$2" = eumopps.catalogue.commandcount ]; then
    local size=1 count
    if [ "$5" = --batchsize ]; then size=$6; fi
    count=$(cat "$STUB/count.$4" 2>/dev/null || echo 0)
    echo $(( (count + size - 1) / size ))
  else
    printf '%s\x1f' "$@" >> "$STUB/ran"; echo >> "$STUB/ran"
  fi
}
'''


class Cluster(object):
    """Scripts of a suite in a directory of their own, the batch system, and a catalogue."""

    def __init__(self, root, suite, counts, step=1, fail=None, file=True):
        self.root, self.suite = root, os.path.join(root, 'suite')
        self.stub = os.path.join(root, 'stub')
        self.counts = counts
        os.mkdir(self.stub)
        os.mkdir(self.suite)
        for name in os.listdir(os.path.join(ROSES, suite)):
            path = os.path.join(ROSES, suite, name)
            if name.endswith('.sh'):
                with open(path) as stream:
                    text = stream.read().replace('/work/scratch', os.path.join(root, 'work'))
                with open(os.path.join(self.suite, name), 'w') as stream:
                    stream.write(text)
        for name, text in (('bsub', BSUB), ('stubs.sh', STUBS), ('next', '%d\n' % (1000 * step))):
            with open(os.path.join(self.stub, name), 'w') as stream:
                stream.write(text)
        os.chmod(os.path.join(self.stub, 'bsub'), 0o755)
        for name, count in counts.items():
            with open(os.path.join(self.stub, 'count.' + name), 'w') as stream:
                stream.write('%d\n' % count)
        self.catalogue = os.path.join(root, 'catalogue.nc')
        if file:
            operations = []
            for name, count in counts.items():
                operations.append(Operation({'python_function': 'verifops.record'}, StepOnce(), name))
                operations[-1].count = count
            CatalogueWriterNetCDF().save(self.catalogue, Catalogue([], operations=operations))
        self.environment = {'STUB': self.stub, 'STUB_STEP': str(step), 'STUB_FAIL': 'never' if fail is None else str(fail), 'BASH_ENV': os.path.join(self.stub, 'stubs.sh'), 'USER': 'someone',
                            'PATH': self.stub + ':/usr/bin:/bin',
                            # as left by an earlier submission in the same session
                            'EUMOPPS_CATALOGUE': '/nowhere/else.nc', 'EUMOPPS_MODULENAME': 'earlier', 'EUMOPPS_BATCHSIZE': '5', 'EUMOPPS_BATCHNUMBER': '3', 'EUMOPPS_COMMANDCOUNT': '9', 'EUMOPPS_NJOBS': '2', 'EUMOPPS_NTASKS': '2'}

    def python(self, name, call):
        """Run with a module of the suite, in its directory."""
        before, cwd, popen = dict(os.environ), os.getcwd(), subprocess.Popen
        source = os.path.join(ROSES, 'advanced_standard')
        if source not in sys.path:
            sys.path.insert(0, source)
        module = importlib.import_module(name)
        sink = open(os.devnull, 'w')
        out, sys.stdout = sys.stdout, sink
        try:
            # as in Python 2, what a process prints is a string
            class Popen(popen):
                def __init__(self, *args, **kwargs):
                    kwargs['universal_newlines'] = True
                    popen.__init__(self, *args, **kwargs)
            subprocess.Popen = Popen
            os.environ.clear()
            os.environ.update(self.environment)
            os.chdir(self.suite)
            return call(module)
        finally:
            sys.stdout = out
            sink.close()
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(before)
            subprocess.Popen = popen

    def shell(self, script, *arguments):
        process = subprocess.run(['/bin/bash', os.path.join(self.suite, script)] + list(arguments), env=self.environment, cwd=self.suite, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        return process

    def jobs(self):
        """Jobs in order: id, name, first and last element, what it waits for."""
        result = []
        for n in sorted(int(name[:-5]) for name in os.listdir(self.stub) if name.endswith('.args')):
            with open(os.path.join(self.stub, '%d.args' % n)) as stream:
                args = stream.read().split('\0')[:-1]
            wait = args[args.index('-w') + 1] if '-w' in args else ''
            require(re.match(r'^(done\(\d+\)( && done\(\d+\))*)?$', wait), 'job %d waits for "%s"', n, wait)
            name = re.match(r'^(.*)\[(\d+)-(\d+)\]$', args[args.index('-J') + 1])
            require(name, 'array of jobs %s', args)
            result.append((n, name.group(1), int(name.group(2)), int(name.group(3)), [int(d) for d in re.findall(r'\d+', wait)]))
            require(result[-1][2] >= 1 and result[-1][3] >= result[-1][2], 'array of jobs %s', args)
            require(len(result) < 2 or len(set(r[1] for r in result)) == len(result), 'two arrays of the same name %s', name.group(1))
        return result

    def run(self, job, elements):
        """Operations run by elements of an array: list of (module, number) per element."""
        with open(os.path.join(self.stub, '%d.env' % job), 'rb') as stream:
            environment = dict(e.split(b'=', 1) for e in stream.read().split(b'\0') if b'=' in e)
        log = os.path.join(self.stub, 'ran')
        open(log, 'w').close()
        subprocess.run(['/bin/bash', '-c', 'for i in %s; do ( LSB_JOBINDEX=$i; export LSB_JOBINDEX; . "%s" ); echo end >> "$STUB/ran"; done' % (' '.join(str(e) for e in elements), os.path.join(self.stub, '%d.script' % job))],
                       env=environment, cwd=self.root, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        result, current = [], []
        for words in self.log():
            if words == ['end']:
                result.append(current)
                current = []
            else:
                current.append(self.operation(words))
        require(len(result) == len(elements), '%d elements run of %d', len(result), len(elements))
        return result

    def log(self):
        path = os.path.join(self.stub, 'ran')
        if not os.path.exists(path):
            return []
        with open(path) as stream:
            return [line.rstrip('\n').rstrip('\x1f').split('\x1f') for line in stream]

    def operation(self, words):
        """(module, number) that a command line runs, None when there is no such operation in its batch."""
        words = [w for w in words if w != '--allow_unversioned_code' and w != '']
        require(words[:2] == ['-m', 'eumopps.catalogue.commandrun'] and len(words) >= 5, 'command %s', words)
        require(words[2] == self.catalogue, 'catalogue %s', words)
        options = dict(zip(words[5::2], words[6::2]))
        require(set(options) in (set(), {'--use_batch_size', '--batch'}) and words[4].isdigit(), 'command %s', words)
        index = int(words[4])
        if options:
            size = int(options['--use_batch_size'])
            require(0 <= index < size, 'index %d of a batch of %d', index, size)
            index += int(options['--batch']) * size
            if index >= self.counts[words[3]]:
                return None
        require(words[3] in self.counts and index < self.counts[words[3]], 'operation %d of %s', index, words[3])
        return (words[3], index)

    def check(self, stages, initial=(), all_elements=True, tight=True):
        """Jobs are those of the stages, in order, each waiting for the ones before; each operation is run once."""
        jobs = self.jobs()
        known = {}
        for n, name, first, last, wait in jobs:
            for w in wait:
                require(w in known or w in initial, 'job %d of %s waits for %d, which is no earlier job', n, name, w)
            known[n] = set(wait).union(*[known.get(w, set()) for w in wait])
        where, seen = 0, []
        for module in stages:
            here = []
            while where < len(jobs) and (jobs[where][1] == module or jobs[where][1].startswith(module + '_batch')):
                here.append(jobs[where])
                where += 1
            require(here, 'stage %s is not submitted (jobs %s)', module, [j[1] for j in jobs])
            count = self.counts[module]
            covered = sum(j[3] - j[2] + 1 for j in here)
            done = []
            for n, name, first, last, wait in here:
                require(known[n].issuperset(initial) and known[n].issuperset(seen), '%s (job %d) waits for %s, earlier stages are jobs %s', name, n, sorted(known[n]), list(initial) + seen)
                require(not known[n].intersection(j[0] for j in here), '%s waits for jobs of the same stage', name)
                elements = list(range(first, last + 1))
                if not all_elements and len(elements) > 4:
                    elements = [first, first + 1, (first + last) // 2, last]
                for e, ran in zip(elements, self.run(n, elements)):
                    ran = [r for r in ran if r is not None]
                    require(ran or not tight, 'element %d of %s runs nothing', e, name)
                    for r in ran:
                        require(r[0] == module, 'element %d of %s runs %s', e, name, r)
                        done.append(r[1])
            require(len(done) == len(set(done)), 'operations of %s run twice: %s', module, sorted(d for d in done if done.count(d) > 1)[:5])
            if all_elements:
                require(len(done) == count, '%d of %d operations of %s are run', len(done), count, module)
            else:
                require(covered >= count if not tight else True, '%d elements for %d operations', covered, count)
                require(0 in done and (count - 1 in done or not tight), 'first or last operation of %s is not run (%s)', module, sorted(done))
            seen += [j[0] for j in here]
        require(where == len(jobs), 'submitted also %s', [j[1] for j in jobs[where:]])
        return jobs


waits = st.one_of(st.lists(st.integers(1, 99), max_size=2, unique=True), st.lists(st.integers(1, 99), max_size=2, unique=True), st.lists(st.integers(1, 999), min_size=15, max_size=70, unique=True))


@st.composite
def sizes(draw):
    size = draw(st.integers(1, 9))
    return {'size': size, 'count': max(1, draw(st.integers(0, 3)) * size + draw(st.integers(-1, 5))), 'wait': draw(waits), 'step': draw(st.sampled_from([1, 3, 997])),
            'jobs': draw(st.integers(1, 4)), 'tasks': draw(st.integers(1, 4)), 'kind': draw(st.sampled_from(['lsf_submission', 'lsf_submission_group', 'grouped', 'grouped'])), 'other': draw(st.integers(1, 3)),
            'script': draw(st.sampled_from(['lsf_commandrun.sh', 'lsf_commandrun_tall.sh', 'lsf_commandrun_solver.sh', 'lsf_commandrun_solver_climatology.sh', 'lsf_commandrun_solver_large_scale.sh', 'lsf_commandrun_solver_large_scale_high_memory.sh'])),
            'absent': draw(st.integers(0, 9)) == 0, 'fail': draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 3)))}


condition = lambda wait: ' && '.join('done(%d)' % w for w in wait)


@facet(sizes(), quick=110, thorough=1500, shards=4)
def one_module(case):
    """all operations of one module, in arrays of any size: non-trivial with more than one array"""
    group = case['kind'] == 'grouped'
    size = case['jobs'] * case['tasks'] if group else case['size']
    with scratch() as root:
        cluster = Cluster(root, 'advanced_standard', {'wanted': case['count'], 'wanted_also': case['other']}, case['step'], case['fail'])

        def call(module):
            name = 'missing' if case['absent'] else 'wanted'
            if group:
                return module.submit_eumopps_jobs_grouped(cluster.catalogue, name, wait_options=condition(case['wait']), lsf_script='lsf_commandrun_group.sh', jobs_per_lsfbatch=case['jobs'], tasks_per_job=case['tasks'], output_directory=root)
            return module.submit_eumopps_jobs(cluster.catalogue, name, wait_options=condition(case['wait']), lsf_script=case['script'], eumopps_batchsize=case['size'], output_directory=root)
        run = lambda: cluster.python('lsf_submission' if case['kind'] == 'lsf_submission' else 'lsf_submission_group', call)
        if case['absent']:
            require(raises(ValueError, run) and not cluster.jobs(), 'a module that is not in the catalogue is submitted')
            return False
        arrays = -(-case['count'] // size)
        if case['fail'] is not None and case['fail'] < arrays:
            require(raises(RuntimeError, run) and len(cluster.jobs()) == case['fail'], 'submission goes on after a failure')
            return True
        ids = run()
        jobs = cluster.check(['wanted'], case['wait'])
        require([str(i) for i in ids] == [str(j[0]) for j in jobs], 'jobs are %s, answer %s', [j[0] for j in jobs], ids)
        require(len(jobs) == arrays, '%d arrays for %d operations by %d', len(jobs), case['count'], size)
    return len(jobs) > 1


counts = st.one_of(st.integers(1, 3), st.sampled_from([365, 366, 367, 731, 732, 733]), st.sampled_from([1097, 1000, 1098, 20, 21, 1999, 2000, 2001]))


@st.composite
def runs(draw):
    first = draw(st.integers(0, 2))
    last = first + draw(st.integers(0, 2))
    # sizes of stages: long ones are costly
    c = draw(st.lists(counts, min_size=8, max_size=8))
    return {'first': first, 'last': last, 'final': draw(st.integers(first, last + 1)), 'flags': draw(st.lists(st.sampled_from([True, True, False]), min_size=6, max_size=6)), 'counts': c, 'wait': draw(waits),
            'step': draw(st.sampled_from([1, 13])), 'module': draw(st.sampled_from(['lsf_submission', 'lsf_submission_group'])), 'fail': draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 6))), 'main': draw(st.booleans()),
            'local': draw(st.booleans())}


def stages(case, iterations, final):
    flags = dict(zip(['climatology_input', 'climatology_solve', 'large_scale_input', 'large_scale_solve', 'local_input_and_solve', 'output_grid'], case['flags']))
    wanted = []
    for i in iterations:
        for name in ('climatology_input', 'climatology_solve', 'large_scale_input', 'large_scale_solve', 'local_input_and_solve', 'output_grid'):
            if flags[name] and (name != 'output_grid' or i == final):
                wanted.append('%s_%d' % (name, i))
            if flags[name] and name.endswith('e_solve') or flags[name] and name == 'climatology_solve':
                if i == final:
                    wanted.append('%s_prior_sample_%d' % (name, i))
    return flags, wanted


@facet(runs(), quick=48, thorough=700, shards=6, cost=3)
def iterations(case):
    """iterations of the analysis: non-trivial with more than one stage"""
    flags, wanted = stages(case, range(case['first'], case['last'] + 1), case['final'])
    counts = {}
    for i in range(0, 6):
        for k, name in enumerate(['climatology_input', 'climatology_solve', 'climatology_solve_prior_sample', 'large_scale_input', 'large_scale_solve', 'large_scale_solve_prior_sample', 'local_input_and_solve', 'output_grid']):
            counts['%s_%d' % (name, i)] = case['counts'][k] if k in (0, 3, 6, 7) else 1
    with scratch() as root:
        cluster = Cluster(root, 'advanced_standard', counts, case['step'], case['fail'])

        def call(module):
            if case['main']:
                arguments = ['program', cluster.catalogue, '--first_iteration', str(case['first']), '--last_iteration', str(case['last']), '--final_iteration', str(case['final']), '--wait_options', condition(case['wait'])]
                for name, value in flags.items():
                    arguments += ['--' + name, str(int(value))]
                before, sys.argv = sys.argv, arguments
                try:
                    return module.main()
                finally:
                    sys.argv = before
            return module.eustace_multi_iteration(case['first'], case['last'], case['final'], cataloguefilename=cluster.catalogue, wait_options=condition(case['wait']), **flags)
        try:
            cluster.python(case['module'], call)
            failed = False
        except RuntimeError:
            failed = True
        jobs = cluster.jobs()
        if failed:
            require(case['fail'] is not None and len(jobs) == case['fail'], 'submission fails after %d jobs, the batch system after %s', len(jobs), case['fail'])
            return len(jobs) > 1
        require(case['fail'] is None or len(jobs) <= case['fail'], 'a failure of the batch system is not reported')
        cluster.check(wanted, case['wait'], all_elements=False)
    return len(wanted) > 1


@facet(st.fixed_dictionaries({'kind': st.sampled_from(['single', 'optimisation', 'preview']), 'number': st.one_of(st.none(), st.integers(0, 5)), 'counts': st.lists(counts, min_size=6, max_size=6), 'wait': waits,
                              'module': st.sampled_from(['lsf_submission', 'lsf_submission_group']), 'step': st.sampled_from([1, 13])}), quick=24, thorough=300, shards=3, cost=3)
def other_runs(case):
    """one iteration alone, optimisation and preview: non-trivial with more than one stage"""
    if case['kind'] == 'single':
        names = ['climatology_input', 'climatology_solve', 'large_scale_input', 'large_scale_solve', 'local_input_and_solve', 'output_grid']
    elif case['kind'] == 'optimisation':
        names = [n + ('' if case['number'] is None else '_%d' % case['number']) for n in ('split_local_component', 'input_summaries_create', 'input_summaries_merge')]
    else:
        names = ['output_grid_preview_%d' % (case['number'] or 0)]
    with scratch() as root:
        cluster = Cluster(root, 'advanced_standard', {n: c if 'solve' not in n or 'local' in n else 1 for n, c in zip(names, case['counts'])}, case['step'])
        wait = condition(case['wait'])
        if case['kind'] == 'single':
            def call(module):
                # the catalogue of this function has a fixed name
                real = module.submit_eumopps_jobs
                module.submit_eumopps_jobs = lambda catalogue, *args, **kwargs: real(cluster.catalogue, *args, **kwargs)
                try:
                    return module.eustace_single_iteration()
                finally:
                    module.submit_eumopps_jobs = real
            cluster.python(case['module'], call)
            case['wait'] = []
        elif case['kind'] == 'optimisation':
            result = cluster.python(case['module'], lambda module: module.eustace_optimisation(case['number'], cluster.catalogue, wait))
            case['module'] = result
        else:
            result = cluster.python('grid_preview', lambda module: module.eustace_early_grid(case['number'] or 0, cluster.catalogue, wait))
            case['module'] = result
        jobs = cluster.check(names, case['wait'], all_elements=False)
        if case['kind'] != 'single':
            last = [j[0] for j in jobs if j[1].startswith(names[-1])]
            require(case['module'] == condition(last), 'condition to wait for: %s, jobs of the last stage %s', case['module'], last)
    return len(names) > 1


def tools(*kinds):
    return st.fixed_dictionaries({'kind': st.sampled_from(kinds), 'count': counts, 'counts': st.lists(st.integers(1, 400), min_size=4, max_size=4), 'wait': waits,
                                  'step': st.sampled_from([1, 13]), 'options': st.booleans(), 'all': st.integers(0, 9)})


@facet(tools('iterations'), quick=8, thorough=100, shards=4, cost=3)
def shell_iterations(case):
    """the shell tool for iterations"""
    return shell_tools(case)


@facet(tools('runlsf', 'runlsf', 'runlsf', 'runlsf', 'solver', 'diagnostic', 'rawbinary', 'pointers'), quick=96, thorough=800, shards=6, cost=3)
def shell_tools(case):
    """the shell tools: non-trivial with more than one array"""
    kind, count = case['kind'], case['count']
    suite = {'diagnostic': 'diagnosticgrid', 'rawbinary': 'rawbinary', 'pointers': 'rawbinary'}.get(kind, 'advanced_standard')
    names = ['wanted']
    counts = {'wanted': count}
    if kind == 'solver':
        counts['wanted'] = count % 5 + 1
    if kind == 'iterations':
        parts = ['climatology_input', 'climatology_solve', 'large_scale_input', 'large_scale_solve', 'local_input_and_solve']
        names = ['%s_%d' % (p, i) for i in range(3) for p in parts] + ['output_grid']
        counts = {n: 1 if 'solve' in n and 'local' not in n else case['counts'][k % 4] for k, n in enumerate(names)}
    with scratch() as root:
        cluster = Cluster(root, suite, counts, case['step'], file=False)
        open(cluster.catalogue, 'w').close()
        options = ['--allow_unversioned_code'] if case['options'] else []
        script = {'runlsf': 'runlsf.sh', 'solver': 'runlsf_solver.sh', 'iterations': 'runlsf_iterations.sh', 'diagnostic': 'runlsf.sh', 'rawbinary': 'runlsf_rawbinary.sh', 'pointers': 'runlsf_locationpointers.sh'}[kind]
        wait = []
        if kind == 'iterations':
            arguments = [cluster.catalogue]
        elif kind in ('rawbinary', 'pointers'):
            arguments = [cluster.catalogue, 'wanted'] + options
        else:
            wait = case['wait']
            arguments = [cluster.catalogue, 'wanted', condition(wait)]
        process = cluster.shell(script, *arguments)
        require(process.returncode == 0, '%s fails: %s', script, process.stdout)
        few = sum(j[3] - j[2] + 1 for j in cluster.jobs()) < 40
        jobs = cluster.check(names, wait, all_elements=few or case['all'] == 0 and kind != 'iterations' or case['all'] < 4 and kind in ('diagnostic', 'rawbinary') and count < 1000, tight=kind in ('runlsf', 'solver', 'iterations', 'pointers'))
        if kind in ('runlsf', 'solver'):
            require('Finished Condition: %s\n' % condition([j[0] for j in jobs]) in process.stdout, 'jobs %s: %s', jobs, process.stdout)
    return len(jobs) > 1


LOOKUPS = ['preparecorrelationranges_' + n for n in ('insitu_land_Tmin', 'insitu_land_Tmax', 'insitu_ocean_Tmean', 'surfaceairmodel_ice_Tmin', 'surfaceairmodel_ice_Tmax', 'surfaceairmodel_ice_Tmean', 'surfaceairmodel_land_Tmin', 'surfaceairmodel_land_Tmax',
                                                     'surfaceairmodel_ocean_Tmean')] + ['preparelocationlookup_insitu_land', 'preparelocationlookup_satellite']
FILES = [('preparedailymobile_' if n == 'insitu_ocean_Tmean' else 'preparedailyfixed_') + n for n in ('insitu_land_Tmin', 'insitu_land_Tmax', 'insitu_ocean_Tmean', 'surfaceairmodel_ice_Tmin', 'surfaceairmodel_ice_Tmax', 'surfaceairmodel_ice_Tmean',
                                                                                                 'surfaceairmodel_land_Tmin', 'surfaceairmodel_land_Tmax', 'surfaceairmodel_ocean_Tmean')]
POINTERS = ['preparelocationpointers_' + n for n in ('insitu_land_Tmin', 'insitu_land_Tmax', 'surfaceairmodel_ice_Tmin', 'surfaceairmodel_ice_Tmax', 'surfaceairmodel_ice_Tmean', 'surfaceairmodel_land_Tmin', 'surfaceairmodel_land_Tmax', 'surfaceairmodel_ocean_Tmean')]


@facet(st.fixed_dictionaries({'kind': st.sampled_from(['lookups', 'files', 'pointers', 'create', 'create']), 'counts': st.lists(counts, min_size=4, max_size=4), 'options': st.booleans(), 'before': st.booleans(), 'step': st.sampled_from([1, 13])}), quick=20, thorough=200, shards=4, cost=3)
def raw_binary(case):
    """preparation of raw binary files: non-trivial always"""
    kind = case['kind']
    names = {'lookups': LOOKUPS, 'files': FILES, 'pointers': POINTERS, 'create': FILES}[kind]
    counts = {n: 1 if n in LOOKUPS else case['counts'][k % 4] for k, n in enumerate(names + LOOKUPS)}
    with scratch() as root:
        cluster = Cluster(root, 'rawbinary', counts, case['step'], file=False)
        options = ['--allow_unversioned_code'] if case['options'] else []
        directory = os.path.join(root, 'work', 'someone', 'rawbinary')
        if kind == 'create':
            cluster.catalogue = os.path.join(directory, 'catalogue.nc')
            if case['before']:
                os.makedirs(directory)
            options = []
        else:
            open(cluster.catalogue, 'w').close()
        process = cluster.shell({'lookups': 'buildall_lookups.sh', 'files': 'buildall_rawbinary.sh', 'pointers': 'buildall_locationpointers.sh', 'create': 'create_rawbinary_files.sh'}[kind], *([] if kind == 'create' else [cluster.catalogue] + options))
        require(process.returncode == 0, 'fails: %s', process.stdout)
        ran = cluster.log()
        if kind == 'create':
            if case['before']:
                require(ran and ran[0] == ['rm', '-rf', 'rm', directory] and not any('rm' in r for r in ran[1:]), 'removes %s', ran[:2])
                ran = ran[1:]
            require(os.path.isdir(directory), 'no directory')
            for name, more in (('rawbinary_inputs.json', []), ('rawbinary_generation.json', ['--update'])):
                words = ran.pop(0)
                require(words[:2] == ['-m', 'eumopps.catalogue.build'] and sorted(words[2:]) == sorted(['--pathdefault', directory, name, cluster.catalogue] + more), 'command %s', words)
                require([w for w in words[2:] if w in (name, cluster.catalogue)] == [name, cluster.catalogue] and words[words.index('--pathdefault') + 1] == directory, 'command %s', words)
        if kind in ('create', 'lookups'):
            require(sorted(cluster.operation(w) for w in ran) == sorted((n, 0) for n in LOOKUPS), 'lookups made: %s', ran)
            require(all(('--allow_unversioned_code' in w) == bool(options) for w in ran), 'options: %s', ran)
        else:
            require(not ran, 'runs %s', ran)
        if kind == 'lookups':
            require(not cluster.jobs(), 'submits jobs')
            return True
        # these do not wait for one another
        jobs = cluster.jobs()
        modules = []
        for job in jobs:
            name = job[1].split('_batch')[0]
            if name not in modules:
                modules.append(name)
        require(sorted(modules) == sorted(names), 'submitted %s', modules)
        for job in jobs:
            name = job[1].split('_batch')[0]
            ran = cluster.run(job[0], [job[2]])
            require(len(ran[0]) == 1 and ran[0][0] and ran[0][0][0] == name, 'first of %s runs %s', job[1], ran)
        for name in names:
            require(sum(j[3] - j[2] + 1 for j in jobs if j[1].split('_batch')[0] == name) >= counts[name], 'not all operations of %s are submitted', name)
    return True
