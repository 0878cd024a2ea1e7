"""Cases: grids of 2 to 6 latitudes (rising or falling) and 2 to 6 longitudes with even spacing, 1 to 3 by 1 to 3 sampling points
per cell, any blocking number from 1 to more than the number of cells, components with one state or one per time, states and
samples present or missing, and histories of changing time and component, keeping or renewing the design, saving and loading.
Oracle: direct sums over the points of each cell weighted by cosine of latitude. A case is non-trivial when cells have several points
or the blocking number is not one."""

import io
import os
from contextlib import redirect_stdout
from datetime import datetime, timedelta

import numpy
from hypothesis import strategies as st
import genfields
from harness import facet, raises, require, require_close, scratch

from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
from eustace.analysis.advanced_standard.components.spatial import SpatialComponent
from eustace.analysis.advanced_standard.components.storage_files_batch import SpaceTimeComponentSolutionStorageBatched_Files, SpatialComponentSolutionStorageIndexed_Files
from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory, SpaceTimeComponentSolutionStorage_InMemory, SpatialComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.fileio.output_projector import Projector
from eustace.analysis.advanced_standard.fileio.output_structure_rectilinear import OutputRectilinearGridStructure, Regridder

number = st.integers(-40, 40).map(lambda x: x / 8.0)


def quiet(f, *args, **kwargs):
    with redirect_stdout(io.StringIO()):
        return f(*args, **kwargs)


def flat(x):
    return numpy.array(x).ravel()


@st.composite
def grids(draw):
    dlat, dlon = draw(st.sampled_from([0.25, 1.0, 2.5, 7.5])), draw(st.sampled_from([0.25, 1.0, 5.0, 20.0]))
    n, m = draw(st.integers(2, 6)), draw(st.integers(2, 6))
    lat = draw(st.one_of(st.integers(-80, 40), st.integers(-80, 40), st.just(-90), st.just(90 - dlat * n))) + dlat / 2
    lon = draw(st.integers(-180, 180)) + dlon / 2
    latitudes = [lat + dlat * i for i in range(n)]
    if draw(st.booleans()):
        latitudes.reverse()
    return {'lat': latitudes, 'lon': [lon + dlon * i for i in range(m)], 'd': [dlat, dlon], 'points': [draw(st.integers(1, 3)), draw(st.integers(1, 3))], 'blocking': draw(st.one_of(st.integers(1, 8), st.sampled_from([36, 37, 100])))}


def averages(grid, columns, time, magnitudes=False):
    (dlat, dlon), (n, m) = grid['d'], grid['points']
    out = []
    for lat in grid['lat']:
        for lon in grid['lon']:
            a = numpy.array([lat - dlat / 2 + (i + 0.5) * dlat / n for i in range(n) for _ in range(m)])
            o = numpy.array([lon - dlon / 2 + (j + 0.5) * dlon / m for _ in range(n) for j in range(m)])
            w = numpy.cos(numpy.radians(a))
            x = genfields.matrix(columns, a, o, time)
            out.append((w[:, None] * (numpy.abs(x) if magnitudes else x)).sum(axis=0) / w.sum())
    return numpy.array(out)


class Solution:
    """what the regridder asks of a component solution"""

    def __init__(self, columns, state):
        self.columns, self.state, self.sizes = columns, numpy.array(state), []

    def evaluate(self, structure, factor, magnitudes):
        places = structure.location_polar_coordinates()
        require(places.shape == (structure.number_of_observations(), 2), 'places of shape %s for %s', places.shape, structure.number_of_observations())
        a = genfields.matrix(self.columns, places[:, 0], places[:, 1], structure.time_index())
        return factor * ((numpy.abs(a) if magnitudes else a) @ self.state)

    def solution_observation_expected_value(self, structure):
        return self.evaluate(structure, 1.0, False)

    def solution_observation_expected_uncertainties(self, structure):
        return self.evaluate(structure, 2.0, True)

    def solution_observation_prior_uncertainties(self, structure):
        return self.evaluate(structure, 3.0, True)


@facet(st.tuples(grids(), genfields.fields(1, 3), st.lists(number, min_size=3, max_size=3), st.integers(0, 60000)), quick=700, thorough=12000, cost=2, shards=2)
def regridding(given):
    """Averages over cells of values and uncertainties"""
    grid, columns, state, time = given
    state = state[:len(columns)]
    when = datetime(1850, 1, 1) + timedelta(days=time)
    structure = OutputRectilinearGridStructure(time, when, numpy.array(grid['lat']), numpy.array(grid['lon']))
    places = structure.location_polar_coordinates()
    require_close(places, numpy.array([[a, o] for a in grid['lat'] for o in grid['lon']]), 'places of a grid', 0, 0)
    require(structure.number_of_observations() == len(places) and structure.time_index() == time and structure.time_datetime() == when, 'size or time of a grid')
    solution = Solution(columns, state)
    expected = averages(grid, columns, time) @ state
    magnitudes = averages(grid, columns, time, True) @ state
    for field, values in (('MAP', expected), ('post_STD', 2 * magnitudes), ('prior_STD', 3 * magnitudes)):
        got = quiet(Regridder(structure, grid['points'], grid['blocking']).compute_gridded_expected_value, field, solution)
        require_close(flat(got), values, 'cell averages of ' + field, 1e-9, 1e-9)
    require(raises(ValueError, quiet, Regridder(structure, grid['points'], grid['blocking']).compute_gridded_expected_value, 'mean', solution), 'unknown field accepted')
    return grid['points'] != [1, 1] or grid['blocking'] > 1


KINDS = ['state', 'sample', 'prior']


@st.composite
def components(draw):
    columns = draw(genfields.fields(1, 4))
    kind = draw(st.sampled_from(['all', 'each', 'all-files', 'each-files']))
    n, size = len(columns), draw(st.integers(1, 5))
    content = {}
    for time in [0, 1, 2] if kind.startswith('each') else [0]:
        present = [True, True, True] if kind.endswith('files') else [draw(st.booleans()) or draw(st.booleans()) for _ in KINDS]
        one = {}
        for what, there in zip(KINDS, present):
            if there:
                one[what] = [[draw(number) for _ in range(1 if what == 'state' else size)] for _ in range(n)]
        content[str(time)] = one
    return {'kind': kind, 'columns': columns, 'content': content, 'column_state': draw(st.booleans())}


def build(c, times, folder):
    each = c['kind'].startswith('each')
    if c['kind'].endswith('files'):
        os.makedirs(folder)
        options = {}
        for what, start in (('state', 'statefile'), ('sample', 'sample_file'), ('prior', 'prior_sample_file')):
            names = [os.path.join(folder, '%s%d' % (what, i)) for i in range(len(times) if each else 1)]
            for mode in ('read', 'write'):
                options[start + ('list_' if each else 'name_') + mode] = names if each else names[0]
        storage = SpatialComponentSolutionStorageIndexed_Files(time_list=list(times), **options) if each else SpaceTimeComponentSolutionStorageBatched_Files(**options)
    else:
        storage = SpatialComponentSolutionStorage_InMemory() if each else SpaceTimeComponentSolutionStorage_InMemory()
    for key, one in c['content'].items():
        for what, name in (('state', 'state'), ('sample', 'state_sample'), ('prior', 'state_prior_sample')):
            if what in one:
                x = numpy.array(one[what], float)
                if what == 'state' and not c['column_state']:
                    x = x.ravel()
                if each:
                    getattr(storage, 'partial_%s_write' % name)(x, times[int(key)])
                else:
                    getattr(storage, name + '_write')(x)
    return (SpatialComponent if each else SpaceTimeComponent)(ComponentStorage_InMemory(genfields.Field(c['columns']), None), storage)


actions = st.one_of(st.tuples(st.just('time'), st.integers(0, 2), st.booleans()), st.tuples(st.just('component'), st.integers(0, 1), st.booleans()), st.tuples(st.just('design')), st.tuples(st.just('design')), st.tuples(st.just('file')))


@facet(st.fixed_dictionaries({'grid': grids(), 'components': st.lists(components(), min_size=2, max_size=2), 'times': st.lists(st.integers(0, 60000), min_size=3, max_size=3, unique=True), 'actions': st.lists(actions, max_size=6), 'pick': st.lists(st.integers(0, 4), min_size=1, max_size=3)}), quick=500, thorough=9000, cost=3, shards=3)
def projecting(case):
    """Values, samples and their spread from a design kept or renewed as components and times change"""
    grid, times = case['grid'], case['times']
    with scratch() as folder:
        built = [build(c, times, os.path.join(folder, 'c%d' % i)) for i, c in enumerate(case['components'])]
        projector = Projector(numpy.array(grid['lat']), numpy.array(grid['lon']), grid['d'], times[0], grid['points'], grid['blocking'])
        time, which, design, content = 0, None, None, None
        for action in [('component', 0, False), ('design',)] + list(case['actions']):
            if action[0] == 'time':
                quiet(projector.update_time_index, times[action[1]], action[2])
                time = action[1]
                if not action[2]:
                    design = None
            elif action[0] == 'component':
                quiet(projector.set_component, built[action[1]], action[2])
                which = action[1]
                c = case['components'][which]
                content = c['content'][str(time) if c['kind'].startswith('each') else '0']
                if not action[2]:
                    design = None
            elif action[0] == 'design':
                quiet(projector.evaluate_design_matrix)
                design = averages(grid, case['components'][which]['columns'], times[time])
            elif design is not None:
                name = os.path.join(folder, 'projection')
                quiet(projector.save_projection, name)
                projector = Projector.load_projection(name)
                require_close(projector.design_matrix.toarray(), design, 'design of a projection read from file', 1e-9, 1e-9)
                # (a projection in a file has no states: they are read when its component is set)
                quiet(projector.set_component, projector.component, True)
                c = case['components'][which]
                content = c['content'][str(time) if c['kind'].startswith('each') else '0']
            if design is None or design.shape[1] != len(case['components'][which]['columns']):
                require(design is not None or projector.design_matrix is None, 'design is kept')
                continue
            require_close(projector.design_matrix.toarray(), design, 'design', 1e-9, 1e-9)
            value = quiet(projector.project_expected_value)
            if 'state' in content:
                require_close(flat(value), flat(design @ numpy.array(content['state'])), 'expected value', 1e-9, 1e-9)
            else:
                require(value is None, 'expected value without a state: %s', value)
            for what, prior in (('sample', False), ('prior', True)):
                spread, deviation = quiet(projector.project_sample_std, prior), quiet(projector.project_sample_deviation, prior)
                if what in content:
                    samples = design @ numpy.array(content[what])
                    require_close(flat(spread), samples.std(axis=1), 'spread of samples', 1e-9, 1e-9)
                    require_close(flat(deviation), numpy.sqrt((samples ** 2).mean(axis=1)), 'deviation of samples', 1e-9, 1e-9)
                else:
                    require(spread is None and deviation is None, 'spread without samples')
            values = quiet(projector.project_sample_values)
            if 'sample' in content:
                samples = design @ numpy.array(content['sample'])
                require_close(values, samples, 'projected samples', 1e-9, 1e-9)
                pick = [i % samples.shape[1] for i in case['pick']]
                require_close(quiet(projector.project_sample_values, numpy.array(pick) if case['pick'][0] % 2 == 0 else pick), samples[:, pick], 'chosen samples', 1e-9, 1e-9)
            else:
                require(values is None, 'projected samples without samples')
    return grid['points'] != [1, 1] or grid['blocking'] > 1
