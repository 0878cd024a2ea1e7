"""Elements whose design is a smooth function of place and time, and their components, for checks of gridded output."""
import datetime

import numpy
import scipy.sparse
from hypothesis import strategies as st
from harness import require

from eustace.analysis.advanced_standard.elements.element import ElementLinear, ElementLinearDesign, ElementPrior

coefficient = st.integers(-8, 8).map(lambda x: x / 4.0)


def fields(least=1, most=4, positive=False):
    """columns [constant, by latitude, by longitude, harmonic in longitude, by day]"""
    one = st.lists(coefficient, min_size=5, max_size=5)
    if positive:
        one = one.map(lambda c: [9.0] + c[1:])
    return st.lists(one, min_size=least, max_size=most)


def matrix(columns, latitudes, longitudes, time):
    latitudes, longitudes = numpy.asarray(latitudes, float), numpy.asarray(longitudes, float)
    rows = [c[0] + c[1] * latitudes / 90.0 + c[2] * numpy.cos(numpy.radians(longitudes)) + c[3] * numpy.sin(numpy.radians(3 * longitudes)) + c[4] * numpy.cos(float(time)) for c in columns]
    return numpy.array(rows).T.reshape(len(latitudes), len(columns))


class Design(ElementLinearDesign):
    def __init__(self, columns, structure):
        super().__init__()
        self.columns, self.structure = columns, structure

    def design_number_of_state_parameters(self):
        return len(self.columns)

    def design_matrix(self):
        places = self.structure.location_polar_coordinates()
        return scipy.sparse.csr_matrix(matrix(self.columns, places[:, 0], places[:, 1], self.structure.time_index()))


class Prior(ElementPrior):
    def __init__(self, diagonal):
        self.diagonal = diagonal

    def prior_number_of_state_parameters(self):
        return len(self.diagonal)

    def prior_precision(self):
        return scipy.sparse.diags(numpy.array(self.diagonal), format='csr')


class Field(ElementLinear):
    def __init__(self, columns, diagonal=None):
        super().__init__()
        self.columns, self.diagonal = columns, diagonal or [1.0] * len(columns)

    def element_design(self, observationstructure):
        # the day number and the date of a structure are those of one day
        when, day = observationstructure.time_datetime(), observationstructure.time_index()
        require(isinstance(when, datetime.datetime) and (when.date() - datetime.date(1850, 1, 1)).days == int(day), 'day %s of date %s', day, when)
        return Design(self.columns, observationstructure)

    def element_prior(self, hyperparameters):
        return Prior(self.diagonal)
