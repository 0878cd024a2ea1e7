"""Cases: data sets of 0 to several hundred files (around multiples of the number of checksum threads) in one to three
subsets, with generated contents (empty, repeated, binary), some files removed or made unreadable before checksums are
computed; catalogues built to file with and without checksums, restricted to one data set, and updated. Oracle: the
POSIX checksum computed from its definition on the bytes written, and their number. A case is non-trivial when at
least two files differ in contents."""

import os

from hypothesis import strategies as st
from harness import facet, require, scratch
import refcksum

from eumopps.catalogue import build
from eumopps.catalogue.catalogue import Catalogue
from eumopps.catalogue.checksum import Checksum
from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF
from eumopps.catalogue.storage import DataStorageFiles
from eumopps.version.svn import set_allow_unversioned_code

contents = st.one_of(st.binary(max_size=40), st.builds(lambda b, n: b * n, st.binary(min_size=1, max_size=4), st.integers(0, 800)), st.builds(lambda b, n: b * n, st.binary(min_size=3, max_size=7), st.integers(800, 50000)))
names = st.text(alphabet='ab0 _-+:.\'"(é', min_size=1, max_size=12).filter(lambda n: n.strip('.') != '' and not n.startswith('-'))


def text(value):
    return value.decode() if isinstance(value, bytes) else str(value)


@facet(st.tuples(names, contents), quick=300, thorough=5000)
def one_file(case):
    """checksum and size of a file are those of its bytes"""
    name, data = case
    with scratch() as root:
        path = os.path.join(root, name)
        with open(path, 'wb') as stream:
            stream.write(data)
        result = Checksum(path)
        require(text(result.checksum) == refcksum.cksum(data), 'checksum %s of %d bytes, expected %s', text(result.checksum), len(data), refcksum.cksum(data))
        require(int(result.size) == len(data), 'size %s of %d bytes', result.size, len(data))
    return len(data) > 0


@st.composite
def counts(draw):
    subsets = []
    for _ in range(draw(st.integers(1, 2))):
        n = draw(st.one_of(st.integers(0, 20), st.integers(55, 75), st.sampled_from([63, 64, 65, 127, 128, 129, 130, 191, 192, 193, 100, 150]), st.integers(190, 400)))
        gone = draw(st.lists(st.integers(0, n - 1), max_size=4, unique=True)) if n else []
        subsets.append([n, gone])
    return {'subsets': subsets, 'salt': draw(st.integers(0, 1000))}


def body(s, i, salt):
    return ('%d.%d.%d|' % (s, i, salt)).encode() * (1 + (i * 7 + salt) % 5)


def file_name(s, i):
    return 's%d_%04d%s.dat' % (s, i, ':x' if i % 11 == 3 else '')


def expect(entry, data):
    if data is None:
        require(entry.checksum is None and entry.size is None, 'file %r cannot be read but has checksum %r and size %r', entry.name, entry.checksum, entry.size)
    else:
        require(entry.checksum is not None and text(entry.checksum) == refcksum.cksum(data), 'file %r has checksum %r, expected %s', entry.name, entry.checksum, refcksum.cksum(data))
        require(int(entry.size) == len(data), 'file %r has size %r, expected %d', entry.name, entry.size, len(data))


@facet(counts(), quick=96, thorough=2400, cost=3.0, shards=6)
def many_files(case):
    """however many files there are, each gets its own checksum and size, and a missing one none"""
    with scratch() as place:
        root, elsewhere = os.path.join(place, 'here'), os.path.join(place, 'there')
        os.mkdir(root)
        os.mkdir(elsewhere)
        data = {}
        for s, (n, gone) in enumerate(case['subsets']):
            for i in range(n):
                name = file_name(s, i)
                data[name] = body(s, i, case['salt'])
                path = os.path.join(root, name)
                if i % 5 == case['salt'] % 7:          # some are links to files kept elsewhere
                    os.symlink(os.path.join('..', os.path.basename(elsewhere), name), path)
                    path = os.path.join(elsewhere, name)
                with open(path, 'wb') as stream:
                    stream.write(data[name])
        dataset = CatalogueDataSet('d', root, subsets=[CatalogueDataSubset(DataStorageFiles(['s%d_%%A.dat' % s])) for s in range(len(case['subsets']))])
        dataset.search()
        for s, (n, gone) in enumerate(case['subsets']):
            for i in gone:
                name = file_name(s, i)
                os.remove(os.path.join(root, name))
                data[name] = None
        dataset.checksum()
        for s, (n, gone) in enumerate(case['subsets']):
            require(len(dataset.subsets[s].matches) == n, '%d files listed of %d', len(dataset.subsets[s].matches), n)
            for entry in dataset.subsets[s].matches:
                expect(entry, data[entry.name])
        return sum(n for n, _ in case['subsets']) > 1


@st.composite
def histories(draw):
    sets = [draw(st.integers(0, 6)) for _ in range(draw(st.integers(1, 3)))]
    return {'sets': sets, 'split': draw(st.integers(0, len(sets))), 'nochecksum': draw(st.booleans()), 'salt': draw(st.integers(0, 99)),
            'filter': draw(st.one_of(st.none(), st.integers(0, len(sets) - 1)))}


@facet(histories(), quick=60, thorough=1500, shards=2)
def built(case):
    """a catalogue built to file (in one go, by updates, or for one data set) holds every file with its checksum and size"""
    set_allow_unversioned_code(True)
    with scratch() as root:
        data = {}
        for d, n in enumerate(case['sets']):
            os.makedirs(os.path.join(root, 'data%d' % d))
            for i in range(n):
                name = 'f_%s_%d.dat' % (2000 + d, i)
                data[(d, name)] = body(d, i, case['salt'])
                with open(os.path.join(root, 'data%d' % d, name), 'wb') as stream:
                    stream.write(data[(d, name)])
            with open(os.path.join(root, 'data%d' % d, 'readme'), 'wb') as stream:
                stream.write(b'x')

        def definition(chosen):
            return Catalogue([CatalogueDataSet('set%d' % d, os.path.join(root, 'data%d' % d), subsets=[CatalogueDataSubset(DataStorageFiles(['f_%Y_%A.dat']))]) for d in chosen])
        target = os.path.join(root, 'catalogue.nc')
        everything = range(len(case['sets']))
        if case['filter'] is not None:
            chosen = [case['filter']]
            build.build(definition(everything), target, dataset_filter='set%d' % case['filter'], nochecksum=case['nochecksum'])
        else:
            chosen = everything
            build.build(definition(everything[:case['split']]), target, nochecksum=case['nochecksum'])
            build.build(definition(everything[case['split']:]), target, update=True, nochecksum=case['nochecksum'])
        catalogue = CatalogueReaderNetCDF().load(target)
        require([s.name for s in catalogue.datasets] == ['set%d' % d for d in chosen], 'data sets are %r', [s.name for s in catalogue.datasets])
        for d, dataset in zip(chosen, catalogue.datasets):
            subset = dataset.subsets[0]
            require(sorted(str(e.name) for e in subset.matches or []) == sorted(n for k, n in data if k == d), 'data set %d lists %r', d, [e.name for e in subset.matches or []])
            require([str(n) for n in dataset.non_matching] == ['readme'], 'non-matching files are %r', dataset.non_matching)
            for entry in subset.matches or []:
                if case['nochecksum']:
                    require(not entry.checksum and not entry.size, 'checksum %r without having asked for it', entry.checksum)
                else:
                    expect(entry, data[(d, str(entry.name))])
        return len(data) > 1
