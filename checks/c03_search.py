"""Cases: directory trees of files (names that fit a pattern, nearly fit it, fit several data sets or none; unusual
characters; files in tar and tar-gzip archives) and data set definitions of one to three subsets with one pattern or
two nested ones. Oracle: an independent exhaustive reader of naming patterns applied to the list of files created. A
case is non-trivial when at least one file fits and at least two files exist."""

import datetime
import io
import os
import tarfile

from hypothesis import strategies as st
from harness import facet, require, scratch
import genpattern
import refpattern

from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset
from eumopps.catalogue.storage import DataStorageFiles, layout_builder

ORDER = ('year', 'month', 'day', 'hour', 'minute', 'second')


def usable(patterns):
    """Patterns whose date fields state a time: year, then month, then day."""
    keys = set(k for p in patterns for kind, k in refpattern.pieces(p) if kind == '%')
    dates = keys & set('YmdHMS')
    return not dates or ('Y' in dates and ('d' not in dates or 'm' in dates))


def stated_time(fields):
    """The time a name states; ValueError when there is no such date."""
    if not any(k in fields for k in ORDER):
        return None
    v = [int(fields.get(k, 1 if k in ('month', 'day') else 0)) for k in ORDER]
    return datetime.datetime(*v)


def stated_tags(fields):
    out = []
    for t in 'ABC':
        if t not in fields:
            break
        out.append(fields[t])
    return out


def creatable(names):
    """Names usable as relative paths, without a file that is also a directory."""
    keep = []
    for n in sorted(set(names)):
        if not n or os.path.normpath(n) != n or n.startswith('/') or n in ('.', '..') or n.startswith('../') or len(n) > 150:
            continue
        if any(n.startswith(k + '/') or k.startswith(n + '/') for k in keep):
            continue
        keep.append(n)
    return keep


def make(root, names):
    for n in names:
        path = os.path.join(root, n)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as stream:
            stream.write(n)


@st.composite
def trees(draw):
    subsets = draw(st.lists(genpattern.patterns().filter(usable), min_size=1, max_size=3))
    if draw(st.integers(0, 3)) == 0:
        subsets.append(draw(st.sampled_from(subsets)))
    names = []
    for patterns in subsets:
        shared = draw(genpattern.values())
        for _ in range(draw(st.integers(1, 5))):
            v = draw(genpattern.values())
            if draw(st.booleans()):
                v = dict(shared, **{k: v[k] for k in draw(st.sets(st.sampled_from(sorted(v)), max_size=3))})
            names.append(draw(genpattern.perturbed(refpattern.fill(patterns, v))))
    names += draw(st.lists(st.text(alphabet='ab/01.', min_size=1, max_size=8), max_size=3))
    return {'subsets': subsets, 'names': creatable(names)}


def check_subset(subset, patterns, names, prefix=''):
    """Compare what a subset lists with what it must; returns the set of names read."""
    listed = [e.name for e in subset.matches]
    require(len(set(listed)) == len(listed), 'a file is listed more than once in %r', sorted(listed))
    bad = list(subset.value_errors)
    taken = set()
    for n in names:
        certain, readings = refpattern.readings(patterns, n)
        entry = [e for e in subset.matches if e.name == prefix + n]
        in_errors = [b for b in bad if b in (n, prefix + n)]
        if not readings:
            require(not entry and not in_errors, 'file %r does not fit %r but is listed', n, patterns)
            continue
        if certain:
            require(len(entry) + len(in_errors) == 1, 'file %r fits %r and is listed %d times', n, patterns, len(entry) + len(in_errors))
        if not entry and not in_errors:
            continue
        taken.add(n)
        options = []
        for fields in readings:
            try:
                options.append((stated_time(fields), stated_tags(fields)))
            except ValueError:
                options.append('error')
        if in_errors:
            require('error' in options, 'file %r with patterns %r states a valid time but is listed as having none', n, patterns)
        else:
            require((entry[0].time, list(entry[0].tags)) in options, 'file %r with patterns %r is listed with time %s and tags %s, expected one of %s', n, patterns, entry[0].time, entry[0].tags, options[:3])
    known = set(prefix + n for n in names)
    require(set(listed) <= known, 'entries %s are not files that exist', sorted(set(listed) - known))
    return taken


@facet(trees(), quick=3000, thorough=30000, shards=6)
def files(case):
    """every file of the tree is in the data sets it fits, with its time and tags, or else listed as non-matching"""
    with scratch() as root:
        make(root, case['names'])
        dataset = CatalogueDataSet('d', root, subsets=[CatalogueDataSubset(DataStorageFiles(p)) for p in case['subsets']])
        dataset.search()
        taken = set()
        for subset, patterns in zip(dataset.subsets, case['subsets']):
            taken |= check_subset(subset, patterns, case['names'])
        require(sorted(dataset.non_matching) == sorted(set(case['names']) - taken), 'non-matching files are %r, expected %r', sorted(dataset.non_matching), sorted(set(case['names']) - taken))
        # searching again gives the same
        before = [(sorted(e.name for e in s.matches), sorted(s.value_errors)) for s in dataset.subsets]
        dataset.search()
        after = [(sorted(e.name for e in s.matches), sorted(s.value_errors)) for s in dataset.subsets]
        require(before == after, 'a second search lists %r instead of %r', after, before)
        return bool(taken) and len(case['names']) > 1


@st.composite
def archives(draw):
    inner = draw(genpattern.patterns().filter(usable))[-1:]
    if any('%' + t in inner[0] for t in 'abc'):
        inner = ['f_%Y%m%d_%A.dat']
    if not usable(inner):
        inner = ['f_%Y%m%d.dat']
    out = []
    for i in range(draw(st.integers(1, 3))):
        members = []
        for _ in range(draw(st.integers(0, 4))):
            members.append(draw(genpattern.perturbed(refpattern.fill(inner, draw(genpattern.values())))))
        out.append([draw(st.sampled_from(['arch_%d.tar' % i, 'arch_%d.tar' % i, 'sub/arch_%d.tar' % i, 'other%d.tar' % i])), [m for m in creatable(members) if m]])
    return {'kind': draw(st.sampled_from(['tar', 'tar-gzip'])), 'inner': inner[0], 'archives': out}


@facet(archives(), quick=300, thorough=6000, shards=2)
def archive_members(case):
    """every file inside an archive is in the data set it fits or listed as unused"""
    with scratch() as root:
        for name, members in case['archives']:
            path = os.path.join(root, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with tarfile.open(path, 'w:gz' if case['kind'] == 'tar-gzip' else 'w') as archive:
                for m in members:
                    info = tarfile.TarInfo(m)
                    info.size = (len(m) + sum(map(ord, m))) % 4
                    archive.addfile(info, io.BytesIO(b'abc'[:info.size]))
        layout = layout_builder(case['kind'], {'archivepathname': 'arch_?.tar', 'internalpathname': case['inner']})
        dataset = CatalogueDataSet('d', root, subsets=[CatalogueDataSubset(layout)])
        dataset.search()
        subset = dataset.subsets[0]
        before = [sorted(e.name for e in subset.matches), sorted(subset.value_errors), sorted(map(sorted, subset.archive_unused))]
        dataset.search()
        after = [sorted(e.name for e in subset.matches), sorted(subset.value_errors), sorted(map(sorted, subset.archive_unused))]
        require(before == after, 'a second search of the archives lists %r instead of %r', after, before)
        require(sorted(dataset.non_matching) == sorted(n for n, _ in case['archives'] if not n.startswith('arch_')), 'non-matching files are %r', dataset.non_matching)
        total = set()
        unused = []
        for item in subset.archive_unused:
            unused.extend([item] if isinstance(item, str) else item)
        for name, members in case['archives']:
            if not name.startswith('arch_'):
                continue
            view = CatalogueDataSubset(None, [e for e in subset.matches if e.name.startswith(name + ':')], [v for v in subset.value_errors if v in members])
            listed = [e.name[len(name) + 1:] for e in view.matches]
            require(set(listed) <= set(members), 'entries of %s are %r', name, listed)
            for m in members:
                others = [x for n, x in case['archives'] if n != name and m in x]
                certain, readings = refpattern.readings([case['inner']], m)
                if not readings:
                    require(m not in listed, 'member %r does not fit %r but is listed', m, case['inner'])
                    require(name + ':' + m in unused, 'member %r of %s fits nothing but is not listed as unused', m, name)
                    continue
                total.add(m)
                require(name + ':' + m not in unused, 'member %r of %s fits but is listed as unused', m, name)
                options = []
                for fields in readings:
                    try:
                        options.append((stated_time(fields), stated_tags(fields)))
                    except ValueError:
                        options.append('error')
                entry = [e for e in view.matches if e.name == name + ':' + m]
                require(len(entry) <= 1, 'member %r of %s is listed %d times', m, name, len(entry))
                if entry:
                    require((entry[0].time, list(entry[0].tags)) in options, 'member %r is listed with time %s and tags %s, expected one of %s', m, entry[0].time, entry[0].tags, options[:3])
                else:
                    require('error' in options and m in subset.value_errors, 'member %r of %s fits %r but is not listed', m, name, case['inner'])
        return bool(total)
