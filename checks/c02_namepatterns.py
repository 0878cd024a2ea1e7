"""Cases: naming patterns (one, or parent and child, with date fields, tags, lower-case tags, question marks), sets of
names filled from values and perturbed by small edits. Oracle: an independent exhaustive reader of patterns (every way
the name can be read); where there is no reading the name must not match, where there is one it must be returned,
where there are several the answer must be one of them; the answer for a name must not depend on the other names. A
case is non-trivial when a name has a field in it and fits or is one edit from fitting."""

import datetime

from hypothesis import strategies as st
from harness import facet, require
import genpattern
import refpattern

from eumopps.catalogue import namepatterns
from eumopps.catalogue.dataset import CatalogueFileEntry
from eumopps.timeutils import datetime_numeric


@st.composite
def names(draw):
    patterns = draw(genpattern.patterns())
    out = []
    shared = draw(genpattern.values())
    for _ in range(draw(st.integers(1, 5))):
        v = draw(genpattern.values())
        if draw(st.booleans()):
            v = dict(shared, **{k: v[k] for k in draw(st.sets(st.sampled_from(sorted(v)), max_size=3))})
        out.append(draw(genpattern.perturbed(refpattern.fill(patterns, v))))
    return {'patterns': patterns, 'names': sorted(set(out))}


def search(patterns, names):
    candidates = [namepatterns.NameCandidate(n) for n in names]
    results = namepatterns.nested_search_patterns(patterns, candidates)
    return results, candidates


@facet(names(), quick=4000, thorough=120000, shards=6)
def reading(case):
    """names are read as the pattern states, or not at all"""
    patterns, these = case['patterns'], case['names']
    results, candidates = search(patterns, these)
    by_name = {}
    for r in results:
        require(r.name in these, 'result for a name that was not given: %r', r.name)
        require(r.name not in by_name, 'name %r returned twice', r.name)
        by_name[r.name] = r.fields
    interesting = False
    for n, candidate in zip(these, candidates):
        require(candidate.is_matched() == (n in by_name), 'matched flag of %r is %s', n, candidate.is_matched())
        certain, readings = refpattern.readings(patterns, n)
        if not readings:
            require(n not in by_name, 'name %r does not fit patterns %r but was read as %r', n, patterns, by_name.get(n))
            continue
        interesting = True
        if certain:
            require(n in by_name, 'name %r fits patterns %r as %r but was not matched', n, patterns, readings[:3])
        if n in by_name:
            require(by_name[n] in readings, 'name %r with patterns %r was read as %r, not as %r', n, patterns, by_name[n], readings[:3])
        alone = search(patterns, [n])[0]
        require([r.fields for r in alone] == ([by_name[n]] if n in by_name else []), 'name %r with patterns %r is read differently among other names', n, patterns)
    return interesting


@st.composite
def groups(draw):
    """Directories whose fields are cuts of the same text."""
    fields = list(draw(st.permutations(['A', 'B', 'C', 'Y', 'm']))[:draw(st.integers(2, 4))])
    parent = draw(st.sampled_from(['', 'p/', 'data.'])) + '_'.join('%' + f for f in fields) + '/'
    again = [f.lower() if f in 'ABC' and draw(st.booleans()) else f for f in draw(st.lists(st.sampled_from(fields), unique=True, max_size=3))]
    rest = [f for f in 'ABCYmd' if f not in fields]
    rest = draw(st.lists(st.sampled_from(rest), unique=True, max_size=2)) if rest else []
    child = '-'.join(['n'] + ['%' + f for f in draw(st.permutations(again + rest))]) + '.x'
    whole = draw(st.one_of(st.text(alphabet='12', min_size=3, max_size=6), st.text(alphabet='aA', min_size=3, max_size=6))) + '00'
    out = []
    for _ in range(draw(st.integers(2, 6))):
        tags = [f for f in fields if f in 'ABC']
        cuts = sorted(draw(st.lists(st.integers(1, len(whole) - 1), min_size=len(tags), max_size=len(tags))))
        parts = [(whole[a:b] or 'z').swapcase() if draw(st.integers(0, 5)) == 0 else whole[a:b] or 'z' for a, b in zip([0] + cuts, cuts + [len(whole)])]
        v = {'year': draw(st.sampled_from(['2001', '2012'])), 'month': draw(st.sampled_from(['01', '12'])), 'day': draw(st.sampled_from(['01', '20']))}
        v.update(zip(tags, parts))
        for t in 'ABC':
            v.setdefault(t, draw(st.sampled_from(['u', 'Vw', '1', '12'])))
        out.append(refpattern.fill([parent, child], v))
    return {'patterns': [parent, child], 'names': sorted(set(out))}


@facet(groups(), quick=1500, thorough=40000, shards=2)
def grouping(case):
    """files of directories with similar field values keep their own values"""
    return reading(case)


def to_time(v):
    return datetime.datetime(*[int(v[k]) for k in ('year', 'month', 'day', 'hour', 'minute', 'second')])


@facet(st.tuples(genpattern.patterns(times_only=True), st.lists(genpattern.values(safe=True), min_size=1, max_size=4)), quick=1500, thorough=40000)
def built_from_time(case):
    """names built from a time (as output files are named) are read back as that time"""
    patterns, these = case
    patterns = [p.replace('?', 'q') for p in patterns]
    present = [k for key, (k, _) in refpattern.DATE.items() if any('%' + key in p for p in patterns)]
    for v in these:
        t = to_time(v)
        name = ''.join(datetime_numeric.build_from_pattern(p, t) for p in patterns)
        require(name == refpattern.fill(patterns, v), 'pattern %r filled with %s gives %r', patterns, t, name)
        twice = datetime_numeric.build_from_pattern(''.join(patterns) + '|' + ''.join(patterns), t)
        require(twice == name + '|' + name, 'pattern %r, written twice, filled with %s gives %r', patterns, t, twice)
        results, candidates = search(patterns, [name])
        certain, readings = refpattern.readings(patterns, name)
        if not certain or len(readings) != 1:
            continue
        require(len(results) == 1, 'name %r built from %r is not matched', name, patterns)
        require(results[0].fields == {k: v[k] for k in present}, 'name %r built from %r and %s read as %r', name, patterns, t, results[0].fields)
        if not present:
            entry = CatalogueFileEntry().from_extracted_text_fields('', results[0])
            require(entry.time is None, 'name %r has no date but got time %s', name, entry.time)
            continue
        if 'year' not in present or ('day' in present and 'month' not in present):
            continue
        entry = CatalogueFileEntry().from_extracted_text_fields('', results[0])
        expected = datetime.datetime(t.year, t.month if 'month' in present else 1, t.day if 'day' in present else 1,
                                     *[int(v[k]) if k in present else 0 for k in ('hour', 'minute', 'second')])
        require(entry.time == expected, 'name %r built from %r and %s read as time %s', name, patterns, t, entry.time)
    return True


@st.composite
def separated(draw):
    """Patterns whose fields are kept apart by separators that occur in no value, and the values of several names."""
    fields = draw(st.permutations(['A', 'B', 'C', 'Y', 'm', 'd', 'H', 'M', 'S']))[:draw(st.integers(1, 9))]
    split = draw(st.integers(0, len(fields) - 1))
    again = draw(st.lists(st.sampled_from(fields[:split]), unique=True)) if split else []
    again = [f.lower() if f in 'ABC' and draw(st.booleans()) else f for f in again]
    child = list(draw(st.permutations(list(fields[split:]) + again)))
    separator = st.sampled_from(['_', '-', '.', '_v_', '-.-', '_1_'])

    def spell(chosen, last):
        out = draw(st.sampled_from(['', '', 'data.', 'x-']))
        for k, f in enumerate(chosen):
            out += '%' + f + (draw(separator) if k + 1 < len(chosen) or last else draw(st.sampled_from(['', '.nc', '-end'])))
        return out
    patterns = ([spell(fields[:split], False) + '/'] if split else []) + [spell(child, False)]
    tag = st.text(alphabet='abcdXYZ24680 +()', min_size=1, max_size=7)
    these = []
    for _ in range(draw(st.integers(1, 6))):
        v = draw(genpattern.values(safe=True))
        v.update({t: draw(tag) for t in 'ABC'})
        if these and draw(st.booleans()):
            v = dict(these[0], **{k: v[k] for k in draw(st.sets(st.sampled_from(sorted(v)), max_size=2))})
        these.append(v)
    return {'patterns': patterns, 'values': these, 'fields': list(fields)}


@facet(separated(), quick=1500, thorough=40000, shards=2)
def round_trip(case):
    """where separators keep the fields apart, every value written in a name is recovered whole"""
    patterns = case['patterns']
    expected = {}
    for v in case['values']:
        expected[refpattern.fill(patterns, v)] = {refpattern.DATE[f][0] if f in refpattern.DATE else f: v[refpattern.DATE[f][0] if f in refpattern.DATE else f] for f in case['fields']}
    results, _ = search(patterns, sorted(expected))
    require(sorted(r.name for r in results) == sorted(expected), 'names %r built from %r: matched %r', sorted(expected), patterns, sorted(r.name for r in results))
    for r in results:
        require(r.fields == expected[r.name], 'name %r built from %r with %r was read as %r', r.name, patterns, expected[r.name], r.fields)
    return True


@facet(st.tuples(st.lists(st.sampled_from(['a/%Y/', '%Y%m.nc', '%A_', '%d', 'x']), min_size=0, max_size=4)), quick=60, thorough=200)
def pattern_counts(case):
    """one pattern or a pair of them is accepted, anything else refused"""
    patterns, = case
    refused = False
    try:
        namepatterns.nested_search_patterns(patterns, [namepatterns.NameCandidate('zz')])
    except ValueError:
        refused = True
    require(refused == (len(patterns) not in (1, 2)), '%d patterns: refused is %s', len(patterns), refused)
