"""Strategies of naming patterns and of names that fit or nearly fit them."""
import calendar
from hypothesis import strategies as st

LITERAL = st.text(alphabet='abXY019._-', min_size=0, max_size=4)
TAGVALUE = st.text(alphabet='abAB12._+-()[*$^|', min_size=1, max_size=4)
TAGVALUE_SIMPLE = st.text(alphabet='abAB12._', min_size=1, max_size=3)


@st.composite
def patterns(draw, times_only=False):
    """One pattern, or a parent and a child; every field at most once in each."""
    nested = draw(st.booleans())
    order = draw(st.permutations(['Y', 'm', 'd', 'H', 'M', 'S']))
    tags = draw(st.integers(0, 3)) if not times_only else 0
    fields = ['Y', 'm', 'd'] + [f for f in order if f in draw(st.sets(st.sampled_from('HMS')))]
    fields = draw(st.permutations(fields)) if draw(st.booleans()) else fields
    fields = list(fields[:draw(st.integers(0, 6))]) + list('ABC'[:tags])
    if draw(st.booleans()):
        fields = list(draw(st.permutations(fields)))
    if draw(st.integers(0, 3)) == 0:
        fields.insert(draw(st.integers(0, len(fields))), '?')

    def spell(chosen):
        out = draw(LITERAL)
        for f in chosen:
            out += '?' if f == '?' else '%' + f
            out += draw(st.sampled_from(['_', '-', '.', '', '_x', '00'])) + (draw(LITERAL) if draw(st.integers(0, 3)) == 0 else '')
        return out
    if not nested:
        return [spell(fields) or 'n']
    split = draw(st.integers(0, len(fields)))
    parent, child = fields[:split], fields[split:]
    again = [f for f in parent if f != '?' and draw(st.booleans())]
    again = [f.lower() if f in 'ABC' and draw(st.booleans()) else f for f in again]
    child = list(draw(st.permutations(child + again))) if draw(st.booleans()) else again + child
    slash = '/' if draw(st.integers(0, 4)) else '_'
    return [spell(parent) + slash, spell(child) or 'n']


@st.composite
def values(draw, safe=False):
    y = draw(st.one_of(st.integers(1700, 2299), st.sampled_from([1900, 1904, 2000, 2100, 1999])))
    m = draw(st.integers(1, 12))
    d = draw(st.one_of(st.integers(1, calendar.monthrange(y, m)[1]), st.just(calendar.monthrange(y, m)[1]), st.just(1)))
    v = {'year': '%04d' % y, 'month': '%02d' % m, 'day': '%02d' % d, 'hour': '%02d' % draw(st.integers(0, 23)),
         'minute': '%02d' % draw(st.integers(0, 59)), 'second': '%02d' % draw(st.integers(0, 59))}
    if not safe and draw(st.integers(0, 9)) == 0:
        v[draw(st.sampled_from(['month', 'day', 'hour', 'minute']))] = draw(st.sampled_from(['00', '13', '31', '60', '99', '24']))
    for t in 'ABC':
        v[t] = draw(TAGVALUE_SIMPLE if safe else TAGVALUE)
    v['?'] = draw(st.sampled_from(['q', '7', '.', '+', '_']))
    return v


@st.composite
def perturbed(draw, name):
    """The name, or the name with a small change."""
    kind = draw(st.sampled_from(['same'] * 5 + ['replace', 'replace', 'delete', 'insert', 'suffix', 'prefix', 'dot', 'swap', 'case']))
    if kind == 'same' or not name:
        return name
    i = draw(st.integers(0, len(name) - 1))
    c = draw(st.sampled_from('abXY0129._-/+'))
    if kind == 'replace':
        return name[:i] + c + name[i + 1:]
    if kind == 'delete':
        return name[:i] + name[i + 1:]
    if kind == 'insert':
        return name[:i] + c + name[i:]
    if kind == 'suffix':
        return name + draw(st.sampled_from(['.bak', '~', '0', 'x']))
    if kind == 'prefix':
        return c + name
    if kind == 'dot':
        return name.replace('.', c)
    if kind == 'case':
        return name.swapcase()
    return name[:i] + name[i:i + 2][::-1] + name[i + 2:]
