"""Reference for the naming patterns of the catalogue: every way to read a name, found by search."""

DATE = {'Y': ('year', 4), 'm': ('month', 2), 'd': ('day', 2), 'H': ('hour', 2), 'M': ('minute', 2), 'S': ('second', 2)}
TAGS = 'ABC'


def pieces(pattern):
    out, i = [], 0
    while i < len(pattern):
        if pattern[i] == '%' and i + 1 < len(pattern):
            out.append(('%', pattern[i + 1]))
            i += 2
        else:
            out.append(('?', '') if pattern[i] == '?' else ('=', pattern[i]))
            i += 1
    return out


def parses(pattern, text, known):
    """All (fields, end) such that text[:end] has the form of the pattern, given values known already."""
    items = pieces(pattern)
    found = []

    def walk(k, at, fields):
        if k == len(items):
            found.append((fields, at))
            return
        kind, what = items[k]
        if kind == '=':
            if text.startswith(what, at):
                walk(k + 1, at + 1, fields)
        elif kind == '?':
            if at < len(text):
                walk(k + 1, at + 1, fields)
        elif what in DATE:
            name, width = DATE[what]
            if name in known:
                if text.startswith(known[name], at):
                    walk(k + 1, at + len(known[name]), fields)
            else:
                value = text[at:at + width]
                if len(value) == width and all(c in '0123456789' for c in value):
                    walk(k + 1, at + width, dict(fields, **{name: value}))
        elif what in TAGS:
            if what in known:
                if text.startswith(known[what], at):
                    walk(k + 1, at + len(known[what]), fields)
            else:
                for end in range(at, len(text) + 1):
                    walk(k + 1, end, dict(fields, **{what: text[at:end]}))
        elif what.upper() in TAGS:
            value = known[what.upper()].lower()
            if text.startswith(value, at):
                walk(k + 1, at + len(value), fields)
        else:
            raise ValueError(what)
    walk(0, 0, {})
    return found


def readings(patterns, name):
    """(certain, list of distinct field dictionaries): certain when the first pattern is unambiguous."""
    if len(patterns) == 1:
        first = [({}, 0)]
    else:
        first = parses(patterns[0], name, {})
    out = []
    for fields, end in first:
        for more, _ in parses(patterns[-1], name[end:], fields):
            both = dict(fields, **more)
            if both not in out:
                out.append(both)
    return len(first) <= 1, out


def fill(patterns, values):
    """The name with the given values (tags) and date text."""
    out = []
    for pattern in patterns:
        for kind, what in pieces(pattern):
            if kind == '=':
                out.append(what)
            elif kind == '?':
                out.append(values.get('?', 'q'))
            elif what in DATE:
                out.append(values[DATE[what][0]])
            elif what in TAGS:
                out.append(values[what])
            else:
                out.append(values[what.upper()].lower())
    return ''.join(out)
