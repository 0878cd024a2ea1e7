"""Writes /verif/DESIGN.md from the checks, the findings, the planted bugs and the notes below (run by hand)."""
import ast, glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from design_notes import HEAD, NOTES, TAIL, MISSED

properties = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
findings = json.load(open(os.path.join(ROOT, 'known_findings.json')))
bugs = []
for path in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    bugs.append((os.path.basename(os.path.dirname(path)), json.load(open(path))))

text = [HEAD.strip(), '']
for p in properties:
    found = glob.glob(os.path.join(ROOT, 'checks', p['id'].lower() + '_*.py'))
    text += ['### %s %s' % (p['id'], p['title']), '']
    if not found:
        text += ['No check (see not_applicable in MANIFEST.json).', '']
        continue
    tree = ast.parse(open(found[0]).read())
    text += ['%s (`checks/%s`)' % (' '.join(ast.get_docstring(tree).split()), os.path.basename(found[0])), '', 'Facets (cases quick / thorough):', '']
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            d = [ast.unparse(d) for d in n.decorator_list]
            d = [x for x in d if x.startswith('facet(')]
            if d:
                number = lambda k: re.findall(k + r'=(\d+)', d[0])[-1]
                rule = (ast.get_docstring(n) or '').split('\n')[0].rstrip('.')
                text.append('- %s (%s / %s)%s' % (n.name, number('quick'), number('thorough'), ': ' + rule if rule else ''))
    note = NOTES[p['id']]
    text += ['', 'Why it reaches what tests cannot: ' + p['why_tests_cant'], '', 'Bounds and decisions: ' + note]
    fixed = [re.sub(r'fixed: property=\S+ (\S+) (.*)', r'\2 (\1)', f) for f in findings['fixed'] if 'property=%s ' % p['id'] in f]
    known = [k['what'] for k in findings['known'] if k['property'] == p['id']]
    if fixed:
        text += ['', 'Defects found and repaired: ' + '; '.join(fixed) + '.']
    if known:
        text += ['', 'Known finding (reported, not repaired): ' + '; '.join(known) + '.']
    mine = [(b, m) for b, m in bugs if m['property'] == p['id']]
    if mine:
        text += ['', 'Planted bugs: ' + '; '.join('%s (%s)%s' % (b, m['needs'], MISSED.get(b, ', caught')) for b, m in mine) + '.']
    text.append('')
text += [TAIL.strip(), '']
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as stream:
    stream.write('\n'.join(text))
