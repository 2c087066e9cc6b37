"""Writes the table of planted bugs at the end of DESIGN.md (documentation only; no check runs this)."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {   # missed at first -> what was added
    'b90': 'sets with several LGRs of one script (`SetsFails` in T_C15.tla)',
    'b06': 'sequences nested in sequences (gen.rand_doc)', 'b16': '`Needed` in Populate.tla: every mapping added must be missing',
    'b32': 'comments directly after the code points that look like variants', 'b39': 'classes written with ranges and `<range>` elements',
    'b41': 'tags that look like script tags', 'b42': 'LGRs that accept what IDNA 2008 refuses; ranges ending in refused code points',
    'b43': 'validating repertoires holding sequences and variants of the code points they lack',
    'b44': '`InOrder` in Compare.tla: texts are combined in the order given',
}
try:
    MISSED.update(json.load(open(os.path.join(HERE, 'scripts', 'seeded_missed.json'))))
except FileNotFoundError:
    pass
rows = ['## Planted bugs', '', 'Each was confirmed to build, to pass the stable tests and to fail its demonstration. All are caught by the quick check of',
        'the property named; where the check missed the bug at first, the last column says what was added.', '',
        '| bug | property | what it breaks | needs | missed at first |', '|---|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    b = f.split(os.sep)[-2]
    rows.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs'], MISSED.get(b, '')))
d = os.path.join(HERE, 'DESIGN.md')
t = open(d).read()
head = t.split('SEEDED_TABLE')[0].split('## Planted bugs')[0].rstrip() + '\n\n'
open(d, 'w').write(head + '\n'.join(rows) + '\n')
