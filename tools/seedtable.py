"""writes the table of planted changes into DESIGN.md (between the markers)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + '/seeded'
MISSED = {'C07-octal-labels', 'C10-gray-decoder-leak', 'C12-group-kernel', 'C14-restored-input', 'C16-nop-first-use', 'C16-count-include-pad', 'C16-shared-bn', 'C21-nan-double'} | set(l.strip() for l in open(V + '/tools/missed_first.txt') if l.strip())
rows = ['| change | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(S)):
    m = json.load(open('%s/%s/meta.json' % (S, d))); rows.append('| %s | %s | %s quick%s |' % (d, m['needs'], m['property'], ', after strengthening it' if d in MISSED else ''))
p = V + '/DESIGN.md'; s = open(p).read(); a, b = '<!-- seeded -->', '<!-- /seeded -->'
s = s[:s.index(a)] + a + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):]; open(p, 'w').write(s)
