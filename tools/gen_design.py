"""Refreshes the generated parts of DESIGN.md"""
import re, subprocess
V = '/verif/'
t = open(V + 'DESIGN.md').read()
tab = subprocess.run(['python3', V + 'tools/gen_seedtable.py'], capture_output=True, text=True, check=True).stdout
t = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda m: '<!-- seeds -->\n%s<!-- /seeds -->' % tab, t, flags=re.S)
f = '| property | commit | what failed |\n|---|---|---|\n'
for l in open(V + 'known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: f += '| %s | %s | %s |\n' % m.groups()
t = re.sub(r'<!-- findings -->.*?<!-- /findings -->', lambda m: '<!-- findings -->\n%s<!-- /findings -->' % f, t, flags=re.S)
open(V + 'DESIGN.md', 'w').write(t)
