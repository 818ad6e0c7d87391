#!/usr/bin/env python3
# DESIGN.md from tools/design.tmpl.md: the table of planted bugs is generated
import json, glob, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = '| planted bug | check | needs |\n|---|---|---|\n'
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); rows += '| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'])
na = json.load(open('MANIFEST.json'))['not_applicable']
status = '\n'.join('* %s: %s' % (x['property_id'] if 'property_id' in x else x.get('property', x.get('id')), x['reason']) for x in na) or 'All listed properties are claimed.'
open('DESIGN.md', 'w').write(open('tools/design.tmpl.md').read().replace('SEEDTABLE', rows.strip()).replace('STATUS', status))
