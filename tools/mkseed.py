#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py: creates /verif/seeded/<id> from a description
(dict S with id, property, file, edits [(old, new)], needs, breaks, demo)."""
import os, subprocess, json, sys, shutil
SRC = '/tmp/mk'
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for s in ns['SEEDS']:
        d = '/verif/seeded/' + s['id']
        os.makedirs(d, exist_ok=True)
        for file, old, new in s['edits']:
            t = open(os.path.join(SRC, file)).read()
            assert t.count(old) == 1, (s['id'], t.count(old), old)
            open(os.path.join(SRC, file), 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=SRC, capture_output=True, text=True).stdout
        subprocess.run(['git', 'checkout', '-q', '.'], cwd=SRC)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.c', 'w').write(s['demo'])
        shutil.copy('/verif/seeded/cmd-eom-onebyte/demo.sh', d + '/demo.sh')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'))
        print(s['id'])
