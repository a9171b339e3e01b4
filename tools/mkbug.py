#!/usr/bin/env python3
"""mkbug.py SPEC.py: make seeded/<id> from a spec defining id, prop, edits=[(file, old, new)], needs, breaks, main."""
import json, os, subprocess, sys
d = {}
exec(open(sys.argv[1]).read(), d)
for b in d['bugs']:
    out = '/verif/seeded/' + b['id']
    os.makedirs(out, exist_ok=True)
    files = []
    for f, old, new in b['edits']:
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
        files.append(f)
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '--'] + files, check=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/main.rs', 'w').write(b['main'])
    if b.get('noalloc'):
        open(out + '/noalloc', 'w').write('')
    subprocess.run(['cp', '/verif/tools/demo.sh', out + '/demo.sh'], check=True)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    print(b['id'], len(diff.splitlines()), 'diff lines')
