#!/usr/bin/env python3
"""Developer tool: mkbug.py SPEC.py - makes /verif/seeded/<id>/ from a spec defining BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new[, nth])], demo=C++ text[, sh=...])]."""
import sys, os, json, shutil, subprocess, runpy, difflib
H = os.path.dirname(os.path.abspath(__file__))
for b in runpy.run_path(sys.argv[1])['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
    d = '/verif/seeded/' + b['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    files = {}
    for e in b['edits']:
        f, old, new = e[:3]; nth = e[3] if len(e) > 3 else None
        t = files.get(f) or open('/repo/' + f).read()
        n = t.count(old)
        if n == 0 or (n > 1 and nth is None): sys.exit('%s: %d matches in %s of: %s' % (b['id'], n, f, old))
        i = -1
        for _ in range((nth or 0) + 1): i = t.index(old, i + 1)
        files[f] = t[:i] + new + t[i + len(old):]
    out = ''
    for f, t in files.items():
        o = open('/repo/' + f).read()
        out += ''.join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    subprocess.check_call(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'])
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    if b['demo']: open(d + '/demo.cc', 'w').write(b['demo']); shutil.copy(H + '/seedlib/demo.hh', d)
    for n, t in b.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
    sh = open(H + '/seedlib/demo.sh').read()
    if b.get('sh'): sh = b['sh'](sh)
    open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
    print(b['id'])
