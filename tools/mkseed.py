"""Create /verif/seeded/<id>/ from a spec: python3 tools/mkseed.py SPEC.py, where SPEC.py calls seed(...)."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def seed(id, property, edits, needs, breaks, demo):
    t = tempfile.mkdtemp()
    subprocess.check_call(['git', 'clone', '-q', os.environ.get('SEED_BASE', '/repo'), t + '/w'])
    try:
        for path, old, new in edits:
            p = t + '/w/src/jpt/' + path
            s = open(p).read()
            assert s.count(old) == 1, (id, path, s.count(old))
            a = s[:s.index(old)].count('\n') + 1
            bl = subprocess.check_output(['git', '-C', t + '/w', 'blame', '-s', '-L', '%d,+%d' % (a, old.rstrip('\n').count('\n') + 1), 'HEAD', '--', 'src/jpt/' + path]).decode()
            for l in bl.splitlines():
                if not l.startswith('^'):
                    print('   NOT ORIGINAL:', l)
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.check_output(['git', '-C', t + '/w', 'diff']).decode()
        # every removed/changed line should come from the original repository
    finally:
        shutil.rmtree(t, ignore_errors=True)
    out = V + '/seeded/' + id
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(d)
    open(out + '/demo.sh', 'w').write(DEMO)
    open(out + '/demo.py', 'w').write(demo.lstrip('\n'))
    json.dump(dict(property=property, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
    print(id)


if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
