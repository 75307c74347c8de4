"""Development aid: mk(id, prop, needs, breaks, [(file, old, new)], main_rs) writes /verif/seeded/<id>."""
import os, json, subprocess, shutil
def mk(id, prop, needs, breaks, edits, main):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    a, b = '/tmp/mk/a', '/tmp/mk/b'
    shutil.rmtree('/tmp/mk', ignore_errors=True)
    for f, old, new in edits:
        s = open(f'{b}/{f}').read() if os.path.exists(f'{b}/{f}') else open(f'/repo/{f}').read()
        assert s.count(old) == 1, (f, s.count(old), old)
        for x in (a, b):
            os.makedirs(os.path.dirname(f'{x}/{f}'), exist_ok=True)
        open(f'{a}/{f}', 'w').write(open(f'/repo/{f}').read())
        open(f'{b}/{f}', 'w').write(s.replace(old, new))
    p = subprocess.run(['diff', '-u', '-r', 'a', 'b'], cwd='/tmp/mk', capture_output=True, text=True).stdout
    p = '\n'.join(l for l in p.split('\n') if not l.startswith('diff '))
    open(f'{d}/patch.diff', 'w').write(p)
    shutil.copy('/verif/tools/demo.sh', f'{d}/demo.sh')
    open(f'{d}/main.rs', 'w').write(main)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
