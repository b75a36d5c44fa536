"""plant(name, prop, needs, breaks, [(file, old, new)...], demo): write /verif/seeded/<name>."""
import json, os, subprocess
def plant(name, prop, needs, breaks, edits, demo):
    d = f'/verif/seeded/{name}'
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(['git','-C','/repo','status','--porcelain']), 'dirty'
    try:
        for f, old, new in edits:
            p = f'/repo/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git','-C','/repo','diff'])
        open(f'{d}/patch.diff','wb').write(diff)
    finally:
        subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f'{d}/meta.json','w'))
    open(f'{d}/demo.rs','w').write(demo)
