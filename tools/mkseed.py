"""helper: mk(id, property, needs, breaks, edits, demo) writes /verif/seeded/<id>/ from edits of /repo"""
import json, os, shutil, subprocess
R = '/tmp/mkrepo'
subprocess.run('rm -rf /tmp/mkrepo && cp -a /repo /tmp/mkrepo', shell=True, check=True)
def mk(id, prop, needs, breaks, edits, demo, flags=''):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git','-C',R,'status','--porcelain'],capture_output=True,text=True).stdout
    try:
        for f, a, b in edits:
            p = f'{R}/{f}'
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p,'w').write(s.replace(a, b))
        diff = subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    shutil.copy('/verif/tools/seedlib/fake.go', d+'/fake.go')
    s = open('/verif/tools/seedlib/demo.sh').read().replace('$DEMO_BUILD_FLAGS', flags)
    open(d+'/demo.sh','w').write(s)
    os.chmod(d+'/demo.sh', 0o755)
    open(d+'/main.go','w').write(demo)
