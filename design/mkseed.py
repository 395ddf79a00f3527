import os,subprocess,json,shutil,sys
S='/verif/seeded'
def seed(id,prop,edits,needs,breaks,demo):
    d=os.path.join(S,id); os.makedirs(d,exist_ok=True)
    assert not subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True).stdout
    for f,a,b in edits:
        p='/repo/'+f; s=open(p).read()
        assert s.count(a)==1,(id,f,s.count(a),a)
        open(p,'w').write(s.replace(a,b))
    df=subprocess.run(['git','-C','/repo','diff'],capture_output=True).stdout
    subprocess.run(['git','-C','/repo','checkout','--','.'])
    open(d+'/patch.diff','wb').write(df)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    shutil.copy('/verif/design/lt.py',d+'/lt.py')
    open(d+'/demo.py','w').write('import sys, os\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom lt import *\n'+demo.lstrip('\n')+"\nprint('ok')\n")
    open(d+'/demo.sh','w').write('#!/bin/bash\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
