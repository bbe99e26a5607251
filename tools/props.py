import json
P=[]
ZP="src/zernpy/zernikepol.py"; CZ="src/zernpy/calculations/calc_zernike_pol.py"; FP="src/zernpy/calculations/find_pols_coeffs.py"
FZ="src/zernpy/calculations/fit_zernikes.py"; PL="src/zernpy/plotting/plot_zerns.py"; PS="src/zernpy/zernpsf.py"; CP="src/zernpy/calculations/calc_psfs.py"
import os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+"/"
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    P.append(d)
I=["inputs"]
exec(open(R+"tools/plist.py").read())
with open(R+"properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
for d in P:
    for x in d["anchors"]["files"]: assert os.path.exists("/repo/"+x),x
