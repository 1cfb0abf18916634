"""onmut.py ID name cmd...: run cmd with SA_REPO set to the mutated copy"""
import importlib.util, os, shutil, subprocess, sys, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i,name=sys.argv[1:3]
base="mutants"
if i.startswith("adv:"): base,i="adv",i[4:]
sp=importlib.util.spec_from_file_location(i, f"{V}/dev/{base}/{i}.py"); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
mu=[x for x in m.MUTANTS if x[0]==name][0] if base=="mutants" else [x[1:] for x in m.ADV if x[1]==name][0]
d=tempfile.mkdtemp(prefix="mut"); r=d+"/repo"; os.makedirs(r)
for x in ("lib","bin","gyp","update-gyp.py","package.json"):
    s="/repo/"+x
    shutil.copytree(s,r+"/"+x) if os.path.isdir(s) else shutil.copy(s,r)
for f,a,b in mu[2]:
    t=open(r+"/"+f).read(); assert t.count(a)==1,(f,a); open(r+"/"+f,"w").write(t.replace(a,b))
subprocess.run(sys.argv[3:],env=dict(os.environ,SA_REPO=r,SA_OUT=d+"/out"))
shutil.rmtree(d)
