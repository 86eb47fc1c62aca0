import sys,os,random,subprocess,shutil,tempfile
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import cli2, cli
from pbt.cli import *
from pbt.core import Invalid
P=cli2.C06()
bad=0; n=0; ig=0
root=tempfile.mkdtemp(dir='/dev/shm')
for i in range(int(sys.argv[1]), int(sys.argv[2])):
    if i%12==6: continue
    rng=random.Random("gd%d"%i)
    case=P.gen(rng,i,"quick")
    t=case["tree"]
    t["entries"]=[e for e in t["entries"] if e[0] in "fbd" and not any(x in cli2.IG_NAMES+[] and False for x in [])]
    names=[e[1] for e in t["entries"]]
    if any(x.endswith((".o",".pyc",".db",".swp","~",".O")) or set(x.split("/"))&{"build","target","node_modules","out","dist","bin","obj"} for x in names): continue
    case["tree"]=t; case["args"]=["t"]; case["opts"]={"a":True}
    d=os.path.join(root,"c%d"%i); os.mkdir(d)
    try:
        for e in t["entries"]:
            if e[0]=="b":
                for line in e[2].encode("latin-1").decode("utf-8","surrogateescape").replace("\r\n","\n").split("\n"):
                    if not cli2.ok_pattern(line): raise Invalid()
        cwd,args=place(case,d)
    except Invalid:
        shutil.rmtree(d); continue
    found={p for p,_,_ in collect(cwd,args,Opts(case["opts"]))}
    allf=set()
    tt=os.path.join(cwd,"t") if isinstance(cwd,str) else os.path.join(cwd,b"t")
    tt=enc(tt)
    for a,b,c in os.walk(tt):
        for f in c: allf.add(os.path.join(a,f))
    subprocess.run(["git","init","-q",tt],check=True)
    rel=sorted(os.path.relpath(x,tt) for x in allf)
    r=subprocess.run(["git","-c","core.quotepath=off","-C",tt,"check-ignore","--stdin","-z","--no-index"],input=b"\0".join(rel)+b"\0",capture_output=True)
    gi=set(r.stdout.split(b"\0"))-{b""}
    want={x for x in rel if x not in gi}
    got={os.path.relpath(os.path.join(enc(cwd),p),tt) for p in found}
    got={x for x in got if not x.startswith(b".git/")}
    n+=1; ig+=bool(gi)
    if want!=got:
        bad+=1
        if bad<8:
            print(i,"git ignores more",sorted(got-want)[:4],"model ignores more",sorted(want-got)[:4])
            for e in t["entries"]:
                if e[0]=="b": print("   ",e[1],repr(e[2]))
    shutil.rmtree(d)
print(n,ig,bad)
shutil.rmtree(root)
