"""Which rare faults do the checks see? python3 tools/trigger.py OUT.jsonl [shards [scale [workers [FILE]]]]

For each property, each function it is anchored at, and each trigger, the function is wrapped in a scratch copy so
that its result is spoilt (PT_SPOIL: drop, swap, dup or a relative error of PT_EPS) when the trigger holds for its
arguments: large, small, negative, whole, tied or distant numbers, many of them, a repeated call, every 41st call.
The check of that property then runs on the copy. FILE lists (property, function, trigger) to try only those."""
import ast,json,os,re,shutil,subprocess,sys,tempfile,random
from concurrent.futures import ThreadPoolExecutor
TRIGGERS="big huge tiny neg pos frac whole long close tie sum far flat count repeat".split()
OUT=sys.argv[1]; shards=sys.argv[2] if len(sys.argv)>2 else "1"; scale=sys.argv[3] if len(sys.argv)>3 else "1"; workers=int(sys.argv[4]) if len(sys.argv)>4 else 8
only=[tuple(l.split()) for l in open(sys.argv[5])] if len(sys.argv)>5 else None
fns={}
for f in os.listdir("/repo/PathLib"):
    if not f.endswith(".py"): continue
    t=ast.parse(open("/repo/PathLib/"+f).read())
    def ret(fn):
        return any(isinstance(n,ast.Return) and n.value is not None for n in ast.walk(fn))
    for n in t.body:
        if isinstance(n,ast.FunctionDef): fns.setdefault(("PathLib/"+f,n.name),[]).append((n.name,not ret(n)))
        if isinstance(n,ast.ClassDef):
            for m in n.body:
                if isinstance(m,ast.FunctionDef) and not any(isinstance(d,ast.Attribute) and d.attr=="overload" for d in m.decorator_list): fns.setdefault(("PathLib/"+f,m.name),[]).append((n.name+"."+m.name,not ret(m)))
jobs=[]
for l in open("/verif/properties.jsonl"):
    d=json.loads(l); names=set()
    a=d["anchors"]
    for m in a["mechanism"]:
        for w in re.findall(r"\w+",m["name"]):
            for q in fns.get((m["where"],w),[]): names.add((m["where"],)+q)
            for (f,n),qs in fns.items():
                if f==m["where"]:
                    for q in qs:
                        if q[0].startswith(w+"."): names.add((f,)+q)
    for s in a["observe_at"]:
        for w in re.findall(r"\w+",s):
            for f in a["files"]:
                for q in fns.get((f,w),[]): names.add((f,)+q)
    for f,q,mut in sorted(names):
        if q.endswith("__init__"): continue
        for tr in TRIGGERS:
            if only is None or (d["id"],q,tr) in only: jobs.append((d["id"],f,q,mut,tr))
random.Random(2).shuffle(jobs)
done=set()
if os.path.exists(OUT): done={tuple(json.loads(l)["k"]) for l in open(OUT)}
jobs=[j for j in jobs if j not in done]
print(len(jobs),flush=True)
lock=open(OUT,"a")
def one(j):
    P,f,q,mut,tr=j
    w=tempfile.mkdtemp(prefix="trg-")
    try:
        r=w+"/repo"; shutil.copytree("/repo",r,ignore=shutil.ignore_patterns(".git","__pycache__"))
        with open(r+"/"+f,"a") as h:
            h.write("\n\nimport os as _os\nif _os.environ.get('PT_TRIGGER'):\n    import importlib.util as _u\n    _s = _u.spec_from_file_location('pathtrigger', _os.environ['PT_MODULE'])\n    _m = _u.module_from_spec(_s); _s.loader.exec_module(_m)\n    _m.install(globals(), %r, %r)\n"%(q,mut))
        env=dict(os.environ,PATHMON_REPO=r,PT_TRIGGER=tr,PT_FIRED=w+"/fired",PT_MODULE=os.path.join(os.path.dirname(os.path.abspath(__file__)), "faults.py"),PYTHONDONTWRITEBYTECODE="1")
        try: p=subprocess.run(["/verif/bin/check",P,"--shards",shards,"--scale",scale,"--evidence",w],env=env,capture_output=True,text=True,timeout=600); rc=p.returncode; o=p.stdout[-300:]
        except subprocess.TimeoutExpired: rc=-9; o=""
        n=len(open(w+"/fired").readlines()) if os.path.exists(w+"/fired") else 0
        lock.write(json.dumps({"k":j,"rc":rc,"fired":n,"o":"" if rc in(0,1) else o})+"\n"); lock.flush()
    finally: shutil.rmtree(w,ignore_errors=True)
with ThreadPoolExecutor(workers) as ex: list(ex.map(one,jobs))
