import subprocess,sys,shutil,os,concurrent.futures as cf
M=[]
def m(name,file,old,new,checks,n=1,expect=1,more=()):
    M.append((name,[(file,old,new,n)]+list(more),checks,expect))
def run1(x):
    name,eds,checks,expect=x
    d=f'/tmp/mt/{name}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d); shutil.copytree('/repo/orthority',d+'/orthority',ignore=shutil.ignore_patterns('__pycache__'))
    for f,o,nw,n in eds:
        p=f'{d}/orthority/{f}'; s=open(p).read()
        if n and s.count(o)!=n: return f'{name}: EDIT FAIL {f} {s.count(o)} {o[:50]!r}'
        open(p,'w').write(s.replace(o,nw))
        try: compile(open(p).read(),p,'exec')
        except SyntaxError as ex: return f'{name}: SYNTAX {ex}'
    out=[]
    for c in checks.split():
        r=subprocess.run(['python3','/verif/check.py',c,'--repo',d,'--no-evidence'],capture_output=True,text=True)
        o=r.stdout.splitlines()
        det=[l for l in o if l.startswith('  ')][:2]
        out.append(f"{name:22s} {c} rc={r.returncode} {'ok' if r.returncode==expect else '<<<<<< UNEXPECTED'} {(' ## '.join(det))[:230]} {r.stderr[-300:] if r.returncode not in(0,1) else ''}")
    shutil.rmtree(d,ignore_errors=True)
    return '\n'.join(out)
def go(w=8):
    global M
    if sys.argv[1:]: M=[x for x in M if x[0] in sys.argv[1:]]
    with cf.ThreadPoolExecutor(w) as ex:
        for r in ex.map(run1,M): print(r)
