import os,re,sys,random,subprocess,json,time,shutil,hashlib
seed=int(sys.argv[1]); count=int(sys.argv[2]); maxt=int(sys.argv[3]) if len(sys.argv)>3 else 6
WT='/tmp/mut%d'%seed; LOG='/tmp/mutk/log%d.txt'%seed
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
if not os.path.exists(WT): sh(f'cp -a /repo {WT}')
head=sh('git -C /repo rev-parse HEAD').stdout.strip()
sh(f'cd {WT} && git fetch -q /repo && git checkout -q -f . && git reset -q --hard {head}')
os.environ['MC_REPO']=WT
sys.path.insert(0,'/verif'); import check
FILES=[f for f in sh(f'cd {WT}/src && ls *.cpp cpp/*.cpp serveroptionsanalyzer.h stringutils.h').stdout.split()]
muts=[]
for f in FILES:
    t=open(f'{WT}/src/{f}',encoding='latin-1',newline='').read().split('\n')
    incomment=False
    for i,l in enumerate(t):
        c=l.rstrip('\r').split('//')[0]; e='\r' if l.endswith('\r') else ''
        s=c.strip()
        if not s or s.startswith(('#','/*','*','using','namespace','public','private')): continue
        def add(n,kind):
            if n!=c: muts.append((f,i,n+e,kind))
        if re.match(r'^\s+[^{}]*;\s*$',c) and not re.match(r'^\s*(return|break|continue|case|default|const|auto|int|char|std::|size_t|unsigned|bool)\b',c): add(re.match(r'^\s*',c)[0]+';','del')
        m=re.match(r'^(\s*(?:\} else )?if \()(.*)(\) \{)$',c)
        if m: add(m[1]+'!('+m[2]+')'+m[3],'neg'); add(m[1]+'false && ('+m[2]+')'+m[3],'never'); add(m[1]+'true || ('+m[2]+')'+m[3],'always')
        for a,b in ((' < ',' <= '),(' <= ',' < '),(' > ',' >= '),(' >= ',' > '),(' == ',' != '),(' != ',' == '),(' && ',' || '),(' || ',' && '),(' + 1',''),(' - 1',''),(' + 1',' + 2'),('true','false'),('false','true'),('\\r\\n','\\n'),('\\r\\n',''),('" "','""'),(' - ',' + '),(' + ',' - '),('++','--'),('nullptr)','nullptr || true)')):
            for m in re.finditer(re.escape(a),c):
                if a in('true','false') and re.search(r'\w$',c[:m.start()]): continue
                add(c[:m.start()]+b+c[m.end():],f'{a}->{b}')
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',c):
            v=int(m[1]); add(c[:m.start()]+str(v+1)+c[m.end():],'+1'); 
            if v: add(c[:m.start()]+str(v-1)+c[m.end():],'-1')
        m=re.match(r'^(\s*return )(.+)(;)$',c)
        if m: add(m[1]+'0'+m[3],'ret0'); 
        m=re.match(r'^(\s*)(m\w+)(\(other\.\w+.*)$',c)
random.Random(seed).shuffle(muts)
ORDER='C20 C01 C02 C23 C22 C28 C26 C25 C30 C27 C18 C15 C12 C21 C07 C05 C17 C13 C03 C29 C06 C08 C09 C10 C11 C14 C16 C19 C04'.split()
done=0
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def log(s):
    print(s,flush=True); open(LOG,'a').write(s+'\n')
for f,i,n,kind in muts:
    if done>=count: break
    p=f'{WT}/src/{f}'; orig=open(p,encoding='latin-1',newline='').read(); t=orig.split('\n'); old=t[i]; t[i]=n
    open(p,'w',encoding='latin-1',newline='').write('\n'.join(t))
    try:
        try: r=subprocess.run(['timeout','120','unshare','-Urm','bash','-c',f'mount --bind {WT} /repo && cd /repo && bash /opt/vp/test.sh /tmp/mutk/t{seed}.json'],text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=150)
        except subprocess.TimeoutExpired: continue
        try: ok=set(json.load(open(f'/tmp/mutk/t{seed}.json'))['passed'])
        except Exception: ok=set()
        if stable-ok: continue
        done+=1
        try: exe=check.build()
        except SystemExit: log(f'NOBUILD {f}:{i+1} [{kind}] {n.strip()}'); continue
        killed=None; t0=time.time()
        for c in ORDER:
            sc=f'/tmp/mutk/s{seed}'; shutil.rmtree(sc,ignore_errors=True); os.makedirs(sc+'/a'); os.makedirs(sc+'/r')
            r=subprocess.run(['nice',exe,'run',c,'--tier','quick','--jobs','8','--out',sc+'/o.json','--replaydir',sc+'/r','--certs','/verif/mc/certs','--scratch',sc+'/a','--maxtime',str(maxt)],text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            try: d=json.load(open(sc+'/o.json'))
            except Exception: killed=(c,'no report rc=%d'%r.returncode); break
            if d['violations']: killed=(c,d['violations'][0]['message'][:90]); break
        log(f'{"killed by "+killed[0] if killed else "SURVIVED"} {time.time()-t0:.0f}s {f}:{i+1} [{kind}] {old.strip()[:110]} => {n.strip()[:110]} {killed[1] if killed else ""}')
    finally:
        open(p,'w',encoding='latin-1',newline='').write(orig)
