"""plant.py SPECFILE...   each SPEC: python file defining bugs = [dict(id,prop,edits=[(file,old,new)],demo,needs,breaks)]"""
import sys,os,shutil,subprocess,json,tempfile,concurrent.futures as cf,re
stable=set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json'))['passed'])
ALLC=[x['property'] for x in json.load(open('/verif/MANIFEST.json'))['checks']]
def one(b, only_checks=False):
    out=[]
    d=tempfile.mkdtemp(prefix='plant',dir='/tmp'); r=d+'/repo'
    try:
        shutil.copytree('/repo',r,ignore=shutil.ignore_patterns('images','docs'),symlinks=True)
        for f,o,n in b['edits']:
            p=r+'/src/skspatial/'+f; s=open(p).read()
            if s.count(o)!=1: return b['id'],'EDIT matches %d times: %s'%(s.count(o),o)
            open(p,'w').write(s.replace(o,n))
        diff=subprocess.run(['git','-C',r,'diff','--','src'],capture_output=True,text=True).stdout
        # original lines only
        base=subprocess.run(['git','-C',r,'stash','list'],capture_output=True,text=True)
        env=dict(os.environ,PYTHONPATH=r+'/src',PYTHONDONTWRITEBYTECODE='1',MPLBACKEND='Agg',PYTHONHASHSEED='0')
        demo=d+'/demo'; os.mkdir(demo)
        open(demo+'/demo.py','w').write(b['demo'])
        open(demo+'/demo.sh','w').write('#!/bin/bash\n# exit 0 when the property holds; run in the root of the repository\nset -eu\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        a=subprocess.run(['bash',demo+'/demo.sh'],cwd='/repo',capture_output=True,text=True,timeout=250)
        c=subprocess.run(['bash',demo+'/demo.sh'],cwd=r,capture_output=True,text=True,timeout=250)
        ok = a.returncode==0 and c.returncode!=0
        out.append('demo clean=%d bug=%d %s'%(a.returncode,c.returncode,(c.stderr.strip().split('\n') or [''])[-1][:120] if ok else a.stderr[-300:]))
        if not only_checks:
            t=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','--timeout=300','--doctest-modules','--doctest-glob=README.md','-o','junit_family=xunit2','--junitxml='+d+'/junit.xml','tests','src','README.md'],cwd=r,env=env,capture_output=True,text=True)
            subprocess.run(['python3','/opt/vp/results.py',d+'/o.json','junit:'+d+'/junit.xml'],capture_output=True)
            o=json.load(open(d+'/o.json')); lost=sorted(stable-set(o['passed']))
            tl=t.stdout.strip().split('\n')[-1]
            out.append('tests rc=%d %s'%(t.returncode,tl)); 
            if lost: out.append('LOST %d %s'%(len(lost),lost[:3]))
            ok = ok and not lost
        hits=[]
        def ck(x):
            q=subprocess.run(['python3','/verif/sa/check.py',x,'--only','(','--jobs','3'],env=dict(os.environ,SA_REPO=r),capture_output=True,text=True)
            return x,q.returncode,[l for l in q.stdout.split('\n') if re.match(r'  \S+:\d+',l)]
        want=ALLC if "-a" in sys.argv else [b["prop"]]
        with cf.ThreadPoolExecutor(4) as ex: rs=list(ex.map(ck,want))
        for x,rc,l in rs:
            if rc: hits.append('%s(%d)'%(x,rc))
            if x==b['prop']: out.append('OWN %s rc=%d %s'%(x,rc,(l or [''])[0][:230]))
        out.append('hits: '+' '.join(hits))
        if ok:
            t='/verif/seeded/'+b['id']; os.makedirs(t,exist_ok=True)
            open(t+'/patch.diff','w').write(diff); shutil.copy(demo+'/demo.py',t); shutil.copy(demo+'/demo.sh',t); os.chmod(t+'/demo.sh',0o755)
            json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(t+'/meta.json','w'),indent=1)
            out.append('KEPT')
        else: out.append('NOT KEPT')
    finally: shutil.rmtree(d)
    return b['id'],'\n    '.join(out)
bugs=[]
for f in sys.argv[1:]:
    if f.startswith('-'): continue
    ns={}; exec(open(f).read(),ns); bugs+=ns['bugs']
with cf.ThreadPoolExecutor(3) as ex:
    for i,o in ex.map(one,bugs): print('##',i,'\n   ',o,flush=True)
