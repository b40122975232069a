"""sweep.py CHECKS(comma) < lines: file \t lineno \t old \t new"""
import sys,shutil,subprocess,os,concurrent.futures as cf,tempfile
checks=sys.argv[1].split(','); muts=[l.rstrip('\n').split('\t') for l in sys.stdin if l.strip()]
def one(m):
    f,n,old,new=m; n=int(n); d=tempfile.mkdtemp(prefix='sw',dir='/tmp'); 
    try:
        shutil.copytree('/repo/src',d+'/src'); p=d+'/src/skspatial/'+f; L=open(p).read().split('\n')
        assert old in L[n-1],(m,L[n-1]); L[n-1]=L[n-1].replace(old,new,1); open(p,'w').write('\n'.join(L))
        out=[]
        for c in checks:
            q=subprocess.run(['python3','/verif/sa/check.py',c,'--only','(','--jobs','2'],env=dict(os.environ,SA_REPO=d),capture_output=True,text=True)
            out.append((c,q.returncode))
            if q.returncode==1: break
        return m,L[n-1].strip(),out
    finally: shutil.rmtree(d)
with cf.ThreadPoolExecutor(4) as ex:
    for m,l,o in ex.map(one,muts):
        print('CAUGHT' if any(r==1 for _,r in o) else 'MISSED',m[0],m[1],l[:90],o if not any(r==1 for _,r in o) else [c for c,r in o if r==1],flush=True)
