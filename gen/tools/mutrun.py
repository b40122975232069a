"""usage: mutrun.py file 'old' 'new' [checks...]  (file relative to src/skspatial)"""
import sys,shutil,subprocess,os
f,old,new=sys.argv[1:4]; checks=sys.argv[4:] or sorted(__import__('re').findall(r'^class (C\d+)\(',open('/verif/sa/checks.py').read(),8))
d='/tmp/m%d'%os.getpid(); shutil.copytree('/repo/src',d+'/src')
p=d+'/src/skspatial/'+f; s=open(p).read()
assert s.count(old)>=1,(s.count(old)); s=s.replace(old,new,1); open(p,'w').write(s)
ps={c:subprocess.Popen(['python3','/verif/sa/check.py',c,'--only','(','--jobs','4'],env=dict(os.environ,SA_REPO=d),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True) for c in checks}
for c,q in ps.items():
    o=q.communicate()[0]
    if q.returncode: 
        print(c,"->",q.returncode)
        print("\n".join(x[:260] for x in o.split("\n") if x.startswith("  ") and "open:" not in x or "ERR" in x or "Error" in x)[:600])
    else: print(c,"ok",o.split("\n")[0][:100] if 'open' in o else '')
shutil.rmtree(d)
