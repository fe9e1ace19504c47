"""mk.py ID PROPERTY FILE: reads stdin: OLD ==== NEW [#### more OLD ==== NEW for FILE2...] and writes patch.diff"""
import sys,subprocess,os,json
id,prop,needs,what=sys.argv[1:5]
d=f'/verif/seeded/{id}'
os.makedirs(d+'/m',exist_ok=True)
assert not subprocess.check_output(['git','-C','/repo','status','--porcelain']).strip()
for blk in sys.stdin.read().split('\n####\n'):
    f,_,rest=blk.partition('\n'); old,_,new=rest.partition('\n====\n')
    new=new.rstrip('\n'); old=old.strip('\n')
    p='/repo/'+f.strip(); s=open(p).read()
    assert s.count(old)==1,(f,s.count(old),old)
    open(p,'w').write(s.replace(old,new))
diff=subprocess.check_output(['git','-C','/repo','diff']).decode()
open(d+'/patch.diff','w').write(diff)
subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+'/meta.json','w'),indent=1)
