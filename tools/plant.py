import subprocess,os,json,sys
def seed(id,prop,edits,needs,breaks,demo,check=True,extra={}):
    """edits: [(path,old,new)] on /tmp/plant"""
    P='/tmp/plant'
    subprocess.check_call(['git','-C',P,'checkout','-q','--','.'])
    subprocess.check_call(['git','-C',P,'fetch','-q','/repo','HEAD'])
    subprocess.check_call(['git','-C',P,'reset','-q','--hard','FETCH_HEAD'])
    for path,old,new in edits:
        f=os.path.join(P,path); s=open(f).read()
        assert s.count(old)==1,(path,s.count(old),old)
        open(f,'w').write(s.replace(old,new))
    subprocess.check_call(['/verif/tools/mkseed.sh',id,prop])
    d='/verif/seeded/'+id
    open(d+'/demo.py','w').write(demo)
    for k,v in extra.items(): open(d+'/'+k,'w').write(v)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    if check:
        a=subprocess.call([d+'/demo.sh'],cwd='/repo',stdout=subprocess.DEVNULL)
        b=subprocess.run([d+'/demo.sh'],cwd=P,stdout=subprocess.PIPE,text=True)
        print(id,'clean rc',a,'planted rc',b.returncode,b.stdout.strip()[-150:])
        assert a==0 and b.returncode!=0
