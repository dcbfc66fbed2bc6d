import subprocess,sys,os,json
def seed(id,prop,file,old,new,needs,breaks,demo,extra={},count=1):
    p=(os.environ.get('SEEDREPO','/repo')+'/'+file); s=open(p).read()
    assert s.count(old)>=1,(id,s.count(old))
    if count==1: assert s.count(old)==1,(id,s.count(old))
    open(p,'w').write(s.replace(old,new))
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    diff=subprocess.run(['git','-C',os.environ.get('SEEDREPO','/repo'),'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    subprocess.run(['git','-C',os.environ.get('SEEDREPO','/repo'),'checkout','-q','--','.'])
    subprocess.run(['cp','/verif/tools/demo_template.sh',d+'/demo.sh'])
    open(d+'/demo.cpp','w').write(demo)
    for k,v in extra.items(): open(d+'/'+k,'w').write(v)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
