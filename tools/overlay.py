import json,os,sys
mc,repo=sys.argv[1],sys.argv[2]
r={}
for d,_,fs in os.walk(mc):
    for f in fs:
        if f.endswith('.go'):
            p=os.path.join(d,f)
            r[os.path.join(repo,'pkg/verifmc',os.path.relpath(p,mc))]=p
json.dump({"Replace":r},sys.stdout)
