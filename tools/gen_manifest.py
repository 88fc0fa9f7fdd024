import json
D='/verif/'
props=[json.loads(l) for l in open(D+'properties.jsonl')]
from collections import OrderedDict
exec(open(D+'tools/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIM:
        t,n=CLAIM[i]
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',technique=t,level='proof',level_note=n))
    else:
        na.append(dict(property=i,reason=NA.get(i,'check under construction')))
json.dump(dict(version=1,setup_cmd='./run.sh setup',checks=checks,not_applicable=na),open(D+'MANIFEST.json','w'),indent=1)
