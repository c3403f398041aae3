import sys,re,json,collections
sys.path.insert(0,'/verif/tools')
from dec import f
tr=[json.loads(l) for l in open(sys.argv[1])]
c=collections.Counter(); ex={}
txt=open(sys.argv[2]).read()
for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*(\{.*?\})\s*>>',txt,re.S):
    e=tr[int(m.group(1))-1]
    for n in re.findall(r'"([^"]+)"',m.group(2)):
        c[(e['mod'],n)]+=1; ex.setdefault((e['mod'],n),int(m.group(1)))
for k in sorted(c): print(c[k],*k,'ev',ex[k])
if len(sys.argv)>3:
    e=tr[int(sys.argv[3])-1]
    print(e['mod']); print({k:f(v) for k,v in e['a'].items()}); 
    for q in 'rmdx':
        if q in e: print(q,{k:f(v) for k,v in e[q].items()})
print('states' , re.findall(r'\d+ states generated.*',txt)); 
if 'Error' in txt: print(txt[txt.index('Error'):][:1500])
