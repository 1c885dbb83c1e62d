#!/usr/bin/env python3
"""Derives /verif/api.json (signatures of every public function) from the headers. Run at development time only."""
import re,subprocess,json,sys,os,tempfile
R=os.environ.get('VERIF_REPO','/repo')
d=tempfile.mkdtemp()
open(d+'/b.c','w').write('#define CGLM_CLIPSPACE_INCLUDE_ALL\n#include <cglm/cglm.h>\n#include <cglm/struct.h>\n#include <cglm/struct/aabb2d.h>\n#include <cglm/struct/handed/euler_to_quat_lh.h>\n#include <cglm/struct/handed/euler_to_quat_rh.h>\n')
txt=subprocess.run(['clang','-E','-I'+R+'/include',d+'/b.c'],capture_output=True,text=True).stdout
# drop non-cglm text
keep=[];cur='';
for l in txt.split('\n'):
    m=re.match(r'# \d+ "([^"]*)"',l)
    if m: cur=m.group(1); continue
    if '/cglm/' in cur: keep.append((cur.split('/cglm/')[1],l))
fns={}
def parse_params(s):
    s=' '.join(s.split())
    if s in('','void'): return []
    out=[];depth=0;cur=''
    for ch in s+',':
        if ch==',' and depth==0:
            out.append(cur.strip());cur=''
        else:
            depth+=ch=='(';depth-=ch==')';cur+=ch
    res=[]
    for p in out:
        p=p.replace('restrict','').replace('__restrict','')
        m=re.match(r'^(const )?\s*(unsigned int|enum \w+|\w+)\s*((?:\*\s*(?:__\w*)?\s*)*)(\w+)?\s*((?:\[[^\]]*\])*)$',p)
        if not m: print('PARAM?',p); res.append(dict(raw=p)); continue
        res.append(dict(const=bool(m.group(1)),type=m.group(2),ptr=m.group(3).count('*'),name=m.group(4),arr=m.group(5)))
    return res
def scan(pairs,fam):
    text='';hdr=[]
    for h,l in pairs:
        for _ in l+'\n': pass
        text+=l+'\n'; hdr.append((len(text),h))
    import bisect
    ends=[x[0] for x in hdr]
    for m in re.finditer(r'(?:__attribute\s*\(\(always_inline\)\)|__attribute__\s*\(\(visibility\("default"\)\)\))?\s*\n?((?:unsigned int|enum \w+|[a-zA-Z_]\w*)(?:\s*\*)*)\s+\(?(glm[sc]?_\w+?|glm\w+)\)?\s*\(([^(){};]*)\)\s*\{',text):
        ret,name,ps=m.groups()
        if ret in('return','else','if'): continue
        if not re.match(r'glm[sc]?_',name): continue
        h=hdr[bisect.bisect_right(ends,m.start(2))][1]
        fns[name]=dict(ret=' '.join(ret.split()),params=parse_params(ps),header=h)
scan(keep,'')
# call API from src
for root,_,fs in os.walk(R+'/src'):
    for f in fs:
        if f.endswith('.c'):
            t=subprocess.run(['gcc','-fpreprocessed','-dD','-E','-P',os.path.join(root,f)],capture_output=True,text=True).stdout
            scan([('src/'+os.path.relpath(os.path.join(root,f),R+'/src'),l) for l in t.split('\n')],'')
json.dump(fns,open('/tmp/w/api_raw.json','w'),indent=0)
from collections import Counter
print(len(fns),Counter(n.split('_')[0] for n in fns))
for n,f in fns.items():
    for p in f['params']:
        if 'raw' in p or p['ptr'] or p['arr'] or p['const']: print(n,f['ret'],[ (q.get('raw') or (('const ' if q['const'] else '')+q['type']+'*'*q['ptr'],q['name'],q['arr'])) for q in f['params']]); break

# ---------------------------------------------------------------- left handed euler quats
open(d+'/c.c','w').write('#define CGLM_FORCE_LEFT_HANDED\n#include <cglm/cglm.h>\n')
txt=subprocess.run(['clang','-E','-I'+R+'/include',d+'/c.c'],capture_output=True,text=True).stdout
keep=[];cur=''
for l in txt.split('\n'):
    m=re.match(r'# \d+ "([^"]*)"',l)
    if m: cur=m.group(1); continue
    if '/cglm/handed/' in cur: keep.append((cur.split('/cglm/')[1],l))
scan(keep,'')
EL={'float':1,'int':1,'vec2':2,'vec3':3,'vec4':4,'versor':4,'mat2':4,'mat3':9,'mat4':16,'mat2x3':6,'mat2x4':8,'mat3x2':6,'mat3x4':12,'mat4x2':8,'mat4x3':12,'ivec2':2,'ivec3':3,'ivec4':4}
api={}
def elems(t):
    return EL[t[:-1] if t.endswith('s') and t not in EL else t]
SCAL={'float':'f32','int':'i32','size_t':'size','uint32_t':'i32','unsigned int':'i32','bool':'i1','_Bool':'i1','glm_euler_seq':'i32'}
skip=[]
for n,f in sorted(fns.items()):
    if n.endswith(('_sse2','_print','_print_name')) or 'print' in n: skip.append(n); continue
    ps=[]; ok=True
    for p in f['params']:
        if 'raw' in p: ok=False;break
        t=p['type'];nm=p['name']
        base=t[:-1] if t.endswith('s') and t not in EL and t!='glm_euler_seq' else t
        q=dict(name=nm,type=t,ptr=p['ptr'],arr=p['arr'],const=p['const'])
        kind='i32' if base.startswith('ivec') or base=='int' else 'f32'
        if p['ptr']==0 and p['arr']=='' and t in SCAL:
            q['kind']='scalar'; q['ty']=SCAL[t]
        elif t=='char' or t=='FILE': ok=False;break
        else:
            cnt=1
            if p['arr'] and p['arr']!='[]': cnt=int(p['arr'][1:-1])
            elif p['arr']=='[]': cnt=3
            if p['ptr'] and t in('float','int'):
                # length from the function name
                m=re.match(r'glm[sc]?_(mat\dx\d|mat\d|ivec\d|vec\d|quat)(_make)?$',n)
                cnt=1
                if m: cnt={'quat':4}.get(m.group(1)) or EL[m.group(1)]
            elif p['ptr'] and 'identity_array' in n: cnt=3
            elif p['ptr'] and p['arr']=='[]': cnt=-1   # pointer array
            q['kind']='obj'; q['elem']=base; q['n']=cnt*elems(base) if cnt>0 else -1; q['ty']=kind
            q['byval']= t.endswith('s') and t not in EL and p['ptr']==0 and p['arr']==''
        ps.append(q)
    if not ok: skip.append(n); continue
    r=f['ret']
    ro=dict(type=r)
    if r in('void',): ro['kind']='void'
    elif r in SCAL: ro['kind']='scalar';ro['ty']=SCAL[r]
    else:
        base=r[:-1]; ro['kind']='struct'; ro['elem']=base; ro['n']=elems(base); ro['ty']='i32' if base.startswith('ivec') else 'f32'
    api[n]=dict(ret=ro,params=ps,header=f['header'])
json.dump(api,open(os.environ.get('API_OUT','/verif/api.json'),'w'),indent=0,sort_keys=True)
print('API',len(api),'skipped',skip,file=sys.stderr)
