#!/usr/bin/env python3
"""Generates C++ message headers from the repository's .msg/.srv files: gen_msgs.py REPO OUT"""
import os, re, sys
PRIM={'bool':'uint8_t','byte':'int8_t','char':'uint8_t','int8':'int8_t','uint8':'uint8_t','int16':'int16_t','uint16':'uint16_t','int32':'int32_t','uint32':'uint32_t',
      'int64':'int64_t','uint64':'uint64_t','float32':'float','float64':'double','string':'std::string','time':'ros::Time','duration':'ros::Duration'}
def parse(text,pkg):
    fields,consts,deps=[],[],set()
    for line in text.splitlines():
        line=line.split('#',1)[0].strip() if '=' not in line or 'string' not in line else line.strip()
        if not line or line.startswith('#'): continue
        m=re.match(r'^([\w/]+)(\[\d*\])?\s+(\w+)\s*(=\s*(.*))?$',line)
        if not m: raise SystemExit('cannot parse: '+line)
        t,arr,n,c,cv=m.groups()
        if c is not None:
            consts.append((t,n,cv.strip())); continue
        if t=='Header': t='std_msgs/Header'
        if t in PRIM: ct=PRIM[t]
        else:
            if '/' not in t: t=pkg+'/'+t
            deps.add(t); ct=t.replace('/','::')
        if arr:
            k=arr[1:-1]
            ct='std::vector<%s>'%ct if not k else 'std::array<%s,%s>'%(ct,k)
        fields.append((ct,n))
    return fields,consts,deps
def struct(name,fields,consts):
    o=['struct %s {'%name]
    ints=[(n,v) for t,n,v in consts if t not in('string','float32','float64')]
    if ints: o.append('  enum { '+', '.join('%s = %s'%x for x in ints)+' };')
    for ct,n in fields: o.append('  %s %s{};'%(ct,n))
    o.append('  typedef std::shared_ptr<%s> Ptr; typedef std::shared_ptr<const %s> ConstPtr;'%(name,name))
    o.append('};')
    return '\n'.join(o)
def head(deps): return '#pragma once\n#include "simros.h"\n'+''.join('#include <%s.h>\n'%d for d in sorted(deps))
def main():
    repo,out=sys.argv[1:3]
    pkg='controller_manager_msgs'; d=os.path.join(repo,pkg); o=os.path.join(out,pkg); os.makedirs(o,exist_ok=True)
    for f in sorted(os.listdir(os.path.join(d,'msg'))):
        if not f.endswith('.msg'): continue
        n=f[:-4]; fi,co,de=parse(open(os.path.join(d,'msg',f)).read(),pkg)
        open(os.path.join(o,n+'.h'),'w').write(head(de)+'namespace %s {\n%s\n}\n'%(pkg,struct(n,fi,co)))
    for f in sorted(os.listdir(os.path.join(d,'srv'))):
        if not f.endswith('.srv'): continue
        n=f[:-4]; a,b=re.split(r'^---\s*$',open(os.path.join(d,'srv',f)).read(),maxsplit=1,flags=re.M)
        fa,ca,da=parse(a,pkg); fb,cb,db=parse(b,pkg)
        open(os.path.join(o,n+'Request.h'),'w').write(head(da)+'namespace %s {\n%s\n}\n'%(pkg,struct(n+'Request',fa,ca)))
        open(os.path.join(o,n+'Response.h'),'w').write(head(db)+'namespace %s {\n%s\n}\n'%(pkg,struct(n+'Response',fb,cb)))
        open(os.path.join(o,n+'.h'),'w').write(head({pkg+'/'+n+'Request',pkg+'/'+n+'Response'})+
          'namespace %s {\nstruct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; };\n}\n'%(pkg,n,n,n))
main()
