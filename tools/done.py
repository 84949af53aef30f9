#!/usr/bin/env python3
# done.py ID ['extra kwargs']
import sys,subprocess
pid=sys.argv[1]; extra=sys.argv[2] if len(sys.argv)>2 else ''
p='/verif/tools/props_src.py'; s=open(p).read()
i=s.index(f'prop("{pid}"'); j=s.find('\nprop("',i); j2=s.find('\n# ----',i); j=min(x for x in (j,j2,len(s)) if x>0)
b=s[i:j].rstrip()
assert b.endswith(')')
if 'done=True' not in b: b=b[:-1]+', done=True'+((', '+extra) if extra else '')+')'
elif extra: b=b[:-1]+', '+extra+')'
open(p,'w').write(s[:i]+b+s[j:])
subprocess.check_call(['python3','/verif/tools/meta.py'])
