#!/usr/bin/env python3
# sub.py file <<< "OLD\n====\nNEW"
import sys
f=sys.argv[1]; 
if not f.startswith('/'): f='/repo/libdiskpp/include/diskpp/'+f
n=int(sys.argv[2]) if len(sys.argv)>2 else 1
a,b=sys.stdin.read().split('\n====\n'); b=b.rstrip('\n')
s=open(f).read()
if s.count(a)!=n: print('COUNT',s.count(a)); sys.exit(1)
open(f,'w').write(s.replace(a,b))
