#!/usr/bin/env python3
# mulcounts.py FILE FQ FT : multiply the case counts of every PROP in a harness
import re,sys
p,fq,ft=sys.argv[1],float(sys.argv[2]),float(sys.argv[3])
s=open(p).read()
s=re.sub(r'PROP\(("[^"]+"), *(\d+), *(\d+)\)',lambda m:f'PROP({m[1]}, {int(int(m[2])*fq)}, {int(int(m[3])*ft)})',s)
open(p,'w').write(s)
