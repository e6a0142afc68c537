import sys
p='/verif/tools/claims.py'; s=open(p).read()
k=sys.argv[1]; v=sys.argv[2]
import re
if '"%s":'%k in s.split('NA={')[0]:
    s=re.sub(r'"%s":".*",\n'%k,lambda m:'"%s":"%s",\n'%(k,v),s,1)
else:
    s=s.replace('}\nNA={','"%s":"%s",\n}\nNA={'%(k,v),1)
open(p,'w').write(s)
