#!/bin/bash
# mut.sh PID filter file 'python-replace-old' 'new'
rm -rf /tmp/mrepo; cp -a /repo /tmp/mrepo
python3 - "$3" "$4" "$5" <<'P'
import sys
p='/tmp/mrepo/'+sys.argv[1]; s=open(p).read()
o,n=sys.argv[2].encode().decode('unicode_escape'),sys.argv[3].encode().decode('unicode_escape')
assert s.count(o)>=1,(s.count(o))
open(p,'w').write(s.replace(o,n,1))
P
cd /verif; REPO=/tmp/mrepo timeout 300 python3-vt run1.py $1 $2 2>&1 | cut -c1-300 | grep -v " ok "
rm -rf /tmp/mrepo
