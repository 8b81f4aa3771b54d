# usage: seed.sh ID PROP SRCS DEMO ; edits come as python on stdin operating on R(file, old, new)
set -e
git -C /tmp/wt fetch -q; git -C /tmp/wt reset -q --hard origin/main
python3 - "$@" <<P
import sys
def R(f,a,b,n=1):
    p='/tmp/wt/'+f; s=open(p).read(); assert s.count(a)==n,(f,a,s.count(a)); open(p,'w').write(s.replace(a,b))
$(cat)
P
python3 /verif/tools/mkseed.py "$@"
