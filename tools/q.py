"""q.py FILE NAME:OPTS ...   set the options of scenarios in a table (development aid)"""
import sys,re
f=sys.argv[1]; s=open(f).read()
for a in sys.argv[2:]:
    n,q=a.split(':',1); k=0
    s,c=re.subn(r'\bE\(%s\)'%n,'B(%s, "%s")'%(n,q) if '#define B(' in s else '{"%s", %s, "%s"}'%(n,n,q),s); k+=c
    if not k: s,c=re.subn(r'\bB\(%s, "[^"]*"\)'%n,'B(%s, "%s")'%(n,q),s); k=k or c
    if not k: s,c=re.subn(r'\{"%s", (\w+), "[^"]*"\}'%n,r'{"%s", \1, "%s"}'%(n,q),s); k=k or c
    assert k==1,(n,k)
open(f,'w').write(s)
