import sys,re
f=sys.argv[1]; s=open(f).read()
for a in sys.argv[2:]:
    n,q=a.split(':')
    assert 'E(%s)'%n in s or re.search(r'B\(%s, "[^"]*"\)'%n,s),n
    s=s.replace('E(%s)'%n,'B(%s, "%s t=u")'%(n,q)); s=re.sub(r'B\(%s, "[^"]*"\)'%n,'B(%s, "%s t=u")'%(n,q),s)
open(f,'w').write(s)
