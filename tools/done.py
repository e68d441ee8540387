"""done(id, note[, design section])"""
import sys,re,subprocess
sys.path.insert(0,'/verif')
def done(pid, note, design=None, statement=None):
    p='/verif/tools/props_data.py'
    s=open(p).read()
    i=s.index('prop("%s"'%pid); j=s.find('\nprop("',i+5)
    j=len(s) if j<0 else j
    b=s[i:j].rstrip()
    assert b.endswith(')') and 'done=True' not in b, b[-100:]
    b=b[:-1]+',\n     done=True,\n     note=%r)' % note
    if statement:
        a,c=statement
        assert b.count(a)==1,(a,b)
        b=b.replace(a,c)
    s=s[:i]+b+s[j:]
    open(p,'w').write(s)
    if design:
        p='/verif/DESIGN.md'
        s=open(p).read().rstrip()+'\n\n'+design.strip()+'\n'
        open(p,'w').write(s)
    print(subprocess.run(['python3','/verif/tools/props.py'],stdout=subprocess.PIPE).stdout.decode())
