import re
p='tools/props.py'; s=open(p).read()
def setst(pid, title=None, st=None):
    global s
    m=re.search(r'prop\(\n    "%s", "([^"]*)",\n((?:    "(?:[^"\\]|\\.)*"[ ,]*\n)+?)    \['%pid, s)
    assert m, pid
    t=title or m.group(1)
    lines=[l.strip() for l in st]
    body="".join('    %s%s\n'%(__import__("json").dumps(x+(" " if i<len(lines)-1 else ""),ensure_ascii=False), "" if i<len(lines)-1 else ",") for i,x in enumerate(lines))
    s=s[:m.start()]+'prop(\n    "%s", "%s",\n%s    ['%(pid,t,body)+s[m.end():]
exec(open('/tmp/st.py').read())
open(p,'w').write(s)
