"ed.py FILE <<< python code defining OLD, NEW pairs list"
import sys
def edit(p, pairs):
    b=open(p,'rb').read()
    crlf=b'\r\n' in b
    s=b.decode('utf-8').replace('\r\n','\n') if crlf else b.decode('utf-8')
    for o,n in pairs:
        assert s.count(o)==1,(p,s.count(o),o[:80])
        s=s.replace(o,n)
    if crlf: s=s.replace('\n','\r\n')
    open(p,'wb').write(s.encode('utf-8'))
