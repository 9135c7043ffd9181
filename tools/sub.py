import subprocess,sys
def sub(p,pairs,msg=None):
    b=open(p,'rb').read()
    crlf=b'\r\n' in b
    for o,n,c in pairs:
        o=o.encode();n=n.encode()
        if crlf: o=o.replace(b'\n',b'\r\n');n=n.replace(b'\n',b'\r\n')
        assert b.count(o)==c,(p,o,b.count(o))
        b=b.replace(o,n)
    open(p,'wb').write(b)
    if msg: subprocess.check_call(['git','commit','-qam',msg])
