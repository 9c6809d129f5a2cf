import sys
def edit(p,pairs):
    s=open(p,newline='').read(); crlf='\r\n' in s
    s=s.replace('\r\n','\n')
    for a,b in pairs:
        assert s.count(a)==1,(p,s.count(a),a)
        s=s.replace(a,b)
    if crlf: s=s.replace('\n','\r\n')
    open(p,'w',newline='').write(s)
