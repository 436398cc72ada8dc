import sys
class Irep:
    __slots__=('id','subs','named')
class Reader:
    def __init__(s,b):
        s.b=b; s.p=0; s.strs={}; s.ireps={}
    def word(s):
        b=s.b;p=s.p;r=0;sh=0
        while True:
            c=b[p];p+=1
            r|=(c&0x7f)<<sh;sh+=7
            if c<0x80:break
        s.p=p;return r
    def string(s):
        b=s.b;p=s.p
        e=b.index(0,p)
        if b.find(92,p,e)<0:
            s.p=e+1;return b[p:e]
        out=bytearray()
        while True:
            c=b[p];p+=1
            if c==0:break
            if c==92:
                c=b[p];p+=1
            out.append(c)
        s.p=p;return bytes(out)
    def sref(s):
        i=s.word()
        if i not in s.strs: s.strs[i]=s.string()
        return s.strs[i]
    def irep(s):
        i=s.word()
        r=s.ireps.get(i)
        if r is not None:return r
        r=Irep(); r.subs=[]; r.named=[]
        s.ireps[i]=r
        r.id=s.sref()
        b=s.b
        while True:
            c=b[s.p]; s.p+=1
            if c==0:break
            if c==83: r.subs.append(s.irep())
            elif c==78 or c==67:
                n=s.sref(); r.named.append((n,s.irep()))
            else: raise Exception('bad tag %d at %d'%(c,s.p))
        return r
class Writer:
    def __init__(s): s.o=bytearray(); s.strs={}; s.ireps={}
    def word(s,v):
        o=s.o
        while v>=0x80:
            o.append((v&0x7f)|0x80); v>>=7
        o.append(v)
    def string(s,x):
        if b'\\' in x or b'\0' in x:
            x=x.replace(b'\\',b'\\\\').replace(b'\0',b'\\\0')
        s.o+=x; s.o.append(0)
    def sref(s,x):
        i=s.strs.get(x)
        if i is None:
            i=s.strs[x]=len(s.strs); s.word(i); s.string(x)
        else: s.word(i)
    def irep(s,r):
        i=s.ireps.get(id(r))
        if i is not None: s.word(i); return
        i=s.ireps[id(r)]=len(s.ireps); s.word(i)
        s.sref(r.id)
        for x in r.subs: s.o.append(83); s.irep(x)
        for n,x in r.named: s.o.append(78); s.sref(n); s.irep(x)
        s.o.append(0)
def load(path):
    b=open(path,'rb').read()
    assert b[:4]==b'\x7fGBF'
    r=Reader(b); r.p=4
    ver=r.word()
    n=r.word(); syms=[]
    for _ in range(n):
        syms.append([r.irep(),r.irep(),r.irep(),r.sref(),r.sref(),r.sref(),r.sref(),r.sref(),r.word(),r.word()])
    fs=[]
    n=r.word()
    for _ in range(n):
        name=r.string(); m=r.word(); ins=[]
        for _ in range(m):
            code=r.irep(); loc=r.irep(); ty=r.word(); cond=r.irep(); tn=r.word()
            tg=[r.word() for _ in range(r.word())]
            lb=[r.sref() for _ in range(r.word())]
            ins.append((code,loc,ty,cond,tn,tg,lb))
        fs.append((name,ins))
    rest=b[r.p:]
    return ver,syms,fs,rest,r
def dump(path,ver,syms,fs,rest):
    w=Writer(); w.o+=b'\x7fGBF'; w.word(ver); w.word(len(syms))
    for s in syms:
        for i in range(3): w.irep(s[i])
        for i in range(3,8): w.sref(s[i])
        w.word(s[8]); w.word(s[9])
    w.word(len(fs))
    for name,ins in fs:
        w.string(name); w.word(len(ins))
        for code,loc,ty,cond,tn,tg,lb in ins:
            w.irep(code); w.irep(loc); w.word(ty); w.irep(cond); w.word(tn)
            w.word(len(tg)); [w.word(t) for t in tg]
            w.word(len(lb)); [w.sref(l) for l in lb]
    w.o+=rest
    open(path,'wb').write(w.o)
