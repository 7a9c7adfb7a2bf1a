import sys
RFS={}
def RF(i,e): RFS[i]=e
exec(open(sys.argv[1]).read())
for f,a,b in RFS[sys.argv[2]]:
    p=sys.argv[3]+'/'+f; t=open(p).read(); assert t.count(a)>=1; open(p,'w').write(t.replace(a,b,1))
