"""append the 'fixed:' lines to known_findings.txt from the fix commits of /repo"""
import subprocess,re
PROP='''d7cbfbc C26
814ab0b C11
f4f030f C11
eb4d271 C11
3d0c217 C11
2964f5e C02
b97adfe C04
22c0534 C09
19a3ab2 C09
7440371 C09
db60270 C09
289da6c C09
6f13641 C09
285695c C09
717c135 C09
dd3b11d C09
6308adb C09
c7dd43d C09
a909de2 C09
c5d9531 C09
65ec991 C09
2af8cd1 C09
7c799aa C09
59f3c49 C21
8088799 C21
cc3ae46 C21
86ca269 C20
efae69a C20
2ce1242 C20
422a9ed C22
64f629a C16
f18e8c6 C10
96b835a C10
ec987c2 C10
b33c1f4 C10
fb79a9a C08
581212e C08
2de74bf C08
298d417 C07
7039b66 C06
e11ea4a C06
e5e46ff C06
fa618e8 C06
ec2538a C06
0c49357 C06
21ca55d C06
a3dc801 C06
95a8b58 C06
e6eea53 C06
8dcdbee C06
2075e3e C19
5df61aa C19
28263c8 C19
78d032f C19
e657f13 C15
ec76401 C14
8984514 C05
121a579 C02
75466ec C07
f2cc4b2 C11
bb7b632 C10
d9b5721 C17
750bccc C05
3736158 C11
9e37a55 C11
ef399b6 C11
ddaba8d C11
99a5a3b C05
253676b C11
14ae53a C11
653b3ad C11
bdd31c7 C01'''
P=dict(l.split() for l in PROP.splitlines())
lines=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
kf='/verif/known_findings.txt'
old=[l for l in open(kf) if not l.startswith('fixed:')]
out=[]
for l in lines:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    if h not in P: print('no property for',l); continue
    out.append('fixed: property=%s %s %s\n'%(P[h],h,s[4:].strip()))
open(kf,'w').writelines(old+out)
