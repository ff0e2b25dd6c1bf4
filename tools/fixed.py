import json,subprocess
m="""44c5532 C03
9cdda0e C03
dedd3b2 C03
f9ee759 C03
3f4ec9f C04
aa448d9 C04
c4ff423 C02
ccdfaeb C17
dd6d4b9 C17
ef0b6e8 C17
fe91028 C17
3341b00 C17
04b77ae C17
8756e78 C17
861e758 C18
22b5659 C18
66f50c4 C17
fe01672 C04
2477d7c C17
e12c54e C16
9267cdd C16
c596a48 C17
d3d080d C17
1ee47a9 C17
6dbed37 C17
4cbc583 C05
0178aec C01
b82f8eb C01
752c460 C01
e281f39 C02
b159d87 C02
d01bdff C05
21bce3f C05
2df40ff C05
735ad42 C05
359d5ab C05
69f5c49 C05
e59a1e6 C05
fa1e390 C17
1eace6e C02
9d49dff C02
55c8fab C02
623536a C04
43b3744 C03
5b8f7e4 C05
abdebfe C05
baea889 C05
2332d65 C04
2a0665b C02
6241ed1 C07
e075142 C10
37fa9e1 C09
d3b0c0f C11
6c69ee3 C12
35bd579 C12
c1e8e89 C12
5ce7d20 C13
9082ccc C13
c74cf24 C13
027428b C13
20f3dd2 C13
74b9c10 C13
5a355a3 C13
aafbc0d C16
e7e7ae3 C16
dd26c52 C16
c29fa06 C16
688dc0e C16
ffd216d C16
55b6f50 C02
bff91e4 C01
f59713e C01
36a23af C01
2473b74 C02
2f83ed4 C17
554147b C17
c95c2ad C17
f0347ae C17
ad01cc2 C16
21e0048 C17
baf4f51 C16
e24743f C16
8133750 C16
f30a464 C19
2929749 C19
eeea20e C19
122fb37 C19
29c2cf3 C19
a900d34 C19
420e794 C06
491588a C17
03588af C17
c401bbf C20
40f9d1d C20
a42eec9 C20
5532e42 C17
01dcb4b C20
3ab2958 C17
5427761 C01
1641aa0 C03
3a5434a C17
67af2f4 C20"""
m=dict(l.split() for l in m.split('\n'))
out=subprocess.run("git -C /repo log --reverse --format=%h%x09%s%x09%b%x01 4ae48ea..HEAD",shell=True,capture_output=True,text=True).stdout
d=json.load(open('/verif/known_findings.json'))
d['findings']=[f for f in d['findings'] if f['status']!='fixed']
d['fixed']=[]
for c in out.split('\x01'):
    c=c.strip()
    if not c: continue
    h,s,*b=c.split('\t')
    if not s.startswith('fix:'): print("??",c); continue
    if h not in m: print("unmapped",h,s); continue
    d['fixed'].append("fixed: property=%s %s %s"%(m[h],h,s[5:]))
json.dump(d,open('/verif/known_findings.json','w'),indent=1); open('/verif/known_findings.json','a').write('\n')
print(len(d['fixed']))
