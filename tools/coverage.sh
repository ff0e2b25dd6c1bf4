#!/bin/bash
# usage: tools/coverage.sh OUTDIR N [WORLD...]: which lines of the library the worlds do not reach (not used by any check)
cd "$(dirname "$0")/.." || exit 1
out=$1; n=$2; shift 2; mkdir -p "$out"
exe=$(python3 build.py cov | tail -1)
find build/cov -name '*.gcda' -delete
ws=${*:-render session values map strings cache cached module loader limits cli}
for w in $ws; do
  case $w in cached|cache) os="--opt_kind=simple --opt_kind=mmap --opt_kind=lmdb";; render) os="--opt_x=1 --opt_providers=1";; session) os="--opt_x=1 --opt_oom=1";; *) os="--opt_x=1";; esac
  for o in $os; do timeout 300 $exe batch $w 0 $n --opt ${o#--opt_} >/dev/null 2>>"$out/err" & done
done; wait
(cd build/cov/o && for f in *.gcda; do gcov -o . "$f" -t 2>/dev/null; done) > "$out/gcov.txt"
python3 - "$out" <<'P'
import sys,re,os
d=sys.argv[1]; cur=None; files={}
for l in open(d+'/gcov.txt',errors='replace'):
    m=re.match(r'\s*-:\s*0:Source:(.*)',l)
    if m: cur=os.path.basename(m.group(1)); files.setdefault(cur,{}); continue
    m=re.match(r'\s*([^:]+):\s*(\d+):(.*)',l)
    if m and cur and int(m.group(2)):
        c=m.group(1).strip(); n=int(m.group(2)); hit=c not in ('#####','=====','-')
        if c=='-': continue
        f=files[cur]; f[n]=(f.get(n,(False,))[0] or hit,m.group(3))
for f,ls in sorted(files.items()):
    if not f.startswith('handlebars'): continue
    print('%-36s %4d/%4d'%(f,sum(h for h,_ in ls.values()),len(ls)))
    with open(d+'/'+f+'.miss','w') as o:
        for n,(h,t) in sorted(ls.items()):
            if not h: o.write('%d:%s\n'%(n,t))
P
