import json,subprocess,re
names=json.load(open('names.json'))
for it in range(5):
    lines=[(m,n) for m in names for n in names[m]]
    src='#![allow(warnings)]\nfn main(){\n'
    for m,n in lines: src+=f'println!("{m} {n} {{:x}} {{}}",object::{m}::{n}, std::mem::size_of_val(&object::{m}::{n}));\n'
    src+='}\n'
    open('d/src/main.rs','w').write(src)
    r=subprocess.run(['cargo','build','--offline','-q'],cwd='d',capture_output=True,text=True)
    if r.returncode==0: break
    bad={int(x)-3 for x in re.findall(r'src/main.rs:(\d+):',r.stderr)}
    print('removing',[lines[i] for i in bad if 0<=i<len(lines)])
    for i in bad:
        if 0<=i<len(lines): names[lines[i][0]].remove(lines[i][1])
print(r.stderr[:500])
out=subprocess.run(['d/target/debug/d'],capture_output=True,text=True).stdout
open('actual.txt','w').write(out)
spec=json.load(open('spec.json'))
bad=0;cov=0;tot=0
for l in out.splitlines():
    m,n,h,sz=l.split();v=int(h,16);sz=int(sz);tot+=1
    c=False
    for k,d in spec.items():
        if k.startswith(m+'/') and n in d:
            c=True
            if (d[n]-v)%(1<<(8*sz)): print('DIFF',k,n,hex(v),hex(d[n]&(2**64-1)),sz);bad+=1
    cov+=c
print(tot,cov,bad)
