import re,subprocess,json,glob
names={}
for m in ['elf','macho','pe','xcoff']:
    s=open(f'/repo/src/{m}.rs').read()
    s=re.sub(r'#\[cfg\(test\)\][\s\S]*','',s)
    ns=re.findall(r'^\s*(?:pub const )?([A-Z][A-Z0-9_a-z]*)(?:: [\w]+)? = [^=]',s,re.M)
    names[m]=list(dict.fromkeys(ns))
json.dump(names,open('names.json','w'))
def ev(tag,pre,names,compiler,ext):
    ok=list(names)
    for it in range(6):
        src=pre+'\n#include <stdio.h>\n'
        base=src.count('\n')
        for n in ok: src+=f'static long long v_{n}(void){{return (long long)({n});}}\n'
        src+='int main(){\n'+''.join(f'printf("%s %lld\\n","{n}",v_{n}());\n' for n in ok)+'}\n'
        open(f'x{tag}.{ext}','w').write(src)
        r=subprocess.run([compiler,'-w','-ferror-limit=0','-DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1','-std=c++17' if ext=='cpp' else '-std=c11','-I/usr/include/llvm-18','-I/usr/lib/llvm-18/include',f'x{tag}.{ext}','-o',f'x{tag}'],capture_output=True,text=True)
        if r.returncode==0: break
        bad={int(x)-base-1 for x in re.findall(rf'x{tag}\.{ext}:(\d+):\d+: error',r.stderr)}
        ok=[n for i,n in enumerate(ok) if i not in bad]
    else: print(tag,'fail',r.stderr[:600])
    out=subprocess.run([f'./x{tag}'],capture_output=True,text=True).stdout
    return {l.split()[0]:int(l.split()[1]) for l in out.splitlines()}
spec={}
spec['elf/elf.h']=ev('e','#define _GNU_SOURCE\n#include <elf.h>',names['elf'],'clang','c')
spec['elf/llvm']=ev('l','#include "llvm/BinaryFormat/ELF.h"\nusing namespace llvm::ELF;',names['elf'],'clang++','cpp')
spec['macho/llvm']=ev('m','#include "llvm/BinaryFormat/MachO.h"\nusing namespace llvm::MachO;',names['macho'],'clang++','cpp')
spec['pe/llvm']=ev('p','#include "llvm/BinaryFormat/COFF.h"\nusing namespace llvm::COFF;',names['pe'],'clang++','cpp')
spec['xcoff/llvm']=ev('x','#include "llvm/BinaryFormat/XCOFF.h"\nusing namespace llvm::XCOFF;',names['xcoff'],'clang++','cpp')
w={}
for f in glob.glob('/root/.cargo/registry/src/*/windows-sys-0.61.2/src/Windows/**/*.rs',recursive=True):
    for n,v in re.findall(r'pub const (IMAGE_\w+): \w+ = (-?\w+?)(?:[ui]\d+)?;',open(f).read()):
        try:w[n]=int(re.sub(r'[iu](8|16|32|64)$','',v),0)
        except: pass
spec['pe/windows-sys']={n:w[n] for n in names['pe'] if n in w}
w={}
for f in glob.glob('/root/.cargo/registry/src/*/libc-0.2.189/src/**/apple/**/*.rs',recursive=True):
    for n,v in re.findall(r'pub const (\w+): \w+ = (0x[0-9a-fA-F_]+|\d+);',open(f).read()): w[n]=int(v.replace('_',''),0)
spec['macho/libc']={n:w[n] for n in names['macho'] if n in w}
json.dump(spec,open('spec.json','w'))
for k,v in spec.items(): print(k,len(v),'of',len(names[k.split('/')[0]]))
