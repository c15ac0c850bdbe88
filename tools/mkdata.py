#!/usr/bin/env python3
"""One-off generator of sim/data (workload seeds only, no oracle): signature byte patterns and packed fixtures.
The results are committed; checks do not run this."""
import re,os,struct,ast
src=open('/repo/src/signatures.rs').read()
src=re.sub(r'^\s*//.*$','',src,flags=re.M)
toks=re.findall(r'(format|value|offset)\s*=\s*(b"(?:\\.|[^"\\])*"|\w+)|(,)',src)
def unq(s):
    s=re.sub(r'\\0',r'\\x00',s)
    return ast.literal_eval(s)
out=[];cur=None;pieces=None;fmt=None
lines=[]
def flush():
    global pieces
    if pieces: lines.append((fmt,pieces))
    pieces=None
# walk manually
pos=0
pat=re.compile(r'format\s*=\s*(\w+)|value\s*=\s*|(b"(?:\\.|[^"\\])*")|offset\s*=\s*(\w+)',re.S)
for m in pat.finditer(src):
    t=m.group(0)
    if t.startswith('format'):
        flush(); fmt=m.group(1)
    elif t.startswith('value'):
        flush(); pieces=[]
    elif m.group(2):
        pieces.append([0,unq(m.group(2))])
    else:
        pieces[-1][0]=int(m.group(3),0)
flush()
with open('/verif/sim/data/signatures.txt','w') as f:
    for fm,ps in lines:
        f.write(fm+' '+' '.join('%d:%s'%(o,b.hex()) for o,b in ps)+'\n')
print(len(lines),'signatures', len(set(l[0] for l in lines)))
files=[]
for d,_,fs in sorted(os.walk('/repo/fixtures')):
    for n in sorted(fs):
        files.append(os.path.join(d,n))
with open('/verif/sim/data/fixtures.bin','wb') as f:
    f.write(struct.pack('<I',len(files)))
    for p in files:
        n=os.path.relpath(p,'/repo/fixtures').encode(); b=open(p,'rb').read()
        f.write(struct.pack('<II',len(n),len(b))+n+b)
print(len(files))

# The literals of the present tree; others are tried more often by the simulator.
import sys
sys.path.insert(0,'/verif/tools')
import lib
with open('/verif/sim/data/literals.txt','w',encoding='utf-8') as f:
    f.write('\n'.join(sorted(lib.literals())))
with open('/verif/sim/data/lines.txt','w') as f:
    f.write('\n'.join(sorted({lib.line_id(l) for _, ls in lib.sources() for l in ls if l.strip()})) + '\n')
