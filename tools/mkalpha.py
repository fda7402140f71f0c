"""Writes units/alphabets.vx from witness/rend/data/alphabets.txt (Unicode's compatibility decompositions)."""
import os
D=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
t={}
for l in open(D+'/witness/rend/data/alphabets.txt'):
    n,a,b=l.split(); t.setdefault(n,[]).append((int(a,16),int(b,16)))
o=["// Generated by tools/mkalpha.py from the Unicode character database (compatibility decompositions): the counterpart of",
   "// a code point in each alphabet. A run a..=b with first counterpart m maps a + i to m + i."]
for n in sorted(t):
    runs=[]
    for a,b in sorted(t[n]):
        if runs and runs[-1][1]+1==a and runs[-1][2]+(a-runs[-1][0])==b: runs[-1][1]=a
        else: runs.append([a,a,b])
    o.append(f"pub open spec fn alpha_{n.lower()}(c: u32) -> Option<u32> {{")
    s="    "
    for a,z,m in runs:
        o.append(f"    if 0x{a:X} <= c <= 0x{z:X} {{ Some((c - 0x{a:X} + 0x{m:X}) as u32) }} else")
    o.append("    { None }"); o.append("}")
open(D+'/units/alphabets.vx','w').write("\n".join(o)+"\n")
