"""Unicode data for the oracles of C03 and C04, from Python's unicodedata (independent of the code under test)."""
import unicodedata as u, sys, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# C03: pairs (base, precomposed) for the long solidus overlay, canonical composition
out = []
for c in range(0x110000):
    ch = chr(c)
    d = u.decomposition(ch)
    if d and not d.startswith("<") and d.split()[1:] == ["0338"]:
        b = chr(int(d.split()[0], 16))
        if u.normalize("NFC", b + "\u0338") == ch:
            out.append((ord(b), c))
        else:
            print("composition-excluded: %04X %04X" % (ord(b), c), file=sys.stderr)
txt = "".join("%04X %04X\n" % p for p in out)
for d in ("witness/rend/data/negated.txt", "witness/core/data/negated.txt"):
    open(os.path.join(V, d), "w").write(txt)
# C04
PRE = [("SANS-SERIF BOLD ITALIC ", "SansSerifBoldItalic"), ("SANS-SERIF BOLD ", "BoldSansSerif"), ("SANS-SERIF ITALIC ", "SansSerifItalic"), ("SANS-SERIF ", "SansSerif"),
       ("BOLD ITALIC ", "BoldItalic"), ("BOLD SCRIPT ", "BoldScript"), ("BOLD FRAKTUR ", "BoldFraktur"), ("BOLD ", "Bold"), ("ITALIC ", "Italic"), ("SCRIPT ", "Script"),
       ("FRAKTUR ", "Fraktur"), ("DOUBLE-STRUCK ", "DoubleStruck"), ("MONOSPACE ", "Monospace")]
res = {}
for c in range(0x110000):
    ch = chr(c)
    d = u.decomposition(ch)
    if not d.startswith("<font>"): continue
    name = u.name(ch, "")
    base = d.split()[1:]
    if len(base) != 1: print("multi", name, file=sys.stderr); continue
    t = None
    if name.startswith("MATHEMATICAL "):
        rest = name[len("MATHEMATICAL "):]
        for p, tt in PRE:
            if rest.startswith(p): t = tt; break
    elif name.startswith("DOUBLE-STRUCK ITALIC"): t = None
    elif name.startswith("DOUBLE-STRUCK "): t = "DoubleStruck"
    elif name.startswith("BLACK-LETTER "): t = "Fraktur"
    elif name.startswith("SCRIPT "): t = "Script"
    elif name == "PLANCK CONSTANT": t = "Italic"
    elif "SCRIPT" in name: print("??", name, file=sys.stderr)
    if t is None:
        print("no alphabet: %04X %s" % (c, name), file=sys.stderr) if not name.startswith("ARABIC") else None
        continue
    if (t, base[0]) in res and name.startswith('MATHEMATICAL '): res[(t, base[0])] = c; continue
    if (t, base[0]) in res: print("dup", t, base, hex(c), hex(res[(t, base[0])]), name, file=sys.stderr); continue
    res[(t, base[0])] = c
txt = "".join("%s %s %04X\n" % (t, b, c) for (t, b), c in sorted(res.items()))
for d in ("witness/rend/data/alphabets.txt", "witness/core/data/alphabets.txt"):
    open(os.path.join(V, d), "w").write(txt)
print(len(out), len(res))
