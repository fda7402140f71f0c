"""Writes units/colours.vx from witness/core/data/colors.txt."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
L = [l.split() for l in open(D + "/witness/core/data/colors.txt") if l.strip()]
L.sort(key=lambda l: '"' + l[0] + '"@')
o = ["// The named colours: a frozen copy of the table (witness/core/data/colors.txt). Generated by tools/mkcolours.py.",
     "pub open spec fn named_colour(k: Seq<char>) -> Option<(u8, u8, u8)> {"]
o += [f'    if k == "{n}"@ {{ Some(({r}u8, {g}u8, {b}u8)) }} else' for n, r, g, b in L]
o += ["    { None }", "}"]
open(D + "/units/colours.vx", "w").write("\n".join(o) + "\n")
