// Generated by tools/mkalpha.py from the Unicode character database (compatibility decompositions): the counterpart of
// a code point in each alphabet. A run a..=b with first counterpart m maps a + i to m + i.
pub open spec fn alpha_bold(c: u32) -> Option<u32> {
    if 0x30 <= c <= 0x39 { Some((c - 0x30 + 0x1D7CE) as u32) } else
    if 0x41 <= c <= 0x5A { Some((c - 0x41 + 0x1D400) as u32) } else
    if 0x61 <= c <= 0x7A { Some((c - 0x61 + 0x1D41A) as u32) } else
    if 0x391 <= c <= 0x3A1 { Some((c - 0x391 + 0x1D6A8) as u32) } else
    if 0x3A3 <= c <= 0x3A9 { Some((c - 0x3A3 + 0x1D6BA) as u32) } else
    if 0x3B1 <= c <= 0x3C9 { Some((c - 0x3B1 + 0x1D6C2) as u32) } else
    if 0x3D1 <= c <= 0x3D1 { Some((c - 0x3D1 + 0x1D6DD) as u32) } else
    if 0x3D5 <= c <= 0x3D5 { Some((c - 0x3D5 + 0x1D6DF) as u32) } else
    if 0x3D6 <= c <= 0x3D6 { Some((c - 0x3D6 + 0x1D6E1) as u32) } else
    if 0x3DC <= c <= 0x3DD { Some((c - 0x3DC + 0x1D7CA) as u32) } else
    if 0x3F0 <= c <= 0x3F0 { Some((c - 0x3F0 + 0x1D6DE) as u32) } else
    if 0x3F1 <= c <= 0x3F1 { Some((c - 0x3F1 + 0x1D6E0) as u32) } else
    if 0x3F4 <= c <= 0x3F4 { Some((c - 0x3F4 + 0x1D6B9) as u32) } else
    if 0x3F5 <= c <= 0x3F5 { Some((c - 0x3F5 + 0x1D6DC) as u32) } else
    if 0x2202 <= c <= 0x2202 { Some((c - 0x2202 + 0x1D6DB) as u32) } else
    if 0x2207 <= c <= 0x2207 { Some((c - 0x2207 + 0x1D6C1) as u32) } else
    { None }
}
pub open spec fn alpha_boldfraktur(c: u32) -> Option<u32> {
    if 0x41 <= c <= 0x5A { Some((c - 0x41 + 0x1D56C) as u32) } else
    if 0x61 <= c <= 0x7A { Some((c - 0x61 + 0x1D586) as u32) } else
    { None }
}
pub open spec fn alpha_bolditalic(c: u32) -> Option<u32> {
    if 0x41 <= c <= 0x5A { Some((c - 0x41 + 0x1D468) as u32) } else
    if 0x61 <= c <= 0x7A { Some((c - 0x61 + 0x1D482) as u32) } else
    if 0x391 <= c <= 0x3A1 { Some((c - 0x391 + 0x1D71C) as u32) } else
    if 0x3A3 <= c <= 0x3A9 { Some((c - 0x3A3 + 0x1D72E) as u32) } else
    if 0x3B1 <= c <= 0x3C9 { Some((c - 0x3B1 + 0x1D736) as u32) } else
    if 0x3D1 <= c <= 0x3D1 { Some((c - 0x3D1 + 0x1D751) as u32) } else
    if 0x3D5 <= c <= 0x3D5 { Some((c - 0x3D5 + 0x1D753) as u32) } else
    if 0x3D6 <= c <= 0x3D6 { Some((c - 0x3D6 + 0x1D755) as u32) } else
    if 0x3F0 <= c <= 0x3F0 { Some((c - 0x3F0 + 0x1D752) as u32) } else
    if 0x3F1 <= c <= 0x3F1 { Some((c - 0x3F1 + 0x1D754) as u32) } else
    if 0x3F4 <= c <= 0x3F4 { Some((c - 0x3F4 + 0x1D72D) as u32) } else
    if 0x3F5 <= c <= 0x3F5 { Some((c - 0x3F5 + 0x1D750) as u32) } else
    if 0x2202 <= c <= 0x2202 { Some((c - 0x2202 + 0x1D74F) as u32) } else
    if 0x2207 <= c <= 0x2207 { Some((c - 0x2207 + 0x1D735) as u32) } else
    { None }
}
pub open spec fn alpha_boldsansserif(c: u32) -> Option<u32> {
    if 0x30 <= c <= 0x39 { Some((c - 0x30 + 0x1D7EC) as u32) } else
    if 0x41 <= c <= 0x5A { Some((c - 0x41 + 0x1D5D4) as u32) } else
    if 0x61 <= c <= 0x7A { Some((c - 0x61 + 0x1D5EE) as u32) } else
    if 0x391 <= c <= 0x3A1 { Some((c - 0x391 + 0x1D756) as u32) } else
    if 0x3A3 <= c <= 0x3A9 { Some((c - 0x3A3 + 0x1D768) as u32) } else
    if 0x3B1 <= c <= 0x3C9 { Some((c - 0x3B1 + 0x1D770) as u32) } else
    if 0x3D1 <= c <= 0x3D1 { Some((c - 0x3D1 + 0x1D78B) as u32) } else
    if 0x3D5 <= c <= 0x3D5 { Some((c - 0x3D5 + 0x1D78D) as u32) } else
    if 0x3D6 <= c <= 0x3D6 { Some((c - 0x3D6 + 0x1D78F) as u32) } else
    if 0x3F0 <= c <= 0x3F0 { Some((c - 0x3F0 + 0x1D78C) as u32) } else
    if 0x3F1 <= c <= 0x3F1 { Some((c - 0x3F1 + 0x1D78E) as u32) } else
    if 0x3F4 <= c <= 0x3F4 { Some((c - 0x3F4 + 0x1D767) as u32) } else
    if 0x3F5 <= c <= 0x3F5 { Some((c - 0x3F5 + 0x1D78A) as u32) } else
    if 0x2202 <= c <= 0x2202 { Some((c - 0x2202 + 0x1D789) as u32) } else
    if 0x2207 <= c <= 0x2207 { Some((c - 0x2207 + 0x1D76F) as u32) } else
    { None }
}
pub open spec fn alpha_boldscript(c: u32) -> Option<u32> {
    if 0x41 <= c <= 0x5A { Some((c - 0x41 + 0x1D4D0) as u32) } else
    if 0x61 <= c <= 0x7A { Some((c - 0x61 + 0x1D4EA) as u32) } else
    { None }
}
pub open spec fn alpha_doublestruck(c: u32) -> Option<u32> {
    if 0x30 <= c <= 0x39 { Some((c - 0x30 + 0x1D7D8) as u32) } else
    if 0x41 <= c <= 0x42 { Some((c - 0x41 + 0x1D538) as u32) } else
    if 0x43 <= c <= 0x43 { Some((c - 0x43 + 0x2102) as u32) } else
    if 0x44 <= c <= 0x47 { Some((c - 0x44 + 0x1D53B) as u32) } else
    if 0x48 <= c <= 0x48 { Some((c - 0x48 + 0x210D) as u32) } else
    if 0x49 <= c <= 0x4D { Some((c - 0x49 + 0x1D540) as u32) } else
    if 0x4E <= c <= 0x4E { Some((c - 0x4E + 0x2115) as u32) } else
    if 0x4F <= c <= 0x4F { Some((c - 0x4F + 0x1D546) as u32) } else
    if 0x50 <= c <= 0x51 { Some((c - 0x50 + 0x2119) as u32) } else
    if 0x52 <= c <= 0x52 { Some((c - 0x52 + 0x211D) as u32) } else
    if 0x53 <= c <= 0x59 { Some((c - 0x53 + 0x1D54A) as u32) } else
    if 0x5A <= c <= 0x5A { Some((c - 0x5A + 0x2124) as u32) } else
    if 0x61 <= c <= 0x7A { Some((c - 0x61 + 0x1D552) as u32) } else
    if 0x393 <= c <= 0x393 { Some((c - 0x393 + 0x213E) as u32) } else
    if 0x3A0 <= c <= 0x3A0 { Some((c - 0x3A0 + 0x213F) as u32) } else
    if 0x3B3 <= c <= 0x3B3 { Some((c - 0x3B3 + 0x213D) as u32) } else
    if 0x3C0 <= c <= 0x3C0 { Some((c - 0x3C0 + 0x213C) as u32) } else
    if 0x2211 <= c <= 0x2211 { Some((c - 0x2211 + 0x2140) as u32) } else
    { None }
}
pub open spec fn alpha_fraktur(c: u32) -> Option<u32> {
    if 0x41 <= c <= 0x42 { Some((c - 0x41 + 0x1D504) as u32) } else
    if 0x43 <= c <= 0x43 { Some((c - 0x43 + 0x212D) as u32) } else
    if 0x44 <= c <= 0x47 { Some((c - 0x44 + 0x1D507) as u32) } else
    if 0x48 <= c <= 0x48 { Some((c - 0x48 + 0x210C) as u32) } else
    if 0x49 <= c <= 0x49 { Some((c - 0x49 + 0x2111) as u32) } else
    if 0x4A <= c <= 0x51 { Some((c - 0x4A + 0x1D50D) as u32) } else
    if 0x52 <= c <= 0x52 { Some((c - 0x52 + 0x211C) as u32) } else
    if 0x53 <= c <= 0x59 { Some((c - 0x53 + 0x1D516) as u32) } else
    if 0x5A <= c <= 0x5A { Some((c - 0x5A + 0x2128) as u32) } else
    if 0x61 <= c <= 0x7A { Some((c - 0x61 + 0x1D51E) as u32) } else
    { None }
}
pub open spec fn alpha_italic(c: u32) -> Option<u32> {
    if 0x41 <= c <= 0x5A { Some((c - 0x41 + 0x1D434) as u32) } else
    if 0x61 <= c <= 0x67 { Some((c - 0x61 + 0x1D44E) as u32) } else
    if 0x68 <= c <= 0x68 { Some((c - 0x68 + 0x210E) as u32) } else
    if 0x69 <= c <= 0x7A { Some((c - 0x69 + 0x1D456) as u32) } else
    if 0x131 <= c <= 0x131 { Some((c - 0x131 + 0x1D6A4) as u32) } else
    if 0x237 <= c <= 0x237 { Some((c - 0x237 + 0x1D6A5) as u32) } else
    if 0x391 <= c <= 0x3A1 { Some((c - 0x391 + 0x1D6E2) as u32) } else
    if 0x3A3 <= c <= 0x3A9 { Some((c - 0x3A3 + 0x1D6F4) as u32) } else
    if 0x3B1 <= c <= 0x3C9 { Some((c - 0x3B1 + 0x1D6FC) as u32) } else
    if 0x3D1 <= c <= 0x3D1 { Some((c - 0x3D1 + 0x1D717) as u32) } else
    if 0x3D5 <= c <= 0x3D5 { Some((c - 0x3D5 + 0x1D719) as u32) } else
    if 0x3D6 <= c <= 0x3D6 { Some((c - 0x3D6 + 0x1D71B) as u32) } else
    if 0x3F0 <= c <= 0x3F0 { Some((c - 0x3F0 + 0x1D718) as u32) } else
    if 0x3F1 <= c <= 0x3F1 { Some((c - 0x3F1 + 0x1D71A) as u32) } else
    if 0x3F4 <= c <= 0x3F4 { Some((c - 0x3F4 + 0x1D6F3) as u32) } else
    if 0x3F5 <= c <= 0x3F5 { Some((c - 0x3F5 + 0x1D716) as u32) } else
    if 0x2202 <= c <= 0x2202 { Some((c - 0x2202 + 0x1D715) as u32) } else
    if 0x2207 <= c <= 0x2207 { Some((c - 0x2207 + 0x1D6FB) as u32) } else
    { None }
}
pub open spec fn alpha_monospace(c: u32) -> Option<u32> {
    if 0x30 <= c <= 0x39 { Some((c - 0x30 + 0x1D7F6) as u32) } else
    if 0x41 <= c <= 0x5A { Some((c - 0x41 + 0x1D670) as u32) } else
    if 0x61 <= c <= 0x7A { Some((c - 0x61 + 0x1D68A) as u32) } else
    { None }
}
pub open spec fn alpha_sansserif(c: u32) -> Option<u32> {
    if 0x30 <= c <= 0x39 { Some((c - 0x30 + 0x1D7E2) as u32) } else
    if 0x41 <= c <= 0x5A { Some((c - 0x41 + 0x1D5A0) as u32) } else
    if 0x61 <= c <= 0x7A { Some((c - 0x61 + 0x1D5BA) as u32) } else
    { None }
}
pub open spec fn alpha_sansserifbolditalic(c: u32) -> Option<u32> {
    if 0x41 <= c <= 0x5A { Some((c - 0x41 + 0x1D63C) as u32) } else
    if 0x61 <= c <= 0x7A { Some((c - 0x61 + 0x1D656) as u32) } else
    if 0x391 <= c <= 0x3A1 { Some((c - 0x391 + 0x1D790) as u32) } else
    if 0x3A3 <= c <= 0x3A9 { Some((c - 0x3A3 + 0x1D7A2) as u32) } else
    if 0x3B1 <= c <= 0x3C9 { Some((c - 0x3B1 + 0x1D7AA) as u32) } else
    if 0x3D1 <= c <= 0x3D1 { Some((c - 0x3D1 + 0x1D7C5) as u32) } else
    if 0x3D5 <= c <= 0x3D5 { Some((c - 0x3D5 + 0x1D7C7) as u32) } else
    if 0x3D6 <= c <= 0x3D6 { Some((c - 0x3D6 + 0x1D7C9) as u32) } else
    if 0x3F0 <= c <= 0x3F0 { Some((c - 0x3F0 + 0x1D7C6) as u32) } else
    if 0x3F1 <= c <= 0x3F1 { Some((c - 0x3F1 + 0x1D7C8) as u32) } else
    if 0x3F4 <= c <= 0x3F4 { Some((c - 0x3F4 + 0x1D7A1) as u32) } else
    if 0x3F5 <= c <= 0x3F5 { Some((c - 0x3F5 + 0x1D7C4) as u32) } else
    if 0x2202 <= c <= 0x2202 { Some((c - 0x2202 + 0x1D7C3) as u32) } else
    if 0x2207 <= c <= 0x2207 { Some((c - 0x2207 + 0x1D7A9) as u32) } else
    { None }
}
pub open spec fn alpha_sansserifitalic(c: u32) -> Option<u32> {
    if 0x41 <= c <= 0x5A { Some((c - 0x41 + 0x1D608) as u32) } else
    if 0x61 <= c <= 0x7A { Some((c - 0x61 + 0x1D622) as u32) } else
    { None }
}
pub open spec fn alpha_script(c: u32) -> Option<u32> {
    if 0x41 <= c <= 0x41 { Some((c - 0x41 + 0x1D49C) as u32) } else
    if 0x42 <= c <= 0x42 { Some((c - 0x42 + 0x212C) as u32) } else
    if 0x43 <= c <= 0x44 { Some((c - 0x43 + 0x1D49E) as u32) } else
    if 0x45 <= c <= 0x46 { Some((c - 0x45 + 0x2130) as u32) } else
    if 0x47 <= c <= 0x47 { Some((c - 0x47 + 0x1D4A2) as u32) } else
    if 0x48 <= c <= 0x48 { Some((c - 0x48 + 0x210B) as u32) } else
    if 0x49 <= c <= 0x49 { Some((c - 0x49 + 0x2110) as u32) } else
    if 0x4A <= c <= 0x4B { Some((c - 0x4A + 0x1D4A5) as u32) } else
    if 0x4C <= c <= 0x4C { Some((c - 0x4C + 0x2112) as u32) } else
    if 0x4D <= c <= 0x4D { Some((c - 0x4D + 0x2133) as u32) } else
    if 0x4E <= c <= 0x51 { Some((c - 0x4E + 0x1D4A9) as u32) } else
    if 0x52 <= c <= 0x52 { Some((c - 0x52 + 0x211B) as u32) } else
    if 0x53 <= c <= 0x5A { Some((c - 0x53 + 0x1D4AE) as u32) } else
    if 0x61 <= c <= 0x64 { Some((c - 0x61 + 0x1D4B6) as u32) } else
    if 0x65 <= c <= 0x65 { Some((c - 0x65 + 0x212F) as u32) } else
    if 0x66 <= c <= 0x66 { Some((c - 0x66 + 0x1D4BB) as u32) } else
    if 0x67 <= c <= 0x67 { Some((c - 0x67 + 0x210A) as u32) } else
    if 0x68 <= c <= 0x6E { Some((c - 0x68 + 0x1D4BD) as u32) } else
    if 0x6F <= c <= 0x6F { Some((c - 0x6F + 0x2134) as u32) } else
    if 0x70 <= c <= 0x7A { Some((c - 0x70 + 0x1D4C5) as u32) } else
    { None }
}
