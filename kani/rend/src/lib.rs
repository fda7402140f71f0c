//! Proofs over the whole domain with Kani: every loop is unrolled to its end (unwinding assertions on).
//! `negated` is the one contract the Verus unit c03_symbols assumes about the repository's own code.
#![cfg(kani)]
use math_core_renderer_internal::super_char::{OverlayChar, SuperChar};

/// Canonical compositions with U+0338 (UnicodeData.txt); a character that is already one stands for itself.
fn negated(c: u32) -> Option<u32> {
    match c {
        0x2190 => Some(0x219A),
        0x2192 => Some(0x219B),
        0x2194 => Some(0x21AE),
        0x21D0 => Some(0x21CD),
        0x21D4 => Some(0x21CE),
        0x21D2 => Some(0x21CF),
        0x2203 => Some(0x2204),
        0x2208 => Some(0x2209),
        0x220B => Some(0x220C),
        0x2223 => Some(0x2224),
        0x2225 => Some(0x2226),
        0x223C => Some(0x2241),
        0x2243 => Some(0x2244),
        0x2245 => Some(0x2247),
        0x2248 => Some(0x2249),
        0x003D => Some(0x2260),
        0x2261 => Some(0x2262),
        0x224D => Some(0x226D),
        0x003C => Some(0x226E),
        0x003E => Some(0x226F),
        0x2264 => Some(0x2270),
        0x2265 => Some(0x2271),
        0x2272 => Some(0x2274),
        0x2273 => Some(0x2275),
        0x2276 => Some(0x2278),
        0x2277 => Some(0x2279),
        0x227A => Some(0x2280),
        0x227B => Some(0x2281),
        0x2282 => Some(0x2284),
        0x2283 => Some(0x2285),
        0x2286 => Some(0x2288),
        0x2287 => Some(0x2289),
        0x22A2 => Some(0x22AC),
        0x22A8 => Some(0x22AD),
        0x22A9 => Some(0x22AE),
        0x22AB => Some(0x22AF),
        0x227C => Some(0x22E0),
        0x227D => Some(0x22E1),
        0x2291 => Some(0x22E2),
        0x2292 => Some(0x22E3),
        0x22B2 => Some(0x22EA),
        0x22B3 => Some(0x22EB),
        0x22B4 => Some(0x22EC),
        0x22B5 => Some(0x22ED),
        0x219A|0x219B|0x21AE|0x21CD|0x21CE|0x21CF|0x2204|0x2209|0x220C|0x2224|0x2226|0x2241|0x2244|0x2247|0x2249|0x2260|0x2262|0x226D|0x226E|0x226F|0x2270|0x2271|0x2274|0x2275|0x2278|0x2279|0x2280|0x2281|0x2284|0x2285|0x2288|0x2289|0x22AC|0x22AD|0x22AE|0x22AF|0x22E0|0x22E1|0x22E2|0x22E3|0x22EA|0x22EB|0x22EC|0x22ED => Some(c),
        _ => None,
    }
}

#[kani::proof]
#[kani::unwind(9)]
fn negation_is_canonical_composition() {
    let c: char = kani::any();
    let s = SuperChar::from_char(c).with_overlay(OverlayChar::Solidus);
    match negated(c as u32) {
        Some(n) => assert!(s.try_as_char().is_some_and(|x| x as u32 == n)),
        None => assert!(s.base_char() == c && s.try_as_char().is_none()),
    }
}
