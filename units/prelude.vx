#![allow(unused, non_camel_case_types, non_snake_case, unreachable_code)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::slice::*;
use std::ops::Range;
use core::num::NonZeroU8;

verus! {

// ---------------------------------------------------------------------------------------------
// Trusted stand-ins: std, memchr and formatting functions that Verus has no specification for.
// Every `external_body` / `assume_specification` below is part of the trusted base and is listed
// in the evidence file by name.
// ---------------------------------------------------------------------------------------------

pub open spec fn sbytes(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }

/// `unreachable!()`, `panic!()`: the call must be unreachable.
#[verifier::external_body]
pub fn vx_unreachable() -> !
    requires false
{ unreachable!() }

/// `assert!(b)`
pub fn vx_assert(b: bool)
    requires b
{ }

/// Types whose `Display` output is known.
pub trait VxDisp {
    spec fn vx_text(&self) -> Seq<char>;
}
impl VxDisp for str { open spec fn vx_text(&self) -> Seq<char> { self@ } }
impl<'a> VxDisp for &'a str { open spec fn vx_text(&self) -> Seq<char> { (*self)@ } }
impl VxDisp for String { open spec fn vx_text(&self) -> Seq<char> { self@ } }
impl VxDisp for char { open spec fn vx_text(&self) -> Seq<char> { seq![*self] } }
impl VxDisp for usize { open spec fn vx_text(&self) -> Seq<char> { decimal(*self as nat) } }
/// decimal numeral
pub open spec fn digit(d: nat) -> char { ((48 + d % 10) as u8) as char }
pub open spec fn decimal(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit(n)] } else { decimal(n / 10) + seq![digit(n % 10)] }
}
/// The pieces of a `write!` format string, in order.
pub trait VxWrite {
    spec fn vx_out(&self) -> Seq<char>;
    fn vx_lit(&mut self, s: &str) ensures final(self).vx_out() == old(self).vx_out() + s@;
    fn vx_disp<T: VxDisp>(&mut self, x: &T) ensures final(self).vx_out() == old(self).vx_out() + x.vx_text();
}
impl VxWrite for String {
    open spec fn vx_out(&self) -> Seq<char> { self@ }
    fn vx_lit(&mut self, s: &str) { self.push_str(s); }
    #[verifier::external_body]
    fn vx_disp<T: VxDisp>(&mut self, x: &T) { unimplemented!() }
}
pub struct FmtError;


// ---- str helpers ---------------------------------------------------------------------------------
/// `str` values are at most `isize::MAX` bytes long.
#[verifier::external_body]
pub broadcast proof fn axiom_str_len(s: &str)
    ensures #[trigger] sbytes(s@).len() <= isize::MAX
{ }

pub open spec fn is_bound(s: Seq<char>, i: int) -> bool { vstd::utf8::is_char_boundary(sbytes(s), i) }

pub assume_specification[ str::floor_char_boundary ](s: &str, i: usize) -> (r: usize)
    ensures r <= i, r <= sbytes(s@).len(), is_bound(s@, r as int),
        forall|j: int| r < j <= i && j <= sbytes(s@).len() ==> !is_bound(s@, j);

/// The part of a string between two byte positions; slicing panics unless this holds.
pub open spec fn range_ok(s: Seq<char>, a: int, b: int) -> bool { 0 <= a <= b <= sbytes(s).len() && is_bound(s, a) && is_bound(s, b) }
pub trait VxStrExt {
    spec fn vx_v(&self) -> Seq<char>;
    fn vx_chars_count(&self) -> (r: usize) ensures r == self.vx_v().len();
    fn vx_range(&self, a: usize, b: usize) -> (r: &str)
        requires range_ok(self.vx_v(), a as int, b as int)
        ensures sbytes(r@) == sbytes(self.vx_v()).subrange(a as int, b as int);
    fn vx_range_to(&self, b: usize) -> (r: &str)
        requires range_ok(self.vx_v(), 0, b as int)
        ensures sbytes(r@) == sbytes(self.vx_v()).take(b as int);
    fn vx_range_from(&self, a: usize) -> (r: &str)
        requires range_ok(self.vx_v(), a as int, sbytes(self.vx_v()).len() as int)
        ensures sbytes(r@) == sbytes(self.vx_v()).skip(a as int);
}
impl VxStrExt for str {
    open spec fn vx_v(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_chars_count(&self) -> (r: usize) { self.chars().count() }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body]
    fn vx_range_to(&self, b: usize) -> (r: &str) { &self[..b] }
    #[verifier::external_body]
    fn vx_range_from(&self, a: usize) -> (r: &str) { &self[a..] }
}
/// The same for byte slices.
pub trait VxSliceExt {
    spec fn vx_b(&self) -> Seq<u8>;
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8])
        requires a <= b <= self.vx_b().len()
        ensures r@ == self.vx_b().subrange(a as int, b as int);
    fn vx_range_to(&self, b: usize) -> (r: &[u8])
        requires b <= self.vx_b().len()
        ensures r@ == self.vx_b().take(b as int);
    fn vx_range_from(&self, a: usize) -> (r: &[u8])
        requires a <= self.vx_b().len()
        ensures r@ == self.vx_b().skip(a as int);
}
impl VxSliceExt for [u8] {
    open spec fn vx_b(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
    #[verifier::external_body]
    fn vx_range_to(&self, b: usize) -> (r: &[u8]) { &self[..b] }
    #[verifier::external_body]
    fn vx_range_from(&self, a: usize) -> (r: &[u8]) { &self[a..] }
}
