// ---------------------------------------------------------------------------------------------
// Floating-point arithmetic: every operation is a function of its operands (uninterpreted).
// ---------------------------------------------------------------------------------------------
pub open spec fn fmul(a: f32, b: f32) -> f32 { <f32 as vstd::std_specs::ops::MulSpec<f32>>::mul_spec(a, b) }
pub open spec fn fadd(a: f32, b: f32) -> f32 { <f32 as vstd::std_specs::ops::AddSpec<f32>>::add_spec(a, b) }
pub open spec fn fmul64(a: f64, b: f64) -> f64 { <f64 as vstd::std_specs::ops::MulSpec<f64>>::mul_spec(a, b) }
pub open spec fn fdiv(a: f64, b: f64) -> f64 { <f64 as vstd::std_specs::ops::DivSpec<f64>>::div_spec(a, b) }
#[verifier::external_body]
pub broadcast proof fn axiom_mul32(a: f32, b: f32) ensures <f32 as vstd::std_specs::ops::MulSpec<f32>>::obeys_mul_spec(), #[trigger] <f32 as vstd::std_specs::ops::MulSpec<f32>>::mul_req(a, b) { }
#[verifier::external_body]
pub broadcast proof fn axiom_add32(a: f32, b: f32) ensures <f32 as vstd::std_specs::ops::AddSpec<f32>>::obeys_add_spec(), #[trigger] <f32 as vstd::std_specs::ops::AddSpec<f32>>::add_req(a, b) { }
#[verifier::external_body]
pub broadcast proof fn axiom_mul64(a: f64, b: f64) ensures <f64 as vstd::std_specs::ops::MulSpec<f64>>::obeys_mul_spec(), #[trigger] <f64 as vstd::std_specs::ops::MulSpec<f64>>::mul_req(a, b) { }
#[verifier::external_body]
pub broadcast proof fn axiom_div64(a: f64, b: f64) ensures <f64 as vstd::std_specs::ops::DivSpec<f64>>::obeys_div_spec(), #[trigger] <f64 as vstd::std_specs::ops::DivSpec<f64>>::div_req(a, b) { }
/// ten to the power `n`, as the code computes it
pub open spec fn pow10(n: nat) -> f64 decreases n { if n == 0 { 1.0f64 } else { fmul64(pow10((n - 1) as nat), 10.0f64) } }
pub uninterp spec fn widen(m: u64) -> f64;
pub uninterp spec fn narrow(x: f64) -> f32;
pub uninterp spec fn fneg(x: f32) -> f32;
/// `m as f64`, `x as f32`, `-x`
#[verifier::external_body]
pub fn vx_widen(m: u64) -> (r: f64) ensures r == widen(m) { m as f64 }
#[verifier::external_body]
pub fn vx_narrow(x: f64) -> (r: f32) ensures r == narrow(x) { x as f32 }
#[verifier::external_body]
pub fn vx_neg(x: f32) -> (r: f32) ensures r == fneg(x) { -x }
