// num_bigint::BigInt: opaque, with mathematical value `x@`.  Contracts of the
// num-bigint-dig operations are ASSUMED (trusted dependency).
#[verifier::external_body]
pub struct BigInt { x: u64 }
impl View for BigInt { type V = int; uninterp spec fn view(&self) -> int; }
// BigInt is kept in canonical form, so equal value means equal object
#[verifier::external_body]
pub broadcast proof fn axiom_bigint_ext(a: BigInt, b: BigInt)
    ensures (#[trigger] a@ == #[trigger] b@) ==> a == b { unimplemented!() }
pub enum Sign { Minus, NoSign, Plus }
// truncated division of num-bigint
pub open spec fn tdiv(a: int, b: int) -> int {
    if b == 0 { arbitrary() } else if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } }
    else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } }
}
pub open spec fn trem(a: int, b: int) -> int { a - tdiv(a, b) * b }
// bitwise operations on naturals (num-bigint semantics on non-negative operands)
pub open spec fn nat_and(a: int, b: int) -> int decreases a when a >= 0 {
    if a == 0 || b <= 0 { 0 } else { 2 * nat_and(a / 2, b / 2) + (if a % 2 == 1 && b % 2 == 1 { 1int } else { 0int }) }
}
pub open spec fn nat_or(a: int, b: int) -> int decreases a + b when a >= 0 && b >= 0 {
    if a == 0 && b == 0 { 0 } else { 2 * nat_or(a / 2, b / 2) + (if a % 2 == 1 || b % 2 == 1 { 1int } else { 0int }) }
}
pub open spec fn nat_xor(a: int, b: int) -> int decreases a + b when a >= 0 && b >= 0 {
    if a == 0 && b == 0 { 0 } else { 2 * nat_xor(a / 2, b / 2) + (if a % 2 != b % 2 { 1int } else { 0int }) }
}
pub trait VInt { spec fn iv(self) -> int; }
impl VInt for BigInt { open spec fn iv(self) -> int { self@ } }
impl<'a> VInt for &'a BigInt { open spec fn iv(self) -> int { self@ } }
impl VInt for i32 { open spec fn iv(self) -> int { self as int } }
impl VInt for usize { open spec fn iv(self) -> int { self as int } }

impl VAdd<BigInt> for BigInt { type Out = BigInt;
    open spec fn vadd_req(self, r: BigInt) -> bool { true }
    open spec fn vadd_ens(self, r: BigInt, o: BigInt) -> bool { o@ == self.iv() + r.iv() }
    #[verifier::external_body] fn vadd(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'b> VAdd<&'b BigInt> for BigInt { type Out = BigInt;
    open spec fn vadd_req(self, r: &'b BigInt) -> bool { true }
    open spec fn vadd_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == self.iv() + r.iv() }
    #[verifier::external_body] fn vadd(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl VAdd<i32> for BigInt { type Out = BigInt;
    open spec fn vadd_req(self, r: i32) -> bool { true }
    open spec fn vadd_ens(self, r: i32, o: BigInt) -> bool { o@ == self.iv() + r.iv() }
    #[verifier::external_body] fn vadd(self, r: i32) -> (o: BigInt) { unimplemented!() } }
impl<'a> VAdd<BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vadd_req(self, r: BigInt) -> bool { true }
    open spec fn vadd_ens(self, r: BigInt, o: BigInt) -> bool { o@ == self.iv() + r.iv() }
    #[verifier::external_body] fn vadd(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a, 'b> VAdd<&'b BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vadd_req(self, r: &'b BigInt) -> bool { true }
    open spec fn vadd_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == self.iv() + r.iv() }
    #[verifier::external_body] fn vadd(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a> VAdd<i32> for &'a BigInt { type Out = BigInt;
    open spec fn vadd_req(self, r: i32) -> bool { true }
    open spec fn vadd_ens(self, r: i32, o: BigInt) -> bool { o@ == self.iv() + r.iv() }
    #[verifier::external_body] fn vadd(self, r: i32) -> (o: BigInt) { unimplemented!() } }
impl VSub<BigInt> for BigInt { type Out = BigInt;
    open spec fn vsub_req(self, r: BigInt) -> bool { true }
    open spec fn vsub_ens(self, r: BigInt, o: BigInt) -> bool { o@ == self.iv() - r.iv() }
    #[verifier::external_body] fn vsub(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'b> VSub<&'b BigInt> for BigInt { type Out = BigInt;
    open spec fn vsub_req(self, r: &'b BigInt) -> bool { true }
    open spec fn vsub_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == self.iv() - r.iv() }
    #[verifier::external_body] fn vsub(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl VSub<i32> for BigInt { type Out = BigInt;
    open spec fn vsub_req(self, r: i32) -> bool { true }
    open spec fn vsub_ens(self, r: i32, o: BigInt) -> bool { o@ == self.iv() - r.iv() }
    #[verifier::external_body] fn vsub(self, r: i32) -> (o: BigInt) { unimplemented!() } }
impl<'a> VSub<BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vsub_req(self, r: BigInt) -> bool { true }
    open spec fn vsub_ens(self, r: BigInt, o: BigInt) -> bool { o@ == self.iv() - r.iv() }
    #[verifier::external_body] fn vsub(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a, 'b> VSub<&'b BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vsub_req(self, r: &'b BigInt) -> bool { true }
    open spec fn vsub_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == self.iv() - r.iv() }
    #[verifier::external_body] fn vsub(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a> VSub<i32> for &'a BigInt { type Out = BigInt;
    open spec fn vsub_req(self, r: i32) -> bool { true }
    open spec fn vsub_ens(self, r: i32, o: BigInt) -> bool { o@ == self.iv() - r.iv() }
    #[verifier::external_body] fn vsub(self, r: i32) -> (o: BigInt) { unimplemented!() } }
impl VMul<BigInt> for BigInt { type Out = BigInt;
    open spec fn vmul_req(self, r: BigInt) -> bool { true }
    open spec fn vmul_ens(self, r: BigInt, o: BigInt) -> bool { o@ == self.iv() * r.iv() }
    #[verifier::external_body] fn vmul(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'b> VMul<&'b BigInt> for BigInt { type Out = BigInt;
    open spec fn vmul_req(self, r: &'b BigInt) -> bool { true }
    open spec fn vmul_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == self.iv() * r.iv() }
    #[verifier::external_body] fn vmul(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl VMul<i32> for BigInt { type Out = BigInt;
    open spec fn vmul_req(self, r: i32) -> bool { true }
    open spec fn vmul_ens(self, r: i32, o: BigInt) -> bool { o@ == self.iv() * r.iv() }
    #[verifier::external_body] fn vmul(self, r: i32) -> (o: BigInt) { unimplemented!() } }
impl<'a> VMul<BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vmul_req(self, r: BigInt) -> bool { true }
    open spec fn vmul_ens(self, r: BigInt, o: BigInt) -> bool { o@ == self.iv() * r.iv() }
    #[verifier::external_body] fn vmul(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a, 'b> VMul<&'b BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vmul_req(self, r: &'b BigInt) -> bool { true }
    open spec fn vmul_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == self.iv() * r.iv() }
    #[verifier::external_body] fn vmul(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a> VMul<i32> for &'a BigInt { type Out = BigInt;
    open spec fn vmul_req(self, r: i32) -> bool { true }
    open spec fn vmul_ens(self, r: i32, o: BigInt) -> bool { o@ == self.iv() * r.iv() }
    #[verifier::external_body] fn vmul(self, r: i32) -> (o: BigInt) { unimplemented!() } }
impl VDiv<BigInt> for BigInt { type Out = BigInt;
    open spec fn vdiv_req(self, r: BigInt) -> bool { r.iv() != 0 }
    open spec fn vdiv_ens(self, r: BigInt, o: BigInt) -> bool { o@ == tdiv(self.iv(), r.iv()) }
    #[verifier::external_body] fn vdiv(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'b> VDiv<&'b BigInt> for BigInt { type Out = BigInt;
    open spec fn vdiv_req(self, r: &'b BigInt) -> bool { r.iv() != 0 }
    open spec fn vdiv_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == tdiv(self.iv(), r.iv()) }
    #[verifier::external_body] fn vdiv(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl VDiv<i32> for BigInt { type Out = BigInt;
    open spec fn vdiv_req(self, r: i32) -> bool { r.iv() != 0 }
    open spec fn vdiv_ens(self, r: i32, o: BigInt) -> bool { o@ == tdiv(self.iv(), r.iv()) }
    #[verifier::external_body] fn vdiv(self, r: i32) -> (o: BigInt) { unimplemented!() } }
impl<'a> VDiv<BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vdiv_req(self, r: BigInt) -> bool { r.iv() != 0 }
    open spec fn vdiv_ens(self, r: BigInt, o: BigInt) -> bool { o@ == tdiv(self.iv(), r.iv()) }
    #[verifier::external_body] fn vdiv(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a, 'b> VDiv<&'b BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vdiv_req(self, r: &'b BigInt) -> bool { r.iv() != 0 }
    open spec fn vdiv_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == tdiv(self.iv(), r.iv()) }
    #[verifier::external_body] fn vdiv(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a> VDiv<i32> for &'a BigInt { type Out = BigInt;
    open spec fn vdiv_req(self, r: i32) -> bool { r.iv() != 0 }
    open spec fn vdiv_ens(self, r: i32, o: BigInt) -> bool { o@ == tdiv(self.iv(), r.iv()) }
    #[verifier::external_body] fn vdiv(self, r: i32) -> (o: BigInt) { unimplemented!() } }
impl<'b> VRem<&'b BigInt> for i32 { type Out = BigInt;
    open spec fn vrem_req(self, r: &'b BigInt) -> bool { r.iv() != 0 }
    open spec fn vrem_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == trem(self.iv(), r.iv()) }
    #[verifier::external_body] fn vrem(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl VRem<BigInt> for BigInt { type Out = BigInt;
    open spec fn vrem_req(self, r: BigInt) -> bool { r.iv() != 0 }
    open spec fn vrem_ens(self, r: BigInt, o: BigInt) -> bool { o@ == trem(self.iv(), r.iv()) }
    #[verifier::external_body] fn vrem(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'b> VRem<&'b BigInt> for BigInt { type Out = BigInt;
    open spec fn vrem_req(self, r: &'b BigInt) -> bool { r.iv() != 0 }
    open spec fn vrem_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == trem(self.iv(), r.iv()) }
    #[verifier::external_body] fn vrem(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl VRem<i32> for BigInt { type Out = BigInt;
    open spec fn vrem_req(self, r: i32) -> bool { r.iv() != 0 }
    open spec fn vrem_ens(self, r: i32, o: BigInt) -> bool { o@ == trem(self.iv(), r.iv()) }
    #[verifier::external_body] fn vrem(self, r: i32) -> (o: BigInt) { unimplemented!() } }
impl<'a> VRem<BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vrem_req(self, r: BigInt) -> bool { r.iv() != 0 }
    open spec fn vrem_ens(self, r: BigInt, o: BigInt) -> bool { o@ == trem(self.iv(), r.iv()) }
    #[verifier::external_body] fn vrem(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a, 'b> VRem<&'b BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vrem_req(self, r: &'b BigInt) -> bool { r.iv() != 0 }
    open spec fn vrem_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == trem(self.iv(), r.iv()) }
    #[verifier::external_body] fn vrem(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a> VRem<i32> for &'a BigInt { type Out = BigInt;
    open spec fn vrem_req(self, r: i32) -> bool { r.iv() != 0 }
    open spec fn vrem_ens(self, r: i32, o: BigInt) -> bool { o@ == trem(self.iv(), r.iv()) }
    #[verifier::external_body] fn vrem(self, r: i32) -> (o: BigInt) { unimplemented!() } }
impl VBitAnd<BigInt> for BigInt { type Out = BigInt;
    open spec fn vbitand_req(self, r: BigInt) -> bool { self.iv() >= 0 && r.iv() >= 0 }
    open spec fn vbitand_ens(self, r: BigInt, o: BigInt) -> bool { o@ == nat_and(self.iv(), r.iv()) }
    #[verifier::external_body] fn vbitand(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'b> VBitAnd<&'b BigInt> for BigInt { type Out = BigInt;
    open spec fn vbitand_req(self, r: &'b BigInt) -> bool { self.iv() >= 0 && r.iv() >= 0 }
    open spec fn vbitand_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == nat_and(self.iv(), r.iv()) }
    #[verifier::external_body] fn vbitand(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a> VBitAnd<BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vbitand_req(self, r: BigInt) -> bool { self.iv() >= 0 && r.iv() >= 0 }
    open spec fn vbitand_ens(self, r: BigInt, o: BigInt) -> bool { o@ == nat_and(self.iv(), r.iv()) }
    #[verifier::external_body] fn vbitand(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a, 'b> VBitAnd<&'b BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vbitand_req(self, r: &'b BigInt) -> bool { self.iv() >= 0 && r.iv() >= 0 }
    open spec fn vbitand_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == nat_and(self.iv(), r.iv()) }
    #[verifier::external_body] fn vbitand(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl VBitOr<BigInt> for BigInt { type Out = BigInt;
    open spec fn vbitor_req(self, r: BigInt) -> bool { self.iv() >= 0 && r.iv() >= 0 }
    open spec fn vbitor_ens(self, r: BigInt, o: BigInt) -> bool { o@ == nat_or(self.iv(), r.iv()) }
    #[verifier::external_body] fn vbitor(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'b> VBitOr<&'b BigInt> for BigInt { type Out = BigInt;
    open spec fn vbitor_req(self, r: &'b BigInt) -> bool { self.iv() >= 0 && r.iv() >= 0 }
    open spec fn vbitor_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == nat_or(self.iv(), r.iv()) }
    #[verifier::external_body] fn vbitor(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a> VBitOr<BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vbitor_req(self, r: BigInt) -> bool { self.iv() >= 0 && r.iv() >= 0 }
    open spec fn vbitor_ens(self, r: BigInt, o: BigInt) -> bool { o@ == nat_or(self.iv(), r.iv()) }
    #[verifier::external_body] fn vbitor(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a, 'b> VBitOr<&'b BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vbitor_req(self, r: &'b BigInt) -> bool { self.iv() >= 0 && r.iv() >= 0 }
    open spec fn vbitor_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == nat_or(self.iv(), r.iv()) }
    #[verifier::external_body] fn vbitor(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl VBitXor<BigInt> for BigInt { type Out = BigInt;
    open spec fn vbitxor_req(self, r: BigInt) -> bool { self.iv() >= 0 && r.iv() >= 0 }
    open spec fn vbitxor_ens(self, r: BigInt, o: BigInt) -> bool { o@ == nat_xor(self.iv(), r.iv()) }
    #[verifier::external_body] fn vbitxor(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'b> VBitXor<&'b BigInt> for BigInt { type Out = BigInt;
    open spec fn vbitxor_req(self, r: &'b BigInt) -> bool { self.iv() >= 0 && r.iv() >= 0 }
    open spec fn vbitxor_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == nat_xor(self.iv(), r.iv()) }
    #[verifier::external_body] fn vbitxor(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a> VBitXor<BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vbitxor_req(self, r: BigInt) -> bool { self.iv() >= 0 && r.iv() >= 0 }
    open spec fn vbitxor_ens(self, r: BigInt, o: BigInt) -> bool { o@ == nat_xor(self.iv(), r.iv()) }
    #[verifier::external_body] fn vbitxor(self, r: BigInt) -> (o: BigInt) { unimplemented!() } }
impl<'a, 'b> VBitXor<&'b BigInt> for &'a BigInt { type Out = BigInt;
    open spec fn vbitxor_req(self, r: &'b BigInt) -> bool { self.iv() >= 0 && r.iv() >= 0 }
    open spec fn vbitxor_ens(self, r: &'b BigInt, o: BigInt) -> bool { o@ == nat_xor(self.iv(), r.iv()) }
    #[verifier::external_body] fn vbitxor(self, r: &'b BigInt) -> (o: BigInt) { unimplemented!() } }
impl VEq<BigInt> for BigInt {
    open spec fn veq_spec(&self, o: &BigInt) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &BigInt) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vne(&self, o: &BigInt) -> (b: bool) { unimplemented!() } }
impl VOrd<BigInt> for BigInt {
    open spec fn vlt_spec(&self, o: &BigInt) -> bool { self@ < o@ }
    open spec fn vle_spec(&self, o: &BigInt) -> bool { self@ <= o@ }
    #[verifier::external_body] fn vlt(&self, o: &BigInt) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vle(&self, o: &BigInt) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vgt(&self, o: &BigInt) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vge(&self, o: &BigInt) -> (b: bool) { unimplemented!() } }
// bits of naturals, least significant first
pub open spec fn bits_val(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { s[0] as int + 2 * bits_val(s.subrange(1, s.len() as int)) }
}
pub open spec fn all_bits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] == 0 || s[i] == 1) }
// number of bits of |a| (0 for 0)
pub open spec fn ipow2(n: nat) -> int decreases n { if n == 0 { 1 } else { 2 * ipow2((n - 1) as nat) } }
pub open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }
pub open spec fn is_bitlen(a: int, n: nat) -> bool {
    if a == 0 { n == 0 } else { ipow2((n - 1) as nat) <= iabs(a) < ipow2(n) && n >= 1 }
}
pub open spec fn ipow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) } }
impl BigInt {
    #[verifier::external_body]
    pub fn from<T: VInt>(x: T) -> (r: BigInt) ensures r@ == x.iv() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: BigInt) ensures r@ == self@, r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn bits(&self) -> (r: usize) ensures is_bitlen(self@, r as nat) { unimplemented!() }
    // little endian base-2 digits; num-bigint gives one digit 0 for zero
    #[verifier::external_body]
    pub fn to_radix_le(&self, radix: u32) -> (r: (Sign, Vec<u8>))
        requires radix == 2
        ensures all_bits(r.1@), bits_val(r.1@) == iabs(self@),
            self@ == 0 ==> r.1@.len() == 1 && r.0 == Sign::NoSign,
            self@ > 0 ==> r.0 == Sign::Plus, self@ < 0 ==> r.0 == Sign::Minus,
            self@ != 0 ==> is_bitlen(self@, r.1@.len())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_radix_le(sign: Sign, buf: &Vec<u8>, radix: u32) -> (r: Option<BigInt>)
        requires radix == 2, all_bits(buf@)
        ensures r is Some,
            sign == Sign::Plus ==> r->Some_0@ == bits_val(buf@),
            sign == Sign::Minus ==> r->Some_0@ == -bits_val(buf@),
            sign == Sign::NoSign ==> r->Some_0@ == 0
    { unimplemented!() }
    // num-bigint-dig: inverse in [0, m) when gcd(|self|, m) = 1, None otherwise
    #[verifier::external_body]
    pub fn mod_inverse(&self, m: &BigInt) -> (r: Option<BigInt>)
        requires m@ > 1
        ensures (r is Some) == (exists|x: int| #[trigger] (self@ * x) % m@ == 1),
            r is Some ==> 0 <= r->Some_0@ < m@ && (self@ * r->Some_0@) % m@ == 1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn modpow(&self, e: &BigInt, m: &BigInt) -> (r: BigInt)
        requires e@ >= 0, m@ > 0
        ensures r@ == ipow(self@, e@ as nat) % m@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_usize(&self) -> (r: Option<usize>)
        ensures r is Some <==> 0 <= self@ <= usize::MAX, r is Some ==> r->Some_0 as int == self@
    { unimplemented!() }
}
pub mod num_traits {
    use super::*;
    #[verifier::external_body]
    pub fn pow(b: BigInt, e: usize) -> (r: BigInt) ensures r@ == ipow(b@, e as nat) { unimplemented!() }
    pub mod pow {
        use super::super::*;
        #[verifier::external_body]
        pub fn pow(b: BigInt, e: usize) -> (r: BigInt) ensures r@ == ipow(b@, e as nat) { unimplemented!() }
    }
}


// two's complement and sign-magnitude byte strings, least significant byte first
pub open spec fn le_val(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 { 0 } else { b[0] as int + 256 * le_val(b.skip(1)) } }
// no leading zeros; zero has one digit
pub open spec fn minle(n: int) -> Seq<u8> decreases n { if n < 256 { seq![n as u8] } else { seq![(n % 256) as u8] + minle(n / 256) } }
pub open spec fn pow256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub open spec fn sle_val(b: Seq<u8>) -> int { if b.len() > 0 && b.last() >= 128 { le_val(b) - pow256(b.len()) } else { le_val(b) } }
impl BigInt {
    #[verifier::external_body]
    pub fn to_signed_bytes_le(&self) -> (r: Vec<u8>) ensures sle_val(r@) == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_signed_bytes_le(b: &Vec<u8>) -> (r: BigInt) ensures r@ == sle_val(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes_le(&self) -> (r: (Sign, Vec<u8>))
        ensures le_val(r.1@) == iabs(self@), r.1@ == minle(iabs(self@)), r.0 == (if self@ > 0 { Sign::Plus } else if self@ < 0 { Sign::Minus } else { Sign::NoSign }) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes_le(s: Sign, b: &Vec<u8>) -> (r: BigInt)
        ensures r@ == (match s { Sign::Plus => le_val(b@), Sign::Minus => -le_val(b@), Sign::NoSign => 0int }) { unimplemented!() }
}
