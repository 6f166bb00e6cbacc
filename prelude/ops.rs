// Operators of the source are rewritten to calls of these traits (same operands, same order).

pub trait VAdd<R>: Sized {
    type Out;
    spec fn vadd_req(self, r: R) -> bool;
    spec fn vadd_ens(self, r: R, o: Self::Out) -> bool;
    fn vadd(self, r: R) -> (o: Self::Out) requires self.vadd_req(r), ensures self.vadd_ens(r, o);
}
pub trait VSub<R>: Sized {
    type Out;
    spec fn vsub_req(self, r: R) -> bool;
    spec fn vsub_ens(self, r: R, o: Self::Out) -> bool;
    fn vsub(self, r: R) -> (o: Self::Out) requires self.vsub_req(r), ensures self.vsub_ens(r, o);
}
pub trait VMul<R>: Sized {
    type Out;
    spec fn vmul_req(self, r: R) -> bool;
    spec fn vmul_ens(self, r: R, o: Self::Out) -> bool;
    fn vmul(self, r: R) -> (o: Self::Out) requires self.vmul_req(r), ensures self.vmul_ens(r, o);
}
pub trait VDiv<R>: Sized {
    type Out;
    spec fn vdiv_req(self, r: R) -> bool;
    spec fn vdiv_ens(self, r: R, o: Self::Out) -> bool;
    fn vdiv(self, r: R) -> (o: Self::Out) requires self.vdiv_req(r), ensures self.vdiv_ens(r, o);
}
pub trait VRem<R>: Sized {
    type Out;
    spec fn vrem_req(self, r: R) -> bool;
    spec fn vrem_ens(self, r: R, o: Self::Out) -> bool;
    fn vrem(self, r: R) -> (o: Self::Out) requires self.vrem_req(r), ensures self.vrem_ens(r, o);
}
pub trait VBitAnd<R>: Sized {
    type Out;
    spec fn vbitand_req(self, r: R) -> bool;
    spec fn vbitand_ens(self, r: R, o: Self::Out) -> bool;
    fn vbitand(self, r: R) -> (o: Self::Out) requires self.vbitand_req(r), ensures self.vbitand_ens(r, o);
}
pub trait VBitOr<R>: Sized {
    type Out;
    spec fn vbitor_req(self, r: R) -> bool;
    spec fn vbitor_ens(self, r: R, o: Self::Out) -> bool;
    fn vbitor(self, r: R) -> (o: Self::Out) requires self.vbitor_req(r), ensures self.vbitor_ens(r, o);
}
pub trait VBitXor<R>: Sized {
    type Out;
    spec fn vbitxor_req(self, r: R) -> bool;
    spec fn vbitxor_ens(self, r: R, o: Self::Out) -> bool;
    fn vbitxor(self, r: R) -> (o: Self::Out) requires self.vbitxor_req(r), ensures self.vbitxor_ens(r, o);
}
pub trait VShl<R>: Sized {
    type Out;
    spec fn vshl_req(self, r: R) -> bool;
    spec fn vshl_ens(self, r: R, o: Self::Out) -> bool;
    fn vshl(self, r: R) -> (o: Self::Out) requires self.vshl_req(r), ensures self.vshl_ens(r, o);
}
pub trait VShr<R>: Sized {
    type Out;
    spec fn vshr_req(self, r: R) -> bool;
    spec fn vshr_ens(self, r: R, o: Self::Out) -> bool;
    fn vshr(self, r: R) -> (o: Self::Out) requires self.vshr_req(r), ensures self.vshr_ens(r, o);
}
pub trait VEq<R: ?Sized> {
    spec fn veq_spec(&self, o: &R) -> bool;
    fn veq(&self, o: &R) -> (b: bool) ensures b == self.veq_spec(o);
    fn vne(&self, o: &R) -> (b: bool) ensures b == !self.veq_spec(o);
}
pub trait VOrd<R: ?Sized> {
    spec fn vlt_spec(&self, o: &R) -> bool;
    spec fn vle_spec(&self, o: &R) -> bool;
    fn vlt(&self, o: &R) -> (b: bool) ensures b == self.vlt_spec(o);
    fn vle(&self, o: &R) -> (b: bool) ensures b == self.vle_spec(o);
    fn vgt(&self, o: &R) -> (b: bool) ensures b == !self.vle_spec(o);
    fn vge(&self, o: &R) -> (b: bool) ensures b == !self.vlt_spec(o);
}
impl<'a, 'b, A: VEq<B>, B> VEq<&'b B> for &'a A {
    open spec fn veq_spec(&self, o: &&'b B) -> bool { (**self).veq_spec(*o) }
    fn veq(&self, o: &&'b B) -> (b: bool) { (**self).veq(*o) }
    fn vne(&self, o: &&'b B) -> (b: bool) { (**self).vne(*o) }
}
impl<'a, 'b, A: VOrd<B>, B> VOrd<&'b B> for &'a A {
    open spec fn vlt_spec(&self, o: &&'b B) -> bool { (**self).vlt_spec(*o) }
    open spec fn vle_spec(&self, o: &&'b B) -> bool { (**self).vle_spec(*o) }
    fn vlt(&self, o: &&'b B) -> (b: bool) { (**self).vlt(*o) }
    fn vle(&self, o: &&'b B) -> (b: bool) { (**self).vle(*o) }
    fn vgt(&self, o: &&'b B) -> (b: bool) { (**self).vgt(*o) }
    fn vge(&self, o: &&'b B) -> (b: bool) { (**self).vge(*o) }
}

impl VAdd<usize> for usize { type Out = usize;
    open spec fn vadd_req(self, r: usize) -> bool { usize::MIN <= self + r <= usize::MAX }
    open spec fn vadd_ens(self, r: usize, o: usize) -> bool { o == self + r }
    fn vadd(self, r: usize) -> (o: usize) { self + r } }
impl VSub<usize> for usize { type Out = usize;
    open spec fn vsub_req(self, r: usize) -> bool { usize::MIN <= self - r <= usize::MAX }
    open spec fn vsub_ens(self, r: usize, o: usize) -> bool { o == self - r }
    fn vsub(self, r: usize) -> (o: usize) { self - r } }
impl VMul<usize> for usize { type Out = usize;
    open spec fn vmul_req(self, r: usize) -> bool { usize::MIN <= self * r <= usize::MAX }
    open spec fn vmul_ens(self, r: usize, o: usize) -> bool { o == self * r }
    fn vmul(self, r: usize) -> (o: usize) { self * r } }
impl VDiv<usize> for usize { type Out = usize;
    open spec fn vdiv_req(self, r: usize) -> bool { r != 0 }
    open spec fn vdiv_ens(self, r: usize, o: usize) -> bool { o == self / r }
    fn vdiv(self, r: usize) -> (o: usize) { self / r } }
impl<'a> VDiv<&'a usize> for usize { type Out = usize;
    open spec fn vdiv_req(self, r: &'a usize) -> bool { *r != 0 }
    open spec fn vdiv_ens(self, r: &'a usize, o: usize) -> bool { o == self / *r }
    fn vdiv(self, r: &'a usize) -> (o: usize) { self / *r } }
impl VRem<usize> for usize { type Out = usize;
    open spec fn vrem_req(self, r: usize) -> bool { r != 0 }
    open spec fn vrem_ens(self, r: usize, o: usize) -> bool { o == self % r }
    fn vrem(self, r: usize) -> (o: usize) { self % r } }
impl VBitAnd<usize> for usize { type Out = usize;
    open spec fn vbitand_req(self, r: usize) -> bool { true }
    open spec fn vbitand_ens(self, r: usize, o: usize) -> bool { o == self & r }
    fn vbitand(self, r: usize) -> (o: usize) { self & r } }
impl VBitOr<usize> for usize { type Out = usize;
    open spec fn vbitor_req(self, r: usize) -> bool { true }
    open spec fn vbitor_ens(self, r: usize, o: usize) -> bool { o == self | r }
    fn vbitor(self, r: usize) -> (o: usize) { self | r } }
impl VBitXor<usize> for usize { type Out = usize;
    open spec fn vbitxor_req(self, r: usize) -> bool { true }
    open spec fn vbitxor_ens(self, r: usize, o: usize) -> bool { o == self ^ r }
    fn vbitxor(self, r: usize) -> (o: usize) { self ^ r } }
impl VEq<usize> for usize {
    open spec fn veq_spec(&self, o: &usize) -> bool { *self == *o }
    fn veq(&self, o: &usize) -> (b: bool) { *self == *o }
    fn vne(&self, o: &usize) -> (b: bool) { *self != *o } }
impl VOrd<usize> for usize {
    open spec fn vlt_spec(&self, o: &usize) -> bool { *self < *o }
    open spec fn vle_spec(&self, o: &usize) -> bool { *self <= *o }
    fn vlt(&self, o: &usize) -> (b: bool) { *self < *o }
    fn vle(&self, o: &usize) -> (b: bool) { *self <= *o }
    fn vgt(&self, o: &usize) -> (b: bool) { *self > *o }
    fn vge(&self, o: &usize) -> (b: bool) { *self >= *o } }
impl VAdd<u8> for u8 { type Out = u8;
    open spec fn vadd_req(self, r: u8) -> bool { u8::MIN <= self + r <= u8::MAX }
    open spec fn vadd_ens(self, r: u8, o: u8) -> bool { o == self + r }
    fn vadd(self, r: u8) -> (o: u8) { self + r } }
impl VSub<u8> for u8 { type Out = u8;
    open spec fn vsub_req(self, r: u8) -> bool { u8::MIN <= self - r <= u8::MAX }
    open spec fn vsub_ens(self, r: u8, o: u8) -> bool { o == self - r }
    fn vsub(self, r: u8) -> (o: u8) { self - r } }
impl VMul<u8> for u8 { type Out = u8;
    open spec fn vmul_req(self, r: u8) -> bool { u8::MIN <= self * r <= u8::MAX }
    open spec fn vmul_ens(self, r: u8, o: u8) -> bool { o == self * r }
    fn vmul(self, r: u8) -> (o: u8) { self * r } }
impl VDiv<u8> for u8 { type Out = u8;
    open spec fn vdiv_req(self, r: u8) -> bool { r != 0 }
    open spec fn vdiv_ens(self, r: u8, o: u8) -> bool { o == self / r }
    fn vdiv(self, r: u8) -> (o: u8) { self / r } }
impl VRem<u8> for u8 { type Out = u8;
    open spec fn vrem_req(self, r: u8) -> bool { r != 0 }
    open spec fn vrem_ens(self, r: u8, o: u8) -> bool { o == self % r }
    fn vrem(self, r: u8) -> (o: u8) { self % r } }
impl VBitAnd<u8> for u8 { type Out = u8;
    open spec fn vbitand_req(self, r: u8) -> bool { true }
    open spec fn vbitand_ens(self, r: u8, o: u8) -> bool { o == self & r }
    fn vbitand(self, r: u8) -> (o: u8) { self & r } }
impl VBitOr<u8> for u8 { type Out = u8;
    open spec fn vbitor_req(self, r: u8) -> bool { true }
    open spec fn vbitor_ens(self, r: u8, o: u8) -> bool { o == self | r }
    fn vbitor(self, r: u8) -> (o: u8) { self | r } }
impl VBitXor<u8> for u8 { type Out = u8;
    open spec fn vbitxor_req(self, r: u8) -> bool { true }
    open spec fn vbitxor_ens(self, r: u8, o: u8) -> bool { o == self ^ r }
    fn vbitxor(self, r: u8) -> (o: u8) { self ^ r } }
impl VEq<u8> for u8 {
    open spec fn veq_spec(&self, o: &u8) -> bool { *self == *o }
    fn veq(&self, o: &u8) -> (b: bool) { *self == *o }
    fn vne(&self, o: &u8) -> (b: bool) { *self != *o } }
impl VOrd<u8> for u8 {
    open spec fn vlt_spec(&self, o: &u8) -> bool { *self < *o }
    open spec fn vle_spec(&self, o: &u8) -> bool { *self <= *o }
    fn vlt(&self, o: &u8) -> (b: bool) { *self < *o }
    fn vle(&self, o: &u8) -> (b: bool) { *self <= *o }
    fn vgt(&self, o: &u8) -> (b: bool) { *self > *o }
    fn vge(&self, o: &u8) -> (b: bool) { *self >= *o } }
impl VAdd<u32> for u32 { type Out = u32;
    open spec fn vadd_req(self, r: u32) -> bool { u32::MIN <= self + r <= u32::MAX }
    open spec fn vadd_ens(self, r: u32, o: u32) -> bool { o == self + r }
    fn vadd(self, r: u32) -> (o: u32) { self + r } }
impl VSub<u32> for u32 { type Out = u32;
    open spec fn vsub_req(self, r: u32) -> bool { u32::MIN <= self - r <= u32::MAX }
    open spec fn vsub_ens(self, r: u32, o: u32) -> bool { o == self - r }
    fn vsub(self, r: u32) -> (o: u32) { self - r } }
impl VMul<u32> for u32 { type Out = u32;
    open spec fn vmul_req(self, r: u32) -> bool { u32::MIN <= self * r <= u32::MAX }
    open spec fn vmul_ens(self, r: u32, o: u32) -> bool { o == self * r }
    fn vmul(self, r: u32) -> (o: u32) { self * r } }
impl VDiv<u32> for u32 { type Out = u32;
    open spec fn vdiv_req(self, r: u32) -> bool { r != 0 }
    open spec fn vdiv_ens(self, r: u32, o: u32) -> bool { o == self / r }
    fn vdiv(self, r: u32) -> (o: u32) { self / r } }
impl VRem<u32> for u32 { type Out = u32;
    open spec fn vrem_req(self, r: u32) -> bool { r != 0 }
    open spec fn vrem_ens(self, r: u32, o: u32) -> bool { o == self % r }
    fn vrem(self, r: u32) -> (o: u32) { self % r } }
impl VBitAnd<u32> for u32 { type Out = u32;
    open spec fn vbitand_req(self, r: u32) -> bool { true }
    open spec fn vbitand_ens(self, r: u32, o: u32) -> bool { o == self & r }
    fn vbitand(self, r: u32) -> (o: u32) { self & r } }
impl VBitOr<u32> for u32 { type Out = u32;
    open spec fn vbitor_req(self, r: u32) -> bool { true }
    open spec fn vbitor_ens(self, r: u32, o: u32) -> bool { o == self | r }
    fn vbitor(self, r: u32) -> (o: u32) { self | r } }
impl VBitXor<u32> for u32 { type Out = u32;
    open spec fn vbitxor_req(self, r: u32) -> bool { true }
    open spec fn vbitxor_ens(self, r: u32, o: u32) -> bool { o == self ^ r }
    fn vbitxor(self, r: u32) -> (o: u32) { self ^ r } }
impl VEq<u32> for u32 {
    open spec fn veq_spec(&self, o: &u32) -> bool { *self == *o }
    fn veq(&self, o: &u32) -> (b: bool) { *self == *o }
    fn vne(&self, o: &u32) -> (b: bool) { *self != *o } }
impl VOrd<u32> for u32 {
    open spec fn vlt_spec(&self, o: &u32) -> bool { *self < *o }
    open spec fn vle_spec(&self, o: &u32) -> bool { *self <= *o }
    fn vlt(&self, o: &u32) -> (b: bool) { *self < *o }
    fn vle(&self, o: &u32) -> (b: bool) { *self <= *o }
    fn vgt(&self, o: &u32) -> (b: bool) { *self > *o }
    fn vge(&self, o: &u32) -> (b: bool) { *self >= *o } }
impl VAdd<u64> for u64 { type Out = u64;
    open spec fn vadd_req(self, r: u64) -> bool { u64::MIN <= self + r <= u64::MAX }
    open spec fn vadd_ens(self, r: u64, o: u64) -> bool { o == self + r }
    fn vadd(self, r: u64) -> (o: u64) { self + r } }
impl VSub<u64> for u64 { type Out = u64;
    open spec fn vsub_req(self, r: u64) -> bool { u64::MIN <= self - r <= u64::MAX }
    open spec fn vsub_ens(self, r: u64, o: u64) -> bool { o == self - r }
    fn vsub(self, r: u64) -> (o: u64) { self - r } }
impl VMul<u64> for u64 { type Out = u64;
    open spec fn vmul_req(self, r: u64) -> bool { u64::MIN <= self * r <= u64::MAX }
    open spec fn vmul_ens(self, r: u64, o: u64) -> bool { o == self * r }
    fn vmul(self, r: u64) -> (o: u64) { self * r } }
impl VDiv<u64> for u64 { type Out = u64;
    open spec fn vdiv_req(self, r: u64) -> bool { r != 0 }
    open spec fn vdiv_ens(self, r: u64, o: u64) -> bool { o == self / r }
    fn vdiv(self, r: u64) -> (o: u64) { self / r } }
impl VRem<u64> for u64 { type Out = u64;
    open spec fn vrem_req(self, r: u64) -> bool { r != 0 }
    open spec fn vrem_ens(self, r: u64, o: u64) -> bool { o == self % r }
    fn vrem(self, r: u64) -> (o: u64) { self % r } }
impl VBitAnd<u64> for u64 { type Out = u64;
    open spec fn vbitand_req(self, r: u64) -> bool { true }
    open spec fn vbitand_ens(self, r: u64, o: u64) -> bool { o == self & r }
    fn vbitand(self, r: u64) -> (o: u64) { self & r } }
impl VBitOr<u64> for u64 { type Out = u64;
    open spec fn vbitor_req(self, r: u64) -> bool { true }
    open spec fn vbitor_ens(self, r: u64, o: u64) -> bool { o == self | r }
    fn vbitor(self, r: u64) -> (o: u64) { self | r } }
impl VBitXor<u64> for u64 { type Out = u64;
    open spec fn vbitxor_req(self, r: u64) -> bool { true }
    open spec fn vbitxor_ens(self, r: u64, o: u64) -> bool { o == self ^ r }
    fn vbitxor(self, r: u64) -> (o: u64) { self ^ r } }
impl VEq<u64> for u64 {
    open spec fn veq_spec(&self, o: &u64) -> bool { *self == *o }
    fn veq(&self, o: &u64) -> (b: bool) { *self == *o }
    fn vne(&self, o: &u64) -> (b: bool) { *self != *o } }
impl VOrd<u64> for u64 {
    open spec fn vlt_spec(&self, o: &u64) -> bool { *self < *o }
    open spec fn vle_spec(&self, o: &u64) -> bool { *self <= *o }
    fn vlt(&self, o: &u64) -> (b: bool) { *self < *o }
    fn vle(&self, o: &u64) -> (b: bool) { *self <= *o }
    fn vgt(&self, o: &u64) -> (b: bool) { *self > *o }
    fn vge(&self, o: &u64) -> (b: bool) { *self >= *o } }
impl VAdd<i32> for i32 { type Out = i32;
    open spec fn vadd_req(self, r: i32) -> bool { i32::MIN <= self + r <= i32::MAX }
    open spec fn vadd_ens(self, r: i32, o: i32) -> bool { o == self + r }
    fn vadd(self, r: i32) -> (o: i32) { self + r } }
impl VSub<i32> for i32 { type Out = i32;
    open spec fn vsub_req(self, r: i32) -> bool { i32::MIN <= self - r <= i32::MAX }
    open spec fn vsub_ens(self, r: i32, o: i32) -> bool { o == self - r }
    fn vsub(self, r: i32) -> (o: i32) { self - r } }
impl VMul<i32> for i32 { type Out = i32;
    open spec fn vmul_req(self, r: i32) -> bool { i32::MIN <= self * r <= i32::MAX }
    open spec fn vmul_ens(self, r: i32, o: i32) -> bool { o == self * r }
    fn vmul(self, r: i32) -> (o: i32) { self * r } }
impl VBitAnd<i32> for i32 { type Out = i32;
    open spec fn vbitand_req(self, r: i32) -> bool { true }
    open spec fn vbitand_ens(self, r: i32, o: i32) -> bool { o == self & r }
    fn vbitand(self, r: i32) -> (o: i32) { self & r } }
impl VBitOr<i32> for i32 { type Out = i32;
    open spec fn vbitor_req(self, r: i32) -> bool { true }
    open spec fn vbitor_ens(self, r: i32, o: i32) -> bool { o == self | r }
    fn vbitor(self, r: i32) -> (o: i32) { self | r } }
impl VBitXor<i32> for i32 { type Out = i32;
    open spec fn vbitxor_req(self, r: i32) -> bool { true }
    open spec fn vbitxor_ens(self, r: i32, o: i32) -> bool { o == self ^ r }
    fn vbitxor(self, r: i32) -> (o: i32) { self ^ r } }
impl VEq<i32> for i32 {
    open spec fn veq_spec(&self, o: &i32) -> bool { *self == *o }
    fn veq(&self, o: &i32) -> (b: bool) { *self == *o }
    fn vne(&self, o: &i32) -> (b: bool) { *self != *o } }
impl VOrd<i32> for i32 {
    open spec fn vlt_spec(&self, o: &i32) -> bool { *self < *o }
    open spec fn vle_spec(&self, o: &i32) -> bool { *self <= *o }
    fn vlt(&self, o: &i32) -> (b: bool) { *self < *o }
    fn vle(&self, o: &i32) -> (b: bool) { *self <= *o }
    fn vgt(&self, o: &i32) -> (b: bool) { *self > *o }
    fn vge(&self, o: &i32) -> (b: bool) { *self >= *o } }
impl VEq<bool> for bool {
    open spec fn veq_spec(&self, o: &bool) -> bool { *self == *o }
    fn veq(&self, o: &bool) -> (b: bool) { *self == *o }
    fn vne(&self, o: &bool) -> (b: bool) { *self != *o } }

pub fn vassert(b: bool) requires b { }
#[verifier::external_body]
pub fn vunreachable<T>() -> (r: T) requires false { unimplemented!() }

impl VBitOr<bool> for bool { type Out = bool;
    open spec fn vbitor_req(self, r: bool) -> bool { true }
    open spec fn vbitor_ens(self, r: bool, o: bool) -> bool { o == (self || r) }
    fn vbitor(self, r: bool) -> (o: bool) { if self { true } else { r } } }
impl VBitAnd<bool> for bool { type Out = bool;
    open spec fn vbitand_req(self, r: bool) -> bool { true }
    open spec fn vbitand_ens(self, r: bool, o: bool) -> bool { o == (self && r) }
    fn vbitand(self, r: bool) -> (o: bool) { if self { r } else { false } } }
