// Opaque strings, equal when their characters are.
#[verifier::external_body]
pub struct VString { x: u8 }
impl View for VString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn key(s: Seq<char>) -> VString;
pub broadcast proof fn axiom_key(s: VString) ensures #[trigger] key(s@) == s { admit(); }
impl VString {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: VString) ensures r == *self { unimplemented!() }
}
impl Clone for VString {
    #[verifier::external_body]
    fn clone(&self) -> (r: VString) ensures r == *self { unimplemented!() }
}
pub trait VToString { fn vto_string(&self) -> VString; }
impl VToString for str {
    #[verifier::external_body]
    fn vto_string(&self) -> (r: VString) ensures r == key(self@) { unimplemented!() }
}
impl VToString for VString {
    #[verifier::external_body]
    fn vto_string(&self) -> (r: VString) ensures r == *self { unimplemented!() }
}
impl VKey<VString> for str { open spec fn vkey(&self) -> VString { key(self@) } }
#[verifier::external_body]
pub fn vformat() -> (r: VString) { unimplemented!() }
pub type String = VString;
// format! with plain {} placeholders
pub trait VDisplay { spec fn vdisp(&self) -> Seq<char>; }
impl VDisplay for str { open spec fn vdisp(&self) -> Seq<char> { self@ } }
impl VDisplay for VString { open spec fn vdisp(&self) -> Seq<char> { self@ } }
pub uninterp spec fn dec(n: int) -> Seq<char>;
impl VDisplay for usize { open spec fn vdisp(&self) -> Seq<char> { dec(*self as int) } }
impl<'a, T: VDisplay + ?Sized> VDisplay for &'a T { open spec fn vdisp(&self) -> Seq<char> { (**self).vdisp() } }
#[verifier::external_body]
pub struct VFmt { x: u8 }
impl View for VFmt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VFmt {
    #[verifier::external_body]
    pub fn vstart() -> (r: VFmt) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vlit(self, s: &str) -> (r: VFmt) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn varg<T: VDisplay>(self, s: &T) -> (r: VFmt) ensures r@ == self@ + s.vdisp() { unimplemented!() }
    #[verifier::external_body]
    pub fn vdone(self) -> (r: VString) ensures r@ == self@, r == key(self@) { unimplemented!() }
}
pub broadcast proof fn axiom_key_view(s: Seq<char>) ensures #[trigger] key(s)@ == s { admit(); }
