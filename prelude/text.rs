// Stub text types. Views are sequences of characters; byte length is the UTF-8 length.
pub open spec fn u8len(c: char) -> int {
    let v = c as u32;
    if v < 0x80 { 1 } else if v < 0x800 { 2 } else if v < 0x10000 { 3 } else { 4 }
}
pub open spec fn bytes(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { u8len(s[0]) + bytes(s.drop_first()) }
}
pub trait VChar { fn vlen_utf8(&self) -> usize; }
impl VChar for char {
    #[verifier::external_body]
    fn vlen_utf8(&self) -> (r: usize) ensures r == u8len(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct VString { x: String }
impl View for VString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VString {
    #[verifier::external_body]
    pub fn new() -> (r: VString) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == bytes(self@) { unimplemented!() }
}
#[verifier::external_body]
pub struct VChars { x: u8 }
impl VChars {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first()
                && old(self).rest() == seq![old(self).rest()[0]] + final(self).rest()
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vchars(s: &str) -> (r: VChars) ensures r.rest() == s@ { unimplemented!() }
