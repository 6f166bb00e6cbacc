// Files opened for writing: their bytes and the write position.
#[verifier::external_body]
pub struct VErr { x: u8 }
#[verifier::external_body]
pub struct File { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BufWriter<T> { x: std::marker::PhantomData<T> }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub trait VPathName { spec fn pname(&self) -> Seq<char>; }
impl VPathName for str { open spec fn pname(&self) -> Seq<char> { self@ } }
impl VPathName for VString { open spec fn pname(&self) -> Seq<char> { self@ } }
impl File {
    pub uninterp spec fn name(&self) -> Seq<char>;
    // creates the file or empties it
    #[verifier::external_body]
    pub fn create<P: VPathName + ?Sized>(path: &P) -> (r: Result<File, VErr>) ensures r is Ok ==> r->Ok_0.name() == path.pname() { unimplemented!() }
}
// at some moment the file of this name had exactly these bytes
pub uninterp spec fn on_disk(name: Seq<char>, b: Seq<u8>) -> bool;
// the bytes b with s put at position p
pub open spec fn put(b: Seq<u8>, p: int, s: Seq<u8>) -> Seq<u8> { b.take(p) + s + (if p + s.len() <= b.len() { b.skip(p + s.len()) } else { Seq::empty() }) }
pub trait VWrite {
    // (no file is longer than i64::MAX bytes: offsets are off_t)
    spec fn bytes(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    spec fn name(&self) -> Seq<char>;
    fn write_all(&mut self, s: &[u8]) -> (r: Result<(), VErr>)
        requires 0 <= old(self).pos() <= old(self).bytes().len()
        ensures final(self).name() == old(self).name(), r is Ok ==> final(self).bytes() == put(old(self).bytes(), old(self).pos(), s@) && final(self).pos() == old(self).pos() + s@.len() && final(self).bytes().len() <= i64::MAX;
    // a buffered writer takes what fits in its buffer (8 KiB) whole
    fn write(&mut self, s: &[u8]) -> (r: Result<usize, VErr>)
        requires 0 <= old(self).pos() <= old(self).bytes().len(), s@.len() < 8192
        ensures final(self).name() == old(self).name(), r is Ok ==> final(self).bytes() == put(old(self).bytes(), old(self).pos(), s@) && final(self).pos() == old(self).pos() + s@.len() && r->Ok_0 == s@.len() && final(self).bytes().len() <= i64::MAX;
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, VErr>)
        requires to is Start || (to is Current && to->Current_0 == 0)
        ensures final(self).name() == old(self).name(), r is Ok ==> final(self).bytes() == old(self).bytes() && final(self).pos() == r->Ok_0 && r->Ok_0 == (if to is Start { to->Start_0 as int } else { old(self).pos() });
    fn flush(&mut self) -> (r: Result<(), VErr>)
        ensures final(self).name() == old(self).name(), r is Ok ==> final(self).bytes() == old(self).bytes() && final(self).pos() == old(self).pos() && on_disk(old(self).name(), old(self).bytes());
}
impl VWrite for BufWriter<File> {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> int;
    uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    fn write_all(&mut self, s: &[u8]) -> (r: Result<(), VErr>) { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, s: &[u8]) -> (r: Result<usize, VErr>) { unimplemented!() }
    #[verifier::external_body]
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, VErr>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), VErr>) { unimplemented!() }
}
impl BufWriter<File> {
    #[verifier::external_body]
    pub fn new(f: File) -> (r: BufWriter<File>) ensures r.bytes() == Seq::<u8>::empty(), r.pos() == 0, r.name() == f.name() { unimplemented!() }
}
// UTF-8
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
impl VString {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self@) { unimplemented!() }
}
// numeric conversions; those of values that fit keep the value
pub uninterp spec fn as64(x: int) -> int;
pub broadcast proof fn axiom_as64(x: int) requires i64::MIN <= x <= i64::MAX ensures #[trigger] as64(x) == x { admit(); }
pub trait VAs<T> { fn as_(&self) -> T; }
impl VAs<i64> for usize {
    #[verifier::external_body]
    fn as_(&self) -> (r: i64) ensures r == as64(*self as int) { unimplemented!() }
}
