// Stand-in bound for the element / symbol type parameters: Clone returns an equal value.
pub trait Sym: Sized {
    fn clone(&self) -> (r: Self) ensures r == *self;
}
