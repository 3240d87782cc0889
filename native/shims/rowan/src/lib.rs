//! Stand-in for the parts of `rowan` / `text-size` the harnesses need (not in the offline cache).
use std::fmt;
use std::iter;
use std::ops::*;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TextSize { raw: u32 }
impl fmt::Debug for TextSize { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.raw) } }
pub trait TextLen { fn text_len(self) -> TextSize; }
impl TextLen for &'_ str { fn text_len(self) -> TextSize { self.len().try_into().unwrap() } }
impl TextLen for &'_ String { fn text_len(self) -> TextSize { self.len().try_into().unwrap() } }
impl TextLen for char { fn text_len(self) -> TextSize { (self.len_utf8() as u32).into() } }
impl TextSize {
    pub const fn new(raw: u32) -> TextSize { TextSize { raw } }
    pub fn of<T: TextLen>(t: T) -> TextSize { t.text_len() }
    pub const fn checked_add(self, r: TextSize) -> Option<TextSize> { match self.raw.checked_add(r.raw) { Some(raw) => Some(TextSize { raw }), None => None } }
    pub const fn checked_sub(self, r: TextSize) -> Option<TextSize> { match self.raw.checked_sub(r.raw) { Some(raw) => Some(TextSize { raw }), None => None } }
}
impl From<u32> for TextSize { fn from(raw: u32) -> Self { TextSize { raw } } }
impl From<TextSize> for u32 { fn from(s: TextSize) -> u32 { s.raw } }
impl From<TextSize> for usize { fn from(s: TextSize) -> usize { s.raw as usize } }
impl TryFrom<usize> for TextSize { type Error = std::num::TryFromIntError; fn try_from(v: usize) -> Result<Self, Self::Error> { Ok(u32::try_from(v)?.into()) } }
macro_rules! ops { ($($T:ident $f:ident $A:ident $af:ident $op:tt),*) => { $(
    impl $T<TextSize> for TextSize { type Output = TextSize; fn $f(self, o: TextSize) -> TextSize { TextSize { raw: self.raw $op o.raw } } }
    impl $T<&TextSize> for TextSize { type Output = TextSize; fn $f(self, o: &TextSize) -> TextSize { self $op *o } }
    impl<U> $T<U> for &TextSize where TextSize: $T<U, Output = TextSize> { type Output = TextSize; fn $f(self, o: U) -> TextSize { *self $op o } }
    impl<A> $A<A> for TextSize where TextSize: $T<A, Output = TextSize> { fn $af(&mut self, o: A) { *self = *self $op o } }
)* } }
ops!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -);
impl<A> iter::Sum<A> for TextSize where TextSize: Add<A, Output = TextSize> { fn sum<I: Iterator<Item = A>>(i: I) -> TextSize { i.fold(0.into(), Add::add) } }

#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct TextRange { start: TextSize, end: TextSize }
impl fmt::Debug for TextRange { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}..{}", self.start.raw, self.end.raw) } }
impl TextRange {
    pub const fn new(start: TextSize, end: TextSize) -> TextRange { assert!(start.raw <= end.raw); TextRange { start, end } }
    pub fn at(o: TextSize, len: TextSize) -> TextRange { TextRange::new(o, o + len) }
    pub const fn empty(o: TextSize) -> TextRange { TextRange { start: o, end: o } }
    pub const fn up_to(end: TextSize) -> TextRange { TextRange { start: TextSize::new(0), end } }
    pub const fn start(self) -> TextSize { self.start }
    pub const fn end(self) -> TextSize { self.end }
    pub const fn len(self) -> TextSize { TextSize { raw: self.end.raw - self.start.raw } }
    pub const fn is_empty(self) -> bool { self.start.raw == self.end.raw }
    pub fn contains(self, o: TextSize) -> bool { self.start <= o && o < self.end }
    pub fn contains_inclusive(self, o: TextSize) -> bool { self.start <= o && o <= self.end }
    pub fn contains_range(self, o: TextRange) -> bool { self.start <= o.start && o.end <= self.end }
    pub fn intersect(self, o: TextRange) -> Option<TextRange> {
        let start = self.start.max(o.start); let end = self.end.min(o.end);
        if end < start { return None; } Some(TextRange { start, end })
    }
    pub fn cover(self, o: TextRange) -> TextRange { TextRange { start: self.start.min(o.start), end: self.end.max(o.end) } }
    pub fn cover_offset(self, o: TextSize) -> TextRange { self.cover(TextRange::empty(o)) }
    pub fn checked_add(self, o: TextSize) -> Option<TextRange> { Some(TextRange { start: self.start.checked_add(o)?, end: self.end.checked_add(o)? }) }
    pub fn checked_sub(self, o: TextSize) -> Option<TextRange> { Some(TextRange { start: self.start.checked_sub(o)?, end: self.end.checked_sub(o)? }) }
    pub fn ordering(self, r: TextRange) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        if self.end <= r.start { Less } else if r.end <= self.start { Greater } else { Equal }
    }
}
impl Index<TextRange> for str { type Output = str; fn index(&self, i: TextRange) -> &str { &self[Range::<usize>::from(i)] } }
impl Index<TextRange> for String { type Output = str; fn index(&self, i: TextRange) -> &str { &self[Range::<usize>::from(i)] } }
impl IndexMut<TextRange> for str { fn index_mut(&mut self, i: TextRange) -> &mut str { &mut self[Range::<usize>::from(i)] } }
impl RangeBounds<TextSize> for TextRange {
    fn start_bound(&self) -> Bound<&TextSize> { Bound::Included(&self.start) }
    fn end_bound(&self) -> Bound<&TextSize> { Bound::Excluded(&self.end) }
}
impl<T: From<TextSize>> From<TextRange> for Range<T> { fn from(r: TextRange) -> Range<T> { r.start.into()..r.end.into() } }
impl Add<TextSize> for TextRange { type Output = TextRange; fn add(self, o: TextSize) -> TextRange { self.checked_add(o).expect("TextRange +offset overflowed") } }
impl Sub<TextSize> for TextRange { type Output = TextRange; fn sub(self, o: TextSize) -> TextRange { self.checked_sub(o).expect("TextRange -offset overflowed") } }
impl AddAssign<TextSize> for TextRange { fn add_assign(&mut self, o: TextSize) { *self = *self + o } }
impl SubAssign<TextSize> for TextRange { fn sub_assign(&mut self, o: TextSize) { *self = *self - o } }

// ---------------------------------------------------------------- green trees
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SyntaxKind(pub u16);
pub trait Language: Sized + Copy + fmt::Debug + Eq + Ord + std::hash::Hash {
    type Kind: Sized + Copy + fmt::Debug + Eq + Ord + std::hash::Hash;
    fn kind_from_raw(raw: SyntaxKind) -> Self::Kind;
    fn kind_to_raw(kind: Self::Kind) -> SyntaxKind;
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Green { Node(GreenNode), Token(SyntaxKind, String) }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct GreenNode { pub kind: SyntaxKind, pub children: Vec<Green> }
impl GreenNode {
    pub fn text(&self, out: &mut String) {
        for c in &self.children { match c { Green::Node(n) => n.text(out), Green::Token(_, t) => out.push_str(t) } }
    }
}
#[derive(Default)]
pub struct GreenNodeBuilder<'c> { parents: Vec<(SyntaxKind, usize)>, children: Vec<Green>, _p: std::marker::PhantomData<&'c ()> }
impl GreenNodeBuilder<'_> {
    pub fn new() -> Self { Self::default() }
    pub fn token(&mut self, kind: SyntaxKind, text: &str) { self.children.push(Green::Token(kind, text.to_string())) }
    pub fn start_node(&mut self, kind: SyntaxKind) { let n = self.children.len(); self.parents.push((kind, n)) }
    pub fn finish_node(&mut self) {
        let (kind, first) = self.parents.pop().unwrap();
        let children = self.children.split_off(first);
        self.children.push(Green::Node(GreenNode { kind, children }));
    }
    pub fn finish(mut self) -> GreenNode {
        assert_eq!(self.children.len(), 1);
        match self.children.pop().unwrap() { Green::Node(n) => n, Green::Token(..) => panic!() }
    }
}
