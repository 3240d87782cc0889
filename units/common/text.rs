// ---- the `text-size` crate: offsets and ranges, with the contracts of its documentation
#[derive(Clone, Copy)]
pub struct TextSize { pub raw: u32 }
pub open spec fn vx_u32_cmp(a: u32, b: u32) -> std::cmp::Ordering {
    if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }
}
impl PartialEq for TextSize { fn eq(&self, o: &TextSize) -> bool { self.raw == o.raw } }
impl Eq for TextSize {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for TextSize {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &TextSize) -> bool { self.raw == o.raw }
}
impl PartialOrd for TextSize { fn partial_cmp(&self, o: &TextSize) -> Option<std::cmp::Ordering> {
  if self.raw < o.raw { Some(std::cmp::Ordering::Less) } else if self.raw == o.raw { Some(std::cmp::Ordering::Equal) } else { Some(std::cmp::Ordering::Greater) } } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for TextSize {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &TextSize) -> Option<std::cmp::Ordering> { Some(vx_u32_cmp(self.raw, o.raw)) }
}
impl Ord for TextSize { fn cmp(&self, o: &TextSize) -> std::cmp::Ordering {
  if self.raw < o.raw { std::cmp::Ordering::Less } else if self.raw == o.raw { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } } }
impl vstd::std_specs::cmp::OrdSpecImpl for TextSize {
  open spec fn obeys_cmp_spec() -> bool { true }
  open spec fn cmp_spec(&self, o: &TextSize) -> std::cmp::Ordering { vx_u32_cmp(self.raw, o.raw) }
}
impl vstd::std_specs::ops::AddSpecImpl<TextSize> for TextSize {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: TextSize) -> bool { self.raw + o.raw <= u32::MAX }
  open spec fn add_spec(self, o: TextSize) -> TextSize { TextSize { raw: (self.raw + o.raw) as u32 } }
}
impl std::ops::Add<TextSize> for TextSize { type Output = TextSize; fn add(self, o: TextSize) -> TextSize { TextSize { raw: self.raw + o.raw } } }
impl vstd::std_specs::ops::AddAssignSpecImpl<TextSize> for TextSize {
  open spec fn obeys_add_assign_spec() -> bool { true }
  open spec fn add_assign_req(&self, o: TextSize) -> bool { self.raw + o.raw <= u32::MAX }
  open spec fn add_assign_spec(&self, o: TextSize) -> &TextSize { &TextSize { raw: (self.raw + o.raw) as u32 } }
}
impl std::ops::AddAssign<TextSize> for TextSize { fn add_assign(&mut self, o: TextSize) { *self = *self + o; } }
impl vstd::std_specs::ops::SubSpecImpl<TextSize> for TextSize {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: TextSize) -> bool { self.raw >= o.raw }
  open spec fn sub_spec(self, o: TextSize) -> TextSize { TextSize { raw: (self.raw - o.raw) as u32 } }
}
impl std::ops::Sub<TextSize> for TextSize { type Output = TextSize; fn sub(self, o: TextSize) -> TextSize { TextSize { raw: self.raw - o.raw } } }
impl vstd::std_specs::ops::SubAssignSpecImpl<TextSize> for TextSize {
  open spec fn obeys_sub_assign_spec() -> bool { true }
  open spec fn sub_assign_req(&self, o: TextSize) -> bool { self.raw >= o.raw }
  open spec fn sub_assign_spec(&self, o: TextSize) -> &TextSize { &TextSize { raw: (self.raw - o.raw) as u32 } }
}
impl std::ops::SubAssign<TextSize> for TextSize { fn sub_assign(&mut self, o: TextSize) { *self = *self - o; } }

/// byte length of a piece of text
pub trait VxTextLen { spec fn vx_len(&self) -> nat; fn vx_text_len(&self) -> (r: TextSize) requires self.vx_len() <= u32::MAX ensures r.raw == self.vx_len(); }
impl VxTextLen for &str {
    open spec fn vx_len(&self) -> nat { vstd::utf8::encode_utf8(self@).len() }
    #[verifier::external_body] fn vx_text_len(&self) -> (r: TextSize) { unimplemented!() }
}
impl VxTextLen for &String {
    open spec fn vx_len(&self) -> nat { vstd::utf8::encode_utf8(self@).len() }
    #[verifier::external_body] fn vx_text_len(&self) -> (r: TextSize) { unimplemented!() }
}
impl VxTextLen for char {
    open spec fn vx_len(&self) -> nat { vstd::utf8::encode_scalar(*self as u32).len() }
    #[verifier::external_body] fn vx_text_len(&self) -> (r: TextSize) { unimplemented!() }
}
impl TextSize {
    pub fn new(raw: u32) -> (r: TextSize) ensures r.raw == raw { TextSize { raw } }
    pub fn of<T: VxTextLen>(t: T) -> (r: TextSize) requires t.vx_len() <= u32::MAX ensures r.raw == t.vx_len() { t.vx_text_len() }
    pub fn checked_add(self, o: TextSize) -> (r: Option<TextSize>)
        ensures r == (if self.raw + o.raw <= u32::MAX { Some(TextSize { raw: (self.raw + o.raw) as u32 }) } else { None }) {
        match self.raw.checked_add(o.raw) { Some(raw) => Some(TextSize { raw }), None => None } }
    pub fn checked_sub(self, o: TextSize) -> (r: Option<TextSize>)
        ensures r == (if self.raw >= o.raw { Some(TextSize { raw: (self.raw - o.raw) as u32 }) } else { None }) {
        match self.raw.checked_sub(o.raw) { Some(raw) => Some(TextSize { raw }), None => None } }
    pub fn vx_usize(self) -> (r: usize) ensures r == self.raw { self.raw as usize }
    pub fn max(self, o: TextSize) -> (r: TextSize) ensures r.raw == (if self.raw >= o.raw { self.raw } else { o.raw }) { if self.raw >= o.raw { self } else { o } }
    pub fn min(self, o: TextSize) -> (r: TextSize) ensures r.raw == (if self.raw <= o.raw { self.raw } else { o.raw }) { if self.raw <= o.raw { self } else { o } }
}
#[derive(Clone, Copy)]
pub struct TextRange { pub start: TextSize, pub end: TextSize }
impl PartialEq for TextRange { fn eq(&self, o: &TextRange) -> bool { self.start == o.start && self.end == o.end } }
impl Eq for TextRange {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for TextRange {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &TextRange) -> bool { *self == *o }
}
impl TextRange {
    pub open spec fn wf(self) -> bool { self.start.raw <= self.end.raw }
    /// a position inside the range (end excluded)
    pub open spec fn has(self, i: int) -> bool { self.start.raw <= i < self.end.raw }
    pub fn new(start: TextSize, end: TextSize) -> (r: TextRange) requires start.raw <= end.raw ensures r == (TextRange { start, end }) { TextRange { start, end } }
    pub fn at(o: TextSize, len: TextSize) -> (r: TextRange) requires o.raw + len.raw <= u32::MAX ensures r.start == o, r.end.raw == o.raw + len.raw { TextRange { start: o, end: o + len } }
    pub fn empty(o: TextSize) -> (r: TextRange) ensures r == (TextRange { start: o, end: o }) { TextRange { start: o, end: o } }
    pub fn up_to(o: TextSize) -> (r: TextRange) ensures r == (TextRange { start: TextSize { raw: 0 }, end: o }) { TextRange { start: TextSize { raw: 0 }, end: o } }
    pub fn start(self) -> (r: TextSize) ensures r == self.start { self.start }
    pub fn end(self) -> (r: TextSize) ensures r == self.end { self.end }
    pub fn len(self) -> (r: TextSize) requires self.wf() ensures r.raw == self.end.raw - self.start.raw { TextSize { raw: self.end.raw - self.start.raw } }
    pub fn is_empty(self) -> (r: bool) ensures r == (self.start.raw == self.end.raw) { self.start == self.end }
    pub fn contains(self, o: TextSize) -> (r: bool) ensures r == self.has(o.raw as int) { self.start <= o && o < self.end }
    pub fn contains_inclusive(self, o: TextSize) -> (r: bool) ensures r == (self.start.raw <= o.raw <= self.end.raw) { self.start <= o && o <= self.end }
    pub fn contains_range(self, o: TextRange) -> (r: bool) ensures r == (self.start.raw <= o.start.raw && o.end.raw <= self.end.raw) { self.start <= o.start && o.end <= self.end }
    pub fn intersect(self, o: TextRange) -> (r: Option<TextRange>)
        ensures ({ let s = if self.start.raw >= o.start.raw { self.start.raw } else { o.start.raw }; let e = if self.end.raw <= o.end.raw { self.end.raw } else { o.end.raw };
            r == (if e < s { None } else { Some(TextRange { start: TextSize { raw: s }, end: TextSize { raw: e } }) }) }) {
        let start = self.start.max(o.start); let end = self.end.min(o.end);
        if end < start { return None; } Some(TextRange { start, end }) }
    pub fn cover(self, o: TextRange) -> (r: TextRange)
        ensures r.start.raw == (if self.start.raw <= o.start.raw { self.start.raw } else { o.start.raw }), r.end.raw == (if self.end.raw >= o.end.raw { self.end.raw } else { o.end.raw }) {
        TextRange { start: self.start.min(o.start), end: self.end.max(o.end) } }
    pub fn checked_add(self, o: TextSize) -> (r: Option<TextRange>) requires self.wf()
        ensures r == (if self.end.raw + o.raw <= u32::MAX { Some(TextRange { start: TextSize { raw: (self.start.raw + o.raw) as u32 }, end: TextSize { raw: (self.end.raw + o.raw) as u32 } }) } else { None }) {
        Some(TextRange { start: self.start.checked_add(o)?, end: self.end.checked_add(o)? }) }
    pub fn checked_sub(self, o: TextSize) -> (r: Option<TextRange>) requires self.wf()
        ensures r == (if self.start.raw >= o.raw { Some(TextRange { start: TextSize { raw: (self.start.raw - o.raw) as u32 }, end: TextSize { raw: (self.end.raw - o.raw) as u32 } }) } else { None }) {
        Some(TextRange { start: self.start.checked_sub(o)?, end: self.end.checked_sub(o)? }) }
}
impl vstd::std_specs::ops::AddSpecImpl<TextSize> for TextRange {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: TextSize) -> bool { self.wf() && self.end.raw + o.raw <= u32::MAX }
  open spec fn add_spec(self, o: TextSize) -> TextRange { TextRange { start: TextSize { raw: (self.start.raw + o.raw) as u32 }, end: TextSize { raw: (self.end.raw + o.raw) as u32 } } }
}
impl std::ops::Add<TextSize> for TextRange { type Output = TextRange; fn add(self, o: TextSize) -> TextRange { TextRange { start: self.start + o, end: self.end + o } } }
impl vstd::std_specs::ops::SubSpecImpl<TextSize> for TextRange {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: TextSize) -> bool { self.wf() && self.start.raw >= o.raw }
  open spec fn sub_spec(self, o: TextSize) -> TextRange { TextRange { start: TextSize { raw: (self.start.raw - o.raw) as u32 }, end: TextSize { raw: (self.end.raw - o.raw) as u32 } } }
}
impl std::ops::Sub<TextSize> for TextRange { type Output = TextRange; fn sub(self, o: TextSize) -> TextRange { TextRange { start: self.start - o, end: self.end - o } } }

/// a character boundary of a text with bytes b
pub open spec fn boundary(b: Seq<u8>, i: int) -> bool { 0 <= i <= b.len() && vstd::utf8::valid_utf8(b.take(i)) }
/// trusted: `String::replace_range(a..z, with)`
#[verifier::external_body]
pub fn vx_replace_range(s: &mut String, a: usize, z: usize, with: &str)
    requires a <= z, boundary(vstd::utf8::encode_utf8(old(s)@), a as int), boundary(vstd::utf8::encode_utf8(old(s)@), z as int),
    ensures ({ let b = vstd::utf8::encode_utf8(old(s)@); vstd::utf8::encode_utf8(final(s)@) == b.take(a as int) + vstd::utf8::encode_utf8(with@) + b.skip(z as int) }),
{ s.replace_range(a..z, with) }
