//! Stand-in for the `line-index` crate (its documented behaviour).
pub use syntax::{TextRange, TextSize};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct LineCol { pub line: u32, pub col: u32 }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WideLineCol { pub line: u32, pub col: u32 }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WideEncoding { Utf16, Utf32 }
#[derive(Clone, Debug)]
pub struct LineIndex { text: String, starts: Vec<usize> }
impl WideEncoding {
    pub fn measure(&self, s: &str) -> usize { match self { WideEncoding::Utf16 => s.encode_utf16().count(), WideEncoding::Utf32 => s.chars().count() } }
}
impl LineIndex {
    pub fn new(t: &str) -> LineIndex {
        let mut starts = vec![0];
        starts.extend(t.match_indices('\n').map(|(i, _)| i + 1));
        LineIndex { text: t.to_string(), starts }
    }
    pub fn len(&self) -> TextSize { (self.text.len() as u32).into() }
    pub fn line_col(&self, o: TextSize) -> LineCol {
        let o = usize::from(o);
        assert!(self.text.is_char_boundary(o) && o <= self.text.len(), "invalid offset");
        let line = self.starts.partition_point(|&s| s <= o) - 1;
        LineCol { line: line as u32, col: (o - self.starts[line]) as u32 }
    }
    pub fn offset(&self, p: LineCol) -> Option<TextSize> { Some(((*self.starts.get(p.line as usize)? as u32) + p.col).into()) }
    pub fn line(&self, l: u32) -> Option<TextRange> {
        let s = *self.starts.get(l as usize)?;
        let e = self.starts.get(l as usize + 1).copied().unwrap_or(self.text.len());
        Some(TextRange::new((s as u32).into(), (e as u32).into()))
    }
    fn wide_chars(&self, l: u32) -> Vec<(u32, u32, u32, u32)> {
        // start, utf8, utf16, utf32 lengths of the non-ASCII characters of a line
        let Some(r) = self.line(l) else { return vec![] };
        self.text[usize::from(r.start())..usize::from(r.end())].char_indices().filter(|(_, c)| !c.is_ascii())
            .map(|(i, c)| (i as u32, c.len_utf8() as u32, c.len_utf16() as u32, 1)).collect()
    }
    pub fn to_wide(&self, enc: WideEncoding, p: LineCol) -> Option<WideLineCol> {
        let mut col = p.col;
        for (s, l8, l16, l32) in self.wide_chars(p.line) {
            if s + l8 <= p.col { col -= l8 - if enc == WideEncoding::Utf16 { l16 } else { l32 }; } else { break }
        }
        Some(WideLineCol { line: p.line, col })
    }
    pub fn to_utf8(&self, enc: WideEncoding, p: WideLineCol) -> Option<LineCol> {
        let mut col = p.col;
        for (s, l8, l16, l32) in self.wide_chars(p.line) {
            if col > s { col = col.checked_add(l8 - if enc == WideEncoding::Utf16 { l16 } else { l32 })?; } else { break }
        }
        Some(LineCol { line: p.line, col })
    }
}
impl LineIndex {
    pub fn lines(&self, range: TextRange) -> Vec<TextRange> {
        let (s, e) = (usize::from(range.start()), usize::from(range.end()));
        let mut cuts = vec![s]; cuts.extend(self.starts.iter().copied().filter(|&c| s < c && c < e)); cuts.push(e);
        cuts.windows(2).filter(|w| w[0] < w[1]).map(|w| TextRange::new((w[0] as u32).into(), (w[1] as u32).into())).collect()
    }
}
