//! Stand-in for the encoding crate: UTF-8 with an optional byte order mark, and UTF-16 with one.
pub enum DecoderTrap {
    Strict,
}
pub struct Utf8;
pub mod all {
    pub const UTF_8: &super::Utf8 = &super::Utf8;
}
pub fn decode(b: &[u8], _: DecoderTrap, f: &'static Utf8) -> (Result<String, std::borrow::Cow<'static, str>>, &'static Utf8) {
    let wide = |b: &[u8], g: fn([u8; 2]) -> u16| {
        let v: Vec<u16> = b[2..].chunks(2).map(|c| g([c[0], *c.get(1).unwrap_or(&0)])).collect();
        String::from_utf16(&v).map_err(|_| "invalid sequence".into())
    };
    let r = if b.starts_with(&[0xFF, 0xFE]) {
        wide(b, u16::from_le_bytes)
    } else if b.starts_with(&[0xFE, 0xFF]) {
        wide(b, u16::from_be_bytes)
    } else {
        let b = b.strip_prefix(&[0xEF, 0xBB, 0xBF]).unwrap_or(b);
        std::str::from_utf8(b).map(|x| x.to_string()).map_err(|_| "invalid sequence".into())
    };
    (r, f)
}
