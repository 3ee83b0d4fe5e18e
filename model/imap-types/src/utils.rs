use std::borrow::Cow;
pub fn escape_byte_string<B: AsRef<[u8]>>(bytes: B) -> String {
    bytes.as_ref().iter().flat_map(|b| std::ascii::escape_default(*b)).map(char::from).collect()
}
pub fn escape_quoted(unescaped: &str) -> Cow<'_, str> {
    Cow::Owned(unescaped.replace('\\', "\\\\").replace('"', "\\\""))
}
pub fn unescape_quoted(escaped: &str) -> Cow<'_, str> {
    Cow::Owned(escaped.replace("\\\\", "\\").replace("\\\"", "\""))
}
pub mod indicators {
    pub fn is_atom_char(b: u8) -> bool {
        b.is_ascii_graphic() && !b"(){%*\"\\]".contains(&b)
    }
    pub fn is_astring_char(b: u8) -> bool {
        is_atom_char(b) || b == b']'
    }
    pub fn is_text_char(b: u8) -> bool {
        b != 0 && b < 128 && b != b'\r' && b != b'\n'
    }
}
