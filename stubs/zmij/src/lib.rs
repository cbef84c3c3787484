//! Stands in for zmij (a vectorised float printer serde_json uses): the shortest decimal that reads
//! back as the same number, which is also what the standard library prints.
pub struct Buffer(String);
impl Buffer {
    pub fn new() -> Buffer {
        Buffer(String::new())
    }
    pub fn format<F: std::fmt::Debug>(&mut self, f: F) -> &str {
        self.format_finite(f)
    }
    pub fn format_finite<F: std::fmt::Debug>(&mut self, f: F) -> &str {
        self.0 = format!("{f:?}");
        &self.0
    }
}
