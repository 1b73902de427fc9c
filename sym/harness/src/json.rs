pub struct J(String);
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl J {
    pub fn obj() -> J {
        J(String::from("{"))
    }
    pub fn raw(&mut self, k: &str, v: String) -> &mut J {
        if self.0.len() > 1 {
            self.0.push_str(", ");
        }
        self.0.push_str(&format!("{}: {}", quote(k), v));
        self
    }
    pub fn s(&mut self, k: &str, v: &str) -> &mut J {
        self.raw(k, quote(v))
    }
    pub fn n(&mut self, k: &str, v: u64) -> &mut J {
        self.raw(k, v.to_string())
    }
    pub fn f(&mut self, k: &str, v: f64) -> &mut J {
        self.raw(k, format!("{:.3}", v))
    }
    pub fn b(&mut self, k: &str, v: bool) -> &mut J {
        self.raw(k, v.to_string())
    }
    pub fn end(&self) -> String {
        format!("{}}}", self.0)
    }
    pub fn arr(it: impl Iterator<Item = String>) -> String {
        format!("[{}]", it.collect::<Vec<_>>().join(", "))
    }
    pub fn map(it: impl Iterator<Item = (String, String)>) -> String {
        let mut j = J::obj();
        for (k, v) in it {
            j.s(&k, &v);
        }
        j.end()
    }
    pub fn counts(m: &std::collections::BTreeMap<String, u64>) -> String {
        let mut j = J::obj();
        for (k, v) in m {
            j.n(k, *v);
        }
        j.end()
    }
}
