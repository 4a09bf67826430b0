//! Reads the `{:?}` form of a value into a tree and compares it with the JSON form.

use serde_json::Value;

#[derive(Debug, Clone, PartialEq)]
pub enum D {
    /// name and fields
    Struct(String, Vec<(String, D)>),
    /// name (empty: tuple) and parts
    Tuple(String, Vec<D>),
    List(Vec<D>),
    Str(String),
    /// anything else: a number, true, an address, the name of a unit
    Word(String),
}

struct P<'a> {
    t: &'a str,
    i: usize,
}
impl P<'_> {
    fn peek(&self) -> Option<char> {
        self.t[self.i..].chars().next()
    }
    fn eat(&mut self, w: &str) -> bool {
        if self.t[self.i..].starts_with(w) {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, w: &str) -> Result<(), String> {
        if self.eat(w) {
            Ok(())
        } else {
            Err(format!("{w:?} expected at {} of {}", self.i, self.t))
        }
    }
    fn list(&mut self, end: &str) -> Result<Vec<D>, String> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.value()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.need(",")?;
            self.eat(" ");
            if self.eat(end) {
                return Ok(v);
            }
        }
    }
    fn string(&mut self) -> Result<String, String> {
        let mut out = String::new();
        loop {
            let c = self.peek().ok_or("open string")?;
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(out),
                '\\' => {
                    let e = self.peek().ok_or("open escape")?;
                    self.i += e.len_utf8();
                    match e {
                        'n' => out.push('\n'),
                        'r' => out.push('\r'),
                        't' => out.push('\t'),
                        '0' => out.push('\0'),
                        'u' => {
                            self.need("{")?;
                            let j = self.t[self.i..].find('}').ok_or("open escape")? + self.i;
                            let n = u32::from_str_radix(&self.t[self.i..j], 16).map_err(|e| e.to_string())?;
                            out.push(char::from_u32(n).ok_or("no character")?);
                            self.i = j + 1;
                        }
                        o => out.push(o),
                    }
                }
                c => out.push(c),
            }
        }
    }
    fn value(&mut self) -> Result<D, String> {
        if self.eat("\"") {
            return Ok(D::Str(self.string()?));
        }
        if self.eat("[") {
            return Ok(D::List(self.list("]")?));
        }
        if self.eat("(") {
            return Ok(D::Tuple(String::new(), self.list(")")?));
        }
        let rest = &self.t[self.i..];
        let n = rest.find(|c| ",()[]{} ".contains(c)).unwrap_or(rest.len());
        let w = rest[..n].to_string();
        if w.is_empty() {
            return Err(format!("value expected at {} of {}", self.i, self.t));
        }
        self.i += n;
        if self.eat("(") {
            return Ok(D::Tuple(w, self.list(")")?));
        }
        if self.eat(" { ") {
            let mut v = vec![];
            loop {
                let rest = &self.t[self.i..];
                let k = rest.find(": ").ok_or("field expected")?;
                let name = rest[..k].to_string();
                self.i += k + 2;
                v.push((name, self.value()?));
                if self.eat(" }") {
                    return Ok(D::Struct(w, v));
                }
                self.need(", ")?;
            }
        }
        Ok(D::Word(w))
    }
}

pub fn read(t: &str) -> Result<D, String> {
    let mut p = P { t, i: 0 };
    let d = p.value()?;
    if p.i != t.len() {
        return Err(format!("text after the value at {} of {t}", p.i));
    }
    Ok(d)
}

fn number(w: &str, j: &Value) -> bool {
    match j {
        Value::Number(n) => {
            if n.to_string() == w {
                return true;
            }
            match (w.parse::<f64>(), n.as_f64()) {
                (Ok(a), Some(b)) if w.contains(['.', 'e']) || n.is_f64() => a == b || a as f32 == b as f32,
                _ => false,
            }
        }
        Value::Null => matches!(w, "NaN" | "inf" | "-inf"),
        _ => false,
    }
}

/// whether the JSON value says the same; Err names the place
pub fn same(d: &D, j: &Value, at: &str) -> Result<usize, String> {
    let no = || Err(format!("at {at}: the value is {}, its JSON is {}", show(d), clip(&j.to_string())));
    match d {
        D::Str(s) => {
            if j.as_str() == Some(s) {
                Ok(1)
            } else {
                no()
            }
        }
        D::List(v) => match j.as_array() {
            Some(a) if a.len() == v.len() => {
                let mut n = 0;
                for (i, (x, y)) in v.iter().zip(a).enumerate() {
                    n += same(x, y, &format!("{at}[{i}]"))?;
                }
                Ok(n)
            }
            _ => no(),
        },
        D::Word(w) => {
            let ok = match w.as_str() {
                "None" => j.is_null() || j.as_str() == Some("None"),
                "true" => j == &Value::Bool(true),
                "false" => j == &Value::Bool(false),
                w => j.as_str() == Some(w) || number(w, j),
            };
            if ok {
                Ok(1)
            } else {
                no()
            }
        }
        D::Tuple(name, v) => {
            if name == "Some" && v.len() == 1 {
                return if j.is_null() && !matches!(&v[0], D::Word(w) if w == "None" || number(w, j)) { no() } else { same(&v[0], j, at) };
            }
            // the variant of an enum, or a tuple structure on its own
            let inner = match j.as_object() {
                Some(o) if o.len() == 1 && o.contains_key(name) => &o[name],
                _ => j,
            };
            let at = format!("{at}.{name}");
            if v.len() == 1 {
                same(&v[0], inner, &at)
            } else {
                same(&D::List(v.clone()), inner, &at)
            }
        }
        D::Struct(name, fields) => {
            let inner = match j.as_object() {
                Some(o) if o.len() == 1 && o.contains_key(name) => &o[name],
                _ => j,
            };
            let o = match inner.as_object() {
                Some(o) => o,
                None => return no(),
            };
            if o.len() != fields.len() {
                let extra: Vec<&String> = o.keys().filter(|k| !fields.iter().any(|(n, _)| n == *k)).collect();
                let lost: Vec<&String> = fields.iter().map(|(n, _)| n).filter(|n| !o.contains_key(*n)).collect();
                return Err(format!("at {at}: {name}: not in the JSON: {lost:?}, only there: {extra:?}"));
            }
            let mut n = 0;
            for (k, x) in fields {
                match o.get(k) {
                    Some(y) => n += same(x, y, &format!("{at}.{k}"))?,
                    None => return Err(format!("at {at}: {name} has a field {k}, its JSON has not")),
                }
            }
            Ok(n)
        }
    }
}

fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}
fn show(d: &D) -> String {
    clip(&format!("{d:?}"))
}
