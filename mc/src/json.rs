//! A small JSON value: evidence, replays and documents read through the adapter.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    I(i64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::O(v.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())
    }
    pub fn strs<S: AsRef<str>>(v: &[S]) -> J {
        J::A(v.iter().map(|s| J::s(s.as_ref())).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::S(s) => Some(s),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::A(a) => Some(a),
            _ => None,
        }
    }
    pub fn str_list(&self) -> Option<Vec<String>> {
        self.arr()?.iter().map(|x| x.str().map(|s| s.to_owned())).collect()
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.write(&mut o, None, 0);
        o
    }
    pub fn pretty(&self) -> String {
        let mut o = String::new();
        self.write(&mut o, Some(1), 0);
        o.push('\n');
        o
    }
    fn write(&self, o: &mut String, ind: Option<usize>, lvl: usize) {
        let nl = |o: &mut String, l: usize| {
            if let Some(n) = ind {
                o.push('\n');
                for _ in 0..n * l {
                    o.push(' ');
                }
            }
        };
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => write!(o, "{}", b).unwrap(),
            J::I(i) => write!(o, "{}", i).unwrap(),
            J::F(f) => write!(o, "{:?}", f).unwrap(),
            J::S(s) => quote(s, o),
            J::A(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                        if ind.is_none() {
                            o.push(' ');
                        }
                    }
                    nl(o, lvl + 1);
                    x.write(o, ind, lvl + 1);
                }
                if !a.is_empty() {
                    nl(o, lvl);
                }
                o.push(']');
            }
            J::O(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                        if ind.is_none() {
                            o.push(' ');
                        }
                    }
                    nl(o, lvl + 1);
                    quote(k, o);
                    o.push_str(": ");
                    x.write(o, ind, lvl + 1);
                }
                if !a.is_empty() {
                    nl(o, lvl);
                }
                o.push('}');
            }
        }
    }
}

/// A JSON string literal in ASCII; also a YAML double-quoted scalar.
pub fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c if (c as u32) < 0x7f => o.push(c),
            c => {
                let mut b = [0u16; 2];
                let e = c.encode_utf16(&mut b);
                if e.len() == 1 {
                    write!(o, "\\u{:04x}", e[0]).unwrap();
                } else {
                    o.push(c);
                }
            }
        }
    }
    o.push('"');
}

/// Parses a JSON text.
pub fn parse(s: &str) -> Result<J, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = value(&c, &mut i)?;
    ws(&c, &mut i);
    if i < c.len() {
        return Err(format!("trailing text at {i}"));
    }
    Ok(v)
}
fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && matches!(c[*i], ' ' | '\t' | '\n' | '\r') {
        *i += 1;
    }
}
fn value(c: &[char], i: &mut usize) -> Result<J, String> {
    ws(c, i);
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let lit = |w: &str, i: &mut usize| {
        if c[*i..].starts_with(&w.chars().collect::<Vec<_>>()) {
            *i += w.len();
            true
        } else {
            false
        }
    };
    match at(*i) {
        '{' => {
            *i += 1;
            let mut o = vec![];
            ws(c, i);
            if at(*i) == '}' {
                *i += 1;
                return Ok(J::O(o));
            }
            loop {
                ws(c, i);
                let J::S(k) = value(c, i)? else { return Err(format!("key at {i}")) };
                ws(c, i);
                if at(*i) != ':' {
                    return Err(format!("colon at {i}"));
                }
                *i += 1;
                o.push((k, value(c, i)?));
                ws(c, i);
                match at(*i) {
                    ',' => *i += 1,
                    '}' => {
                        *i += 1;
                        return Ok(J::O(o));
                    }
                    _ => return Err(format!("object at {i}")),
                }
            }
        }
        '[' => {
            *i += 1;
            let mut a = vec![];
            ws(c, i);
            if at(*i) == ']' {
                *i += 1;
                return Ok(J::A(a));
            }
            loop {
                a.push(value(c, i)?);
                ws(c, i);
                match at(*i) {
                    ',' => *i += 1,
                    ']' => {
                        *i += 1;
                        return Ok(J::A(a));
                    }
                    _ => return Err(format!("array at {i}")),
                }
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                match at(*i) {
                    '"' => {
                        *i += 1;
                        return Ok(J::S(s));
                    }
                    '\\' => {
                        *i += 1;
                        let e = at(*i);
                        *i += 1;
                        match e {
                            '"' | '\\' | '/' => s.push(e),
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                let hex = |k: usize| -> Result<u32, String> {
                                    let h: String = c.get(k..k + 4).ok_or("short escape")?.iter().collect();
                                    u32::from_str_radix(&h, 16).map_err(|e| e.to_string())
                                };
                                let mut x = hex(*i)?;
                                *i += 4;
                                if (0xd800..0xdc00).contains(&x) && at(*i) == '\\' && at(*i + 1) == 'u' {
                                    let y = hex(*i + 2)?;
                                    *i += 6;
                                    x = 0x10000 + ((x - 0xd800) << 10) + (y.wrapping_sub(0xdc00) & 0x3ff);
                                }
                                s.push(char::from_u32(x).unwrap_or('\u{fffd}'));
                            }
                            _ => return Err(format!("escape at {i}")),
                        }
                    }
                    '\0' if *i >= c.len() => return Err("unterminated string".into()),
                    x if (x as u32) < 0x20 => return Err(format!("control character at {i}")),
                    x => {
                        s.push(x);
                        *i += 1;
                    }
                }
            }
        }
        't' if lit("true", i) => Ok(J::B(true)),
        'f' if lit("false", i) => Ok(J::B(false)),
        'n' if lit("null", i) => Ok(J::Null),
        x if x == '-' || x.is_ascii_digit() => {
            let st = *i;
            while matches!(at(*i), '-' | '+' | '.' | 'e' | 'E' | '0'..='9') {
                *i += 1;
            }
            let t: String = c[st..*i].iter().collect();
            if let Ok(n) = t.parse::<i64>() {
                return Ok(J::I(n));
            }
            t.parse::<f64>().map(J::F).map_err(|e| e.to_string())
        }
        _ => Err(format!("unexpected text at {i}")),
    }
}
