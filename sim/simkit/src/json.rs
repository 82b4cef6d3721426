//! Just enough JSON for evidence and replay files.
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s<S: Into<String>>(s: S) -> J {
        J::Str(s.into())
    }
    pub fn u(n: u64) -> J {
        J::Int(n as i128)
    }
    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_u64(&self) -> Option<u64> {
        match self {
            J::Int(i) => Some(*i as u64),
            _ => None,
        }
    }
    pub fn as_arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(a) => Some(a),
            _ => None,
        }
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }
    fn write(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => write!(o, "{}", b).unwrap(),
            J::Int(i) => write!(o, "{}", i).unwrap(),
            J::Num(f) => {
                if f.is_finite() {
                    write!(o, "{:.3}", f).unwrap()
                } else {
                    o.push_str("null")
                }
            }
            J::Str(s) => write_str(o, s),
            J::Arr(a) => {
                let flat = a.iter().all(|x| match x {
                    J::Int(_) | J::Num(_) | J::Bool(_) => true,
                    _ => false,
                });
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if flat {
                        if i > 0 {
                            o.push(' ');
                        }
                    } else {
                        nl(o, ind + 1);
                    }
                    x.write(o, ind + 1);
                }
                if !flat && !a.is_empty() {
                    nl(o, ind);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, ind + 1);
                    write_str(o, k);
                    o.push_str(": ");
                    x.write(o, ind + 1);
                }
                if !v.is_empty() {
                    nl(o, ind);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = parse_value(b, &mut p)?;
        skip(b, &mut p);
        if p != b.len() {
            return Err(format!("trailing data at {}", p));
        }
        Ok(v)
    }
}

fn nl(o: &mut String, ind: usize) {
    o.push('\n');
    for _ in 0..ind {
        o.push(' ');
    }
}

fn write_str(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

fn skip(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}

fn parse_value(b: &[u8], p: &mut usize) -> Result<J, String> {
    skip(b, p);
    let c = *b.get(*p).ok_or("unexpected end")?;
    match c {
        b'{' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                skip(b, p);
                if b.get(*p) == Some(&b'}') {
                    *p += 1;
                    return Ok(J::Obj(v));
                }
                if b.get(*p) == Some(&b',') {
                    *p += 1;
                    continue;
                }
                let k = match parse_value(b, p)? {
                    J::Str(s) => s,
                    _ => return Err("key".into()),
                };
                skip(b, p);
                if b.get(*p) != Some(&b':') {
                    return Err("colon".into());
                }
                *p += 1;
                let x = parse_value(b, p)?;
                v.push((k, x));
            }
        }
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                skip(b, p);
                if b.get(*p) == Some(&b']') {
                    *p += 1;
                    return Ok(J::Arr(v));
                }
                if b.get(*p) == Some(&b',') {
                    *p += 1;
                    continue;
                }
                v.push(parse_value(b, p)?);
            }
        }
        b'"' => {
            *p += 1;
            let mut out: Vec<u8> = Vec::new();
            loop {
                let c = *b.get(*p).ok_or("string end")?;
                *p += 1;
                match c {
                    b'"' => return String::from_utf8(out).map(J::Str).map_err(|e| e.to_string()),
                    b'\\' => {
                        let e = *b.get(*p).ok_or("escape")?;
                        *p += 1;
                        match e {
                            b'n' => out.push(b'\n'),
                            b'r' => out.push(b'\r'),
                            b't' => out.push(b'\t'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4).ok_or("u")?)
                                    .map_err(|e| e.to_string())?;
                                let n = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                *p += 4;
                                let ch = std::char::from_u32(n).ok_or("char")?;
                                let mut buf = [0; 4];
                                out.extend(ch.encode_utf8(&mut buf).as_bytes());
                            }
                            x => out.push(x),
                        }
                    }
                    c => out.push(c),
                }
            }
        }
        b't' if b[*p..].starts_with(b"true") => {
            *p += 4;
            Ok(J::Bool(true))
        }
        b'f' if b[*p..].starts_with(b"false") => {
            *p += 5;
            Ok(J::Bool(false))
        }
        b'n' if b[*p..].starts_with(b"null") => {
            *p += 4;
            Ok(J::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && b"+-.eE0123456789".contains(&b[*p]) {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[st..*p]).unwrap();
            if let Ok(i) = t.parse::<i128>() {
                Ok(J::Int(i))
            } else {
                t.parse::<f64>().map(J::Num).map_err(|_| format!("bad value at {}", st))
            }
        }
    }
}
