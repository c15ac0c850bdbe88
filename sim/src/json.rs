//! A minimal JSON reader and writer (the simulator has no dependencies).

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Flt(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn n(x: u64) -> J {
    J::Int(x as i128)
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut o = String::with_capacity(b.len() * 2);
    for x in b {
        o.push(D[(x >> 4) as usize] as char);
        o.push(D[(x & 15) as usize] as char);
    }
    o
}
pub fn unhex(t: &str) -> Vec<u8> {
    let d = |c: u8| -> u8 {
        match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => panic!("bad hex digit"),
        }
    };
    t.as_bytes().chunks(2).map(|p| (d(p[0]) << 4) | d(p[1])).collect()
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|(a, _)| a == k).map(|(_, b)| b).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            J::Int(i) => *i as u64,
            J::Flt(f) => *f as u64,
            _ => 0,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(t) => t,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn fields(&self) -> &[(String, J)] {
        match self {
            J::Obj(v) => v,
            _ => &[],
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => o.push_str(&i.to_string()),
            J::Flt(f) => o.push_str(&format!("{:.3}", f)),
            J::Str(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                            o.push_str(&format!("\\u{:04x}", c as u32))
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn to_s(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    pub fn parse(t: &str) -> Result<J, String> {
        let b = t.as_bytes();
        let mut i = 0;
        let v = val(b, &mut i)?;
        ws(b, &mut i);
        if i != b.len() {
            return Err(format!("trailing data at {i}"));
        }
        Ok(v)
    }
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    if *i >= b.len() {
        return Err("eof".into());
    }
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b.get(*i) == Some(&b'}') {
                    *i += 1;
                    return Ok(J::Obj(v));
                }
                if !v.is_empty() {
                    if b.get(*i) != Some(&b',') {
                        return Err(format!("expected , at {i}"));
                    }
                    *i += 1;
                    ws(b, i);
                }
                let k = match val(b, i)? {
                    J::Str(k) => k,
                    _ => return Err("key".into()),
                };
                ws(b, i);
                if b.get(*i) != Some(&b':') {
                    return Err(format!("expected : at {i}"));
                }
                *i += 1;
                v.push((k, val(b, i)?));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b.get(*i) == Some(&b']') {
                    *i += 1;
                    return Ok(J::Arr(v));
                }
                if !v.is_empty() {
                    if b.get(*i) != Some(&b',') {
                        return Err(format!("expected , at {i}"));
                    }
                    *i += 1;
                }
                v.push(val(b, i)?);
            }
        }
        b'"' => {
            *i += 1;
            let mut o: Vec<u8> = vec![];
            loop {
                match b.get(*i) {
                    None => return Err("eof in string".into()),
                    Some(b'"') => {
                        *i += 1;
                        return String::from_utf8(o).map(J::Str).map_err(|e| e.to_string());
                    }
                    Some(b'\\') => {
                        let c = *b.get(*i + 1).ok_or("eof")?;
                        *i += 2;
                        match c {
                            b'n' => o.push(b'\n'),
                            b't' => o.push(b'\t'),
                            b'r' => o.push(b'\r'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*i..*i + 4).ok_or("eof")?)
                                    .map_err(|e| e.to_string())?;
                                let c = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                *i += 4;
                                let c = char::from_u32(c).unwrap_or('?');
                                let mut t = [0; 4];
                                o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                            }
                            c => o.push(c),
                        }
                    }
                    Some(&c) => {
                        o.push(c);
                        *i += 1;
                    }
                }
            }
        }
        b't' => lit(b, i, "true", J::Bool(true)),
        b'f' => lit(b, i, "false", J::Bool(false)),
        b'n' => lit(b, i, "null", J::Null),
        _ => {
            let st = *i;
            while *i < b.len() && matches!(b[*i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *i += 1;
            }
            let t = std::str::from_utf8(&b[st..*i]).unwrap();
            if let Ok(x) = t.parse::<i128>() {
                Ok(J::Int(x))
            } else {
                t.parse::<f64>().map(J::Flt).map_err(|_| format!("bad value at {st}"))
            }
        }
    }
}
fn lit(b: &[u8], i: &mut usize, t: &str, v: J) -> Result<J, String> {
    if b[*i..].starts_with(t.as_bytes()) {
        *i += t.len();
        Ok(v)
    } else {
        Err(format!("bad literal at {i}"))
    }
}
