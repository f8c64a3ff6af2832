//! A minimal JSON reader/writer for the driver protocol (no code under test involved).
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq)]
pub enum J { Null, Bool(bool), Int(i128), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(v) = self { for (n, x) in v { if n == k { return x; } } }
        &J::Null
    }
    pub fn s(&self) -> &str { if let J::Str(s) = self { s } else { panic!("protocol: not a string: {}", self.text()) } }
    pub fn i(&self) -> i128 { if let J::Int(i) = self { *i } else { panic!("protocol: not an int: {}", self.text()) } }
    pub fn b(&self) -> bool { if let J::Bool(b) = self { *b } else { panic!("protocol: not a bool: {}", self.text()) } }
    pub fn bo(&self, d: bool) -> bool { if let J::Bool(b) = self { *b } else { d } }
    pub fn a(&self) -> &[J] { if let J::Arr(v) = self { v } else { panic!("protocol: not an array: {}", self.text()) } }
    pub fn is_null(&self) -> bool { if let J::Null = self { true } else { false } }
    pub fn text(&self) -> String { let mut s = String::new(); self.write(&mut s); s }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => { let _ = write!(o, "{}", i); }
            J::Str(s) => wstr(s, o),
            J::Arr(v) => { o.push('['); for (n, x) in v.iter().enumerate() { if n > 0 { o.push(','); } x.write(o); } o.push(']'); }
            J::Obj(v) => { o.push('{'); for (n, (k, x)) in v.iter().enumerate() { if n > 0 { o.push(','); } wstr(k, o); o.push(':'); x.write(o); } o.push('}'); }
        }
    }
}

fn wstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || c as u32 == 0x2028 || c as u32 == 0x2029 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}

pub fn st<S: Into<String>>(s: S) -> J { J::Str(s.into()) }
pub fn ob(v: Vec<(&str, J)>) -> J { J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }

pub fn parse(s: &str) -> Result<J, String> {
    let c: Vec<char> = s.chars().collect();
    let mut p = 0;
    let v = val(&c, &mut p)?;
    ws(&c, &mut p);
    if p != c.len() { return Err(format!("trailing data at {}", p)); }
    Ok(v)
}
fn ws(c: &[char], p: &mut usize) { while *p < c.len() && c[*p].is_whitespace() { *p += 1; } }
fn lit(c: &[char], p: &mut usize, w: &str) -> Result<(), String> {
    for x in w.chars() { if *p >= c.len() || c[*p] != x { return Err(format!("bad literal at {}", p)); } *p += 1; }
    Ok(())
}
fn val(c: &[char], p: &mut usize) -> Result<J, String> {
    ws(c, p);
    if *p >= c.len() { return Err("eof".to_string()); }
    match c[*p] {
        'n' => { lit(c, p, "null")?; Ok(J::Null) }
        't' => { lit(c, p, "true")?; Ok(J::Bool(true)) }
        'f' => { lit(c, p, "false")?; Ok(J::Bool(false)) }
        '"' => Ok(J::Str(string(c, p)?)),
        '[' => {
            *p += 1; let mut v = vec![];
            ws(c, p);
            if *p < c.len() && c[*p] == ']' { *p += 1; return Ok(J::Arr(v)); }
            loop {
                v.push(val(c, p)?); ws(c, p);
                match c.get(*p) { Some(',') => { *p += 1; } Some(']') => { *p += 1; return Ok(J::Arr(v)); } _ => return Err(format!("array at {}", p)) }
            }
        }
        '{' => {
            *p += 1; let mut v = vec![];
            ws(c, p);
            if *p < c.len() && c[*p] == '}' { *p += 1; return Ok(J::Obj(v)); }
            loop {
                ws(c, p); let k = string(c, p)?; ws(c, p); lit(c, p, ":")?;
                v.push((k, val(c, p)?)); ws(c, p);
                match c.get(*p) { Some(',') => { *p += 1; } Some('}') => { *p += 1; return Ok(J::Obj(v)); } _ => return Err(format!("object at {}", p)) }
            }
        }
        _ => {
            let s = *p;
            while *p < c.len() && (c[*p] == '-' || c[*p].is_ascii_digit()) { *p += 1; }
            let t: String = c[s..*p].iter().collect();
            t.parse::<i128>().map(J::Int).map_err(|e| format!("number '{}' at {}: {}", t, s, e))
        }
    }
}
fn string(c: &[char], p: &mut usize) -> Result<String, String> {
    lit(c, p, "\"")?;
    let mut o = String::new();
    loop {
        let x = *c.get(*p).ok_or("eof in string")?; *p += 1;
        match x {
            '"' => return Ok(o),
            '\\' => {
                let e = *c.get(*p).ok_or("eof in string")?; *p += 1;
                match e {
                    'n' => o.push('\n'), 't' => o.push('\t'), 'r' => o.push('\r'), 'b' => o.push('\u{8}'), 'f' => o.push('\u{c}'),
                    'u' => {
                        let mut u = hex4(c, p)?;
                        if u >= 0xd800 && u < 0xdc00 {
                            lit(c, p, "\\u")?;
                            let l = hex4(c, p)?;
                            u = 0x10000 + ((u - 0xd800) << 10) + (l.wrapping_sub(0xdc00));
                        }
                        o.push(std::char::from_u32(u).ok_or("bad code point")?);
                    }
                    e => o.push(e),
                }
            }
            x => o.push(x),
        }
    }
}
fn hex4(c: &[char], p: &mut usize) -> Result<u32, String> {
    if *p + 4 > c.len() { return Err("eof in \\u".to_string()); }
    let t: String = c[*p..*p + 4].iter().collect(); *p += 4;
    u32::from_str_radix(&t, 16).map_err(|e| e.to_string())
}
