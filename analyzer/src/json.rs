//! Minimal JSON reader (rustdoc's item index).
use std::collections::BTreeMap;
#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}
static NULL: J = J::Null;
impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn obj(&self) -> Vec<(&String, &J)> {
        match self {
            J::Obj(m) => m.iter().collect(),
            _ => vec![],
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn truth(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    /// ids are numbers (or strings in older formats)
    pub fn id(&self) -> String {
        match self {
            J::Num(n) => format!("{}", *n as i64),
            J::Str(s) => s.clone(),
            _ => String::new(),
        }
    }
    /// does any object in the tree satisfy `f`
    pub fn any(&self, f: &dyn Fn(&J) -> bool) -> bool {
        f(self)
            || match self {
                J::Arr(v) => v.iter().any(|x| x.any(f)),
                J::Obj(m) => m.values().any(|x| x.any(f)),
                _ => false,
            }
    }
}
pub fn parse(s: &str) -> Option<J> {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i)?;
    ws(b, &mut i);
    (i == b.len()).then_some(v)
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            ws(b, i);
            if *b.get(*i)? == b'}' {
                *i += 1;
                return Some(J::Obj(m));
            }
            loop {
                ws(b, i);
                let J::Str(k) = val(b, i)? else { return None };
                ws(b, i);
                if *b.get(*i)? != b':' {
                    return None;
                }
                *i += 1;
                m.insert(k, val(b, i)?);
                ws(b, i);
                *i += 1;
                match b[*i - 1] {
                    b',' => {}
                    b'}' => return Some(J::Obj(m)),
                    _ => return None,
                }
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            ws(b, i);
            if *b.get(*i)? == b']' {
                *i += 1;
                return Some(J::Arr(v));
            }
            loop {
                v.push(val(b, i)?);
                ws(b, i);
                let c = *b.get(*i)?;
                *i += 1;
                match c {
                    b',' => {}
                    b']' => return Some(J::Arr(v)),
                    _ => return None,
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut o: Vec<u8> = vec![];
            loop {
                let c = *b.get(*i)?;
                *i += 1;
                match c {
                    b'"' => return Some(J::Str(String::from_utf8(o).ok()?)),
                    b'\\' => {
                        let e = *b.get(*i)?;
                        *i += 1;
                        match e {
                            b'n' => o.push(b'\n'),
                            b't' => o.push(b'\t'),
                            b'r' => o.push(b'\r'),
                            b'b' => o.push(8),
                            b'f' => o.push(12),
                            b'u' => {
                                // the text of escapes is not used by any rule
                                *i += 4;
                                o.push(b'?');
                            }
                            x => o.push(x),
                        }
                    }
                    c => o.push(c),
                }
            }
        }
        b't' => {
            *i += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *i += 5;
            Some(J::Bool(false))
        }
        b'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let s = *i;
            while *i < b.len() && matches!(b[*i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *i += 1;
            }
            std::str::from_utf8(&b[s..*i]).ok()?.parse().ok().map(J::Num)
        }
    }
}
