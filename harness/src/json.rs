//! Minimal JSON reader and writer (no dependencies are available for this)

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        self.opt(k).unwrap_or_else(|| panic!("harness: no key {} in {:?}", k, self))
    }
    pub fn opt(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => panic!("harness: not an object: {:?}", self),
        }
    }
    pub fn s(&self) -> &str {
        match self { J::S(s) => s, _ => panic!("harness: not a string: {:?}", self) }
    }
    pub fn n(&self) -> i64 {
        match self { J::N(n) => *n, _ => panic!("harness: not a number: {:?}", self) }
    }
    pub fn b(&self) -> bool {
        match self { J::B(b) => *b, _ => panic!("harness: not a bool: {:?}", self) }
    }
    pub fn a(&self) -> &[J] {
        match self { J::A(v) => v, _ => panic!("harness: not an array: {:?}", self) }
    }
    pub fn text(&self) -> String {
        let mut t = String::new();
        self.write(&mut t);
        t
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => o.push_str(&n.to_string()),
            J::S(s) => wstr(s, o),
            J::A(v) => {
                o.push('[');
                v.iter().enumerate().for_each(|(i, x)| {
                    if i > 0 { o.push(',') }
                    x.write(o)
                });
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                v.iter().enumerate().for_each(|(i, (k, x))| {
                    if i > 0 { o.push(',') }
                    wstr(k, o);
                    o.push(':');
                    x.write(o)
                });
                o.push('}')
            }
        }
    }
}

fn wstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                c.encode_utf16(&mut b).iter().for_each(|u| o.push_str(&format!("\\u{:04x}", u)))
            }
            c => o.push(c),
        }
    }
    o.push('"')
}

pub fn s(v: impl Into<String>) -> J { J::S(v.into()) }
pub fn n(v: impl Into<i64>) -> J { J::N(v.into()) }
pub fn a(v: impl IntoIterator<Item = J>) -> J { J::A(v.into_iter().collect()) }
pub fn o<const N: usize>(v: [(&str, J); N]) -> J {
    J::O(v.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

pub fn parse(t: &str) -> J {
    let c: Vec<char> = t.chars().collect();
    let mut p = 0;
    let r = value(&c, &mut p);
    ws(&c, &mut p);
    if p != c.len() { panic!("harness: trailing JSON") }
    r
}

fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && c[*p].is_whitespace() { *p += 1 }
}

fn value(c: &[char], p: &mut usize) -> J {
    ws(c, p);
    match c[*p] {
        '{' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(c, p);
                if c[*p] == '}' { *p += 1; return J::O(v) }
                if c[*p] == ',' { *p += 1; ws(c, p) }
                let k = string(c, p);
                ws(c, p);
                assert_eq!(c[*p], ':', "harness: bad JSON");
                *p += 1;
                v.push((k, value(c, p)))
            }
        }
        '[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(c, p);
                if c[*p] == ']' { *p += 1; return J::A(v) }
                if c[*p] == ',' { *p += 1 }
                v.push(value(c, p))
            }
        }
        '"' => J::S(string(c, p)),
        't' => { *p += 4; J::B(true) }
        'f' => { *p += 5; J::B(false) }
        _ => {
            let b = *p;
            while *p < c.len() && (c[*p] == '-' || c[*p].is_ascii_digit()) { *p += 1 }
            J::N(c[b..*p].iter().collect::<String>().parse().expect("harness: bad number"))
        }
    }
}

fn string(c: &[char], p: &mut usize) -> String {
    assert_eq!(c[*p], '"', "harness: bad JSON string");
    *p += 1;
    let mut u: Vec<u16> = Vec::new();
    let mut r = String::new();
    let flush = |u: &mut Vec<u16>, r: &mut String| {
        r.push_str(&String::from_utf16(u).expect("harness: bad surrogates"));
        u.clear()
    };
    loop {
        let x = c[*p];
        *p += 1;
        if x == '\\' {
            let e = c[*p];
            *p += 1;
            if e == 'u' {
                u.push(u16::from_str_radix(&c[*p..*p + 4].iter().collect::<String>(), 16).expect("harness: hex"));
                *p += 4;
                continue
            }
            flush(&mut u, &mut r);
            r.push(match e { 'n' => '\n', 't' => '\t', 'r' => '\r', 'b' => '\u{8}', 'f' => '\u{c}', e => e })
        } else {
            flush(&mut u, &mut r);
            if x == '"' { return r }
            r.push(x)
        }
    }
}
