//! A small independent TOML token scanner, for texts already known to be valid TOML.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum K {
    Comment,
    Str,
    Punct,
    Word,
    Nl,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub text: String,
    pub start: usize,
    pub line: usize,
}

pub fn scan(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut line = 0;
    let mut v = vec![];
    while i < b.len() {
        let st = i;
        match b[i] {
            b' ' | b'\t' => {
                i += 1;
                continue;
            }
            b'\r' if i + 1 < b.len() && b[i + 1] == b'\n' => {
                v.push(Tok { k: K::Nl, text: "\r\n".into(), start: i, line });
                i += 2;
                line += 1;
                continue;
            }
            b'\n' => {
                v.push(Tok { k: K::Nl, text: "\n".into(), start: i, line });
                i += 1;
                line += 1;
                continue;
            }
            b'#' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
                let mut e = i;
                if e > st && b[e - 1] == b'\r' {
                    e -= 1;
                }
                v.push(Tok { k: K::Comment, text: s[st..e].to_string(), start: st, line });
                i = e;
                continue;
            }
            q @ (b'"' | b'\'') => {
                let triple = i + 2 < b.len() && b[i + 1] == q && b[i + 2] == q;
                let l0 = line;
                if triple {
                    i += 3;
                    loop {
                        if i >= b.len() {
                            break;
                        }
                        if b[i] == b'\\' && q == b'"' {
                            if i + 1 < b.len() && b[i + 1] == b'\n' {
                                line += 1;
                            }
                            i += 2;
                            continue;
                        }
                        if b[i] == b'\n' {
                            line += 1;
                        }
                        if b[i] == q && i + 2 < b.len() && b[i + 1] == q && b[i + 2] == q {
                            i += 3;
                            // up to two extra quotes belong to the string
                            let mut extra = 0;
                            while extra < 2 && i < b.len() && b[i] == q {
                                i += 1;
                                extra += 1;
                            }
                            break;
                        }
                        i += 1;
                    }
                } else {
                    i += 1;
                    while i < b.len() && b[i] != q && b[i] != b'\n' {
                        if b[i] == b'\\' && q == b'"' {
                            i += 1;
                        }
                        i += 1;
                    }
                    i += 1;
                }
                let i2 = i.min(b.len());
                i = i2;
                v.push(Tok { k: K::Str, text: s.get(st..i2).unwrap_or("").to_string(), start: st, line: l0 });
                continue;
            }
            b'[' | b']' | b'{' | b'}' | b',' | b'=' => {
                v.push(Tok { k: K::Punct, text: (b[i] as char).to_string(), start: i, line });
                i += 1;
                continue;
            }
            _ => {
                while i < b.len() && !matches!(b[i], b' ' | b'\t' | b'\r' | b'\n' | b'#' | b'"' | b'\'' | b'[' | b']' | b'{' | b'}' | b',' | b'=') {
                    i += 1;
                }
                if i == st {
                    i += 1;
                    while i < b.len() && !s.is_char_boundary(i) {
                        i += 1;
                    }
                }
                v.push(Tok { k: K::Word, text: s.get(st..i).unwrap_or("").to_string(), start: st, line });
            }
        }
    }
    v
}

/// the unique marker `<m><n><m>` inside a generated comment
pub fn marker(comment: &str, m: char) -> Option<u32> {
    let b: Vec<char> = comment.chars().collect();
    for i in 0..b.len() {
        if b[i] == m && (i == 0 || !b[i - 1].is_alphanumeric()) {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j > i + 1 && j < b.len() && b[j] == m {
                return b[i + 1..j].iter().collect::<String>().parse().ok();
            }
        }
    }
    None
}

// ------------------------------------------------------------------------------------------------- statements
#[derive(Clone, Debug)]
pub struct Stmt {
    /// "[", "[[" or "="
    pub kind: &'static str,
    /// the decoded keys as written
    pub keys: Vec<String>,
    /// index of the section header statement this key-value is under
    pub section: Option<usize>,
    pub first: usize,
    /// one past the last token of the value or header
    pub last: usize,
    pub start_line: usize,
    pub end_line: usize,
    /// stable name: section path with occurrence number, then the keys
    pub id: String,
}

pub fn decode_key(t: &Tok) -> Option<Vec<String>> {
    match t.k {
        K::Str => {
            let v = crate::val::ref11(&format!("x={}", t.text)).ok()?;
            match v.get("x")? {
                crate::val::V::Str(s) => Some(vec![s.clone()]),
                _ => None,
            }
        }
        K::Word => Some(t.text.split('.').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()),
        _ => None,
    }
}

/// the statements of a valid document, in order
pub fn stmts(toks: &[Tok]) -> Option<Vec<Stmt>> {
    let mut v: Vec<Stmt> = vec![];
    let mut i = 0;
    let mut section: Option<usize> = None;
    let mut occ: std::collections::HashMap<String, usize> = Default::default();
    let end_line = |t: &Tok| t.line + t.text.matches('\n').count();
    while i < toks.len() {
        match toks[i].k {
            K::Nl | K::Comment => {
                i += 1;
                continue;
            }
            _ => {}
        }
        let first = i;
        let mut keys = vec![];
        if toks[i].text == "[" && toks[i].k == K::Punct {
            let aot = toks.get(i + 1).map(|t| t.text == "[" && t.start == toks[i].start + 1).unwrap_or(false);
            i += if aot { 2 } else { 1 };
            while i < toks.len() && toks[i].text != "]" {
                keys.extend(decode_key(&toks[i])?);
                i += 1;
            }
            i += if aot { 2 } else { 1 };
            if i > toks.len() {
                return None;
            }
            let path = format!("{keys:?}");
            let n = occ.entry(path.clone()).or_default();
            *n += 1;
            let id = format!("{path}#{n}");
            section = Some(v.len());
            v.push(Stmt { kind: if aot { "[[" } else { "[" }, keys, section: None, first, last: i, start_line: toks[first].line, end_line: end_line(&toks[i - 1]), id });
        } else {
            while i < toks.len() && toks[i].text != "=" {
                keys.extend(decode_key(&toks[i])?);
                i += 1;
            }
            i += 1;
            let mut depth = 0i32;
            let mut last = i;
            while i < toks.len() {
                let t = &toks[i];
                if t.k == K::Punct && (t.text == "[" || t.text == "{") {
                    depth += 1;
                } else if t.k == K::Punct && (t.text == "]" || t.text == "}") {
                    depth -= 1;
                }
                if depth == 0 && matches!(t.k, K::Nl | K::Comment) {
                    break;
                }
                i += 1;
                last = i;
            }
            if last > toks.len() || last == 0 {
                return None;
            }
            let sid = section.map(|s| v[s].id.clone()).unwrap_or_default();
            let id = format!("{sid}/{keys:?}");
            v.push(Stmt { kind: "=", keys, section, first, last, start_line: toks[first].line, end_line: end_line(&toks[last - 1]), id });
        }
    }
    Some(v)
}

/// where each marked comment of a valid document belongs: "leading of X", "trailing of X", "inside X after n items", "in section S"
pub fn owners(src: &str, mark: char) -> Option<std::collections::BTreeMap<u32, String>> {
    let toks = scan(src);
    let st = stmts(&toks)?;
    let mut out = std::collections::BTreeMap::new();
    let mut si = 0; // next statement not yet passed
    for (i, t) in toks.iter().enumerate() {
        while si < st.len() && st[si].last <= i {
            si += 1;
        }
        if t.k != K::Comment {
            continue;
        }
        let Some(m) = marker(&t.text, mark) else { continue };
        let o = if si < st.len() && st[si].first < i {
            let span = &toks[st[si].first..i];
            let digits = |t: &str, n: usize| t.len() >= n && t.as_bytes()[..n].iter().all(|c| c.is_ascii_digit() || *c == b'-' || *c == b':');
            let mut n = 0;
            for (k, t) in span.iter().enumerate() {
                match t.k {
                    K::Str => n += 1,
                    // `2020-01-01 10:00:00` is one value
                    K::Word if t.text.len() == 10 && digits(&t.text, 10) && span.get(k + 1).is_some_and(|u| u.k == K::Word && u.start == t.start + 11 && u.text.as_bytes().get(2) == Some(&b':')) => {}
                    K::Word => n += t.text.split('.').filter(|s| !s.is_empty()).count(),
                    _ => {}
                }
            }
            // values only: keys and values both keep their order, so counting both is fine, but `a.b` and `a . b` must count alike
            format!("inside {} after {}", st[si].id, n)
        } else if si > 0 && st[si - 1].end_line == t.line {
            format!("trailing of {}", st[si - 1].id)
        } else {
            // own line: does a block of comment lines lead directly to the next statement?
            let mut line = t.line;
            let mut j = i + 1;
            let mut lead = false;
            while j < toks.len() {
                match toks[j].k {
                    K::Nl => {}
                    K::Comment if toks[j].line == line + 1 => line += 1,
                    K::Comment => break,
                    _ => {
                        lead = toks[j].line == line + 1;
                        break;
                    }
                }
                j += 1;
            }
            if lead && si < st.len() {
                format!("leading of {}", st[si].id)
            } else {
                let sec = st[..si].iter().rev().find(|s| s.kind != "=").map(|s| s.id.clone()).unwrap_or_default();
                format!("in section {sec}")
            }
        };
        if out.insert(m, o).is_some() {
            return None; // marker used twice
        }
    }
    Some(out)
}
