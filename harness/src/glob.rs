//! A small glob matcher of our own: `*`, `?`, `[...]`, `{a,b}` within a segment, `**` for any number of segments.
fn braces(p: &str) -> Vec<String> {
    let Some(i) = p.find('{') else { return vec![p.into()] };
    let Some(j) = p[i..].find('}').map(|j| i + j) else { return vec![p.into()] };
    p[i + 1..j].split(',').flat_map(|alt| braces(&format!("{}{alt}{}", &p[..i], &p[j + 1..]))).collect()
}
fn seg(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|k| seg(&p[1..], &s[k..])),
        Some('?') => !s.is_empty() && seg(&p[1..], &s[1..]),
        Some('[') => {
            let Some(e) = p[1..].iter().position(|c| *c == ']').map(|e| e + 1) else { return false };
            let Some(c) = s.first() else { return false };
            let mut set = &p[1..e];
            let neg = matches!(set.first(), Some('!' | '^'));
            if neg {
                set = &set[1..];
            }
            let mut hit = false;
            let mut i = 0;
            while i < set.len() {
                if i + 2 < set.len() && set[i + 1] == '-' {
                    hit |= set[i] <= *c && *c <= set[i + 2];
                    i += 3;
                } else {
                    hit |= set[i] == *c;
                    i += 1;
                }
            }
            hit != neg && seg(&p[e + 1..], &s[1..])
        }
        Some(c) => s.first() == Some(c) && seg(&p[1..], &s[1..]),
    }
}
fn segs(p: &[&str], s: &[&str]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(&"**") if p.len() == 1 => !s.is_empty(),
        Some(&"**") => (0..=s.len()).any(|k| segs(&p[1..], &s[k..])),
        Some(x) => {
            !s.is_empty() && seg(&x.chars().collect::<Vec<_>>(), &s[0].chars().collect::<Vec<_>>()) && segs(&p[1..], &s[1..])
        }
    }
}
pub fn matches(pattern: &str, path: &str) -> bool {
    braces(pattern).iter().any(|p| segs(&p.split('/').collect::<Vec<_>>(), &path.split('/').collect::<Vec<_>>()))
}
