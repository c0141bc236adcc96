//! Writes data as TOML in randomly chosen, but always valid, forms.
use crate::jschema::I;
use crate::rng::Rng;

pub fn key(k: &str) -> String {
    if !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') { k.to_string() } else { basic(k) }
}
pub fn basic(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn scalar(i: &I, r: &mut Rng) -> String {
    match i {
        I::Bool(b) => b.to_string(),
        I::Int(n) => match r.below(12) {
            0 if *n >= 0 => format!("0x{n:x}"),
            1 if *n >= 0 => format!("+{n}"),
            2 if *n >= 0 => format!("0b{n:b}"),
            _ => n.to_string(),
        },
        I::Float(f) => {
            let s = format!("{f:?}");
            if s.contains(['.', 'e', 'n']) { s.replace("NaN", "nan") } else { format!("{s}.0") }
        }
        I::Str(s) => {
            if r.chance(1, 3) && !s.contains(['\'', '\n', '\r']) && s.chars().all(|c| c as u32 >= 32 && c as u32 != 127) {
                format!("'{s}'")
            } else {
                basic(s)
            }
        }
        I::Date(s) => s.clone(),
        _ => inline(i, r),
    }
}
pub fn inline(i: &I, r: &mut Rng) -> String {
    match i {
        I::Arr(a) => {
            let v: Vec<String> = a.iter().map(|x| inline(x, r)).collect();
            if r.chance(1, 4) && !v.is_empty() && v.iter().all(|x| !x.contains('\n')) { format!("[\n  {},\n]", v.join(",\n  ")) } else { format!("[{}]", v.join(", ")) }
        }
        I::Obj(o) => {
            let v: Vec<String> = o.iter().map(|(k, x)| format!("{} = {}", key(k), inline(x, r))).collect();
            if v.is_empty() { "{}".into() } else { format!("{{ {} }}", v.join(", ")) }
        }
        _ => scalar(i, r),
    }
}
/// a value that may not span lines (inside inline tables of TOML 1.0 arrays still may; kept simple)
fn one_line(i: &I, r: &mut Rng) -> String {
    inline(i, r)
}
fn dotted(prefix: &str, o: &[(String, I)], out: &mut String, r: &mut Rng) {
    for (k, v) in o {
        let p = format!("{prefix}.{}", key(k));
        match v {
            I::Obj(x) if !x.is_empty() && r.chance(1, 2) => dotted(&p, x, out, r),
            _ => out.push_str(&format!("{p} = {}\n", one_line(v, r))),
        }
    }
}
fn table(path: &[String], o: &[(String, I)], out: &mut String, r: &mut Rng) {
    let mut later: Vec<(&String, &I)> = vec![];
    for (k, v) in o {
        match v {
            I::Obj(x) => match r.below(4) {
                0 => out.push_str(&format!("{} = {}\n", key(k), one_line(v, r))),
                1 if !x.is_empty() => dotted(&key(k), x, out, r),
                _ => later.push((k, v)),
            },
            I::Arr(a) if !a.is_empty() && a.iter().all(|x| matches!(x, I::Obj(_))) && r.chance(2, 3) => later.push((k, v)),
            _ => out.push_str(&format!("{} = {}\n", key(k), one_line(v, r))),
        }
    }
    for (k, v) in later {
        let mut p = path.to_vec();
        p.push(key(k));
        match v {
            I::Obj(x) => {
                out.push_str(&format!("\n[{}]\n", p.join(".")));
                table(&p, x, out, r);
            }
            I::Arr(a) => {
                for x in a {
                    let I::Obj(x) = x else { unreachable!() };
                    out.push_str(&format!("\n[[{}]]\n", p.join(".")));
                    table(&p, x, out, r);
                }
            }
            _ => unreachable!(),
        }
    }
}
/// a document with exactly this data
pub fn doc(o: &[(String, I)], r: &mut Rng) -> String {
    let mut out = String::new();
    table(&[], o, &mut out, r);
    out
}
