//! The neutral value model, and the conversions into it from tombi and from the independent TOML readers.
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum V {
    Str(String),
    Int(i64),
    Float(f64),
    Bool(bool),
    /// canonical date-time text (upper-case T/Z, fraction without trailing zeros, seconds always written)
    Dt(String),
    Arr(Vec<V>),
    Tab(Vec<(String, V)>),
}

impl V {
    pub fn canon(&self, ordered: bool) -> String {
        let mut s = String::new();
        self.write(&mut s, ordered);
        s
    }
    fn write(&self, o: &mut String, ordered: bool) {
        match self {
            V::Str(s) => {
                let _ = write!(o, "{s:?}");
            }
            V::Int(i) => {
                let _ = write!(o, "{i}");
            }
            V::Float(f) => {
                if f.is_nan() {
                    o.push_str("f:nan")
                } else {
                    let _ = write!(o, "f:{f:?}");
                }
            }
            V::Bool(b) => {
                let _ = write!(o, "{b}");
            }
            V::Dt(d) => {
                let _ = write!(o, "dt:{d}");
            }
            V::Arr(a) => {
                o.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    v.write(o, ordered);
                }
                o.push(']');
            }
            V::Tab(t) => {
                o.push('{');
                let mut idx: Vec<usize> = (0..t.len()).collect();
                if !ordered {
                    idx.sort_by(|a, b| t[*a].0.cmp(&t[*b].0));
                }
                for (n, i) in idx.into_iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "{:?}:", t[i].0);
                    t[i].1.write(o, ordered);
                }
                o.push('}');
            }
        }
    }
    /// with CRLF inside strings read as LF (a reader may normalise line ends of multi-line strings)
    pub fn lf(&self) -> V {
        match self {
            V::Str(s) => V::Str(s.replace("\r\n", "\n")),
            V::Arr(a) => V::Arr(a.iter().map(V::lf).collect()),
            V::Tab(t) => V::Tab(t.iter().map(|(k, v)| (k.clone(), v.lf())).collect()),
            x => x.clone(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            V::Arr(a) => 1 + a.iter().map(V::depth).max().unwrap_or(0),
            V::Tab(t) => 1 + t.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn leaves(&self) -> usize {
        match self {
            V::Arr(a) => a.iter().map(V::leaves).sum(),
            V::Tab(t) => t.iter().map(|x| x.1.leaves()).sum(),
            _ => 1,
        }
    }
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Tab(t) => t.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
}

/// canonical date-time text; `None` if it does not look like one
pub fn canon_dt(s: &str) -> String {
    let mut s: String = s.trim().to_string();
    // delimiter
    if s.len() > 10 && s.as_bytes()[4] == b'-' {
        let d = s.as_bytes()[10];
        if d == b' ' || d == b't' {
            s.replace_range(10..11, "T");
        }
    }
    s = s.replace('z', "Z");
    // split off offset
    let (date, time) = if s.len() > 10 && s.as_bytes()[4] == b'-' {
        (s[..10].to_string(), s[11..].to_string())
    } else if s.len() == 10 && s.as_bytes()[4] == b'-' {
        return s;
    } else {
        (String::new(), s.clone())
    };
    let (t, off) = if let Some(p) = time.find(['Z', '+', '-']) {
        (time[..p].to_string(), time[p..].to_string())
    } else {
        (time, String::new())
    };
    let off = if off == "+00:00" || off == "-00:00" { "Z".to_string() } else { off };
    let mut t = t;
    if t.matches(':').count() == 1 {
        t.push_str(":00");
    }
    if let Some(p) = t.find('.') {
        let frac = t[p + 1..].trim_end_matches('0');
        // nanosecond precision is all the readers keep
        let frac = &frac[..frac.len().min(9)];
        let frac = frac.trim_end_matches('0').to_string();
        t.truncate(p);
        if !frac.is_empty() {
            t.push('.');
            t.push_str(&frac);
        }
    }
    if date.is_empty() { format!("{t}{off}") } else { format!("{date}T{t}{off}") }
}

// ---- TOML 1.1 reader (crate `toml` 1.1.8)
pub fn ref11(src: &str) -> Result<V, String> {
    let t: toml11::Table = toml11::from_str(src).map_err(|e| e.message().to_string())?;
    fn conv(v: toml11::Value) -> V {
        match v {
            toml11::Value::String(s) => V::Str(s),
            toml11::Value::Integer(i) => V::Int(i),
            toml11::Value::Float(f) => V::Float(f),
            toml11::Value::Boolean(b) => V::Bool(b),
            toml11::Value::Datetime(d) => V::Dt(canon_dt(&d.to_string())),
            toml11::Value::Array(a) => V::Arr(a.into_iter().map(conv).collect()),
            toml11::Value::Table(t) => V::Tab(t.into_iter().map(|(k, v)| (k, conv(v))).collect()),
        }
    }
    Ok(V::Tab(t.into_iter().map(|(k, v)| (k, conv(v))).collect()))
}

// ---- TOML 1.0 reader (crate `toml_edit` 0.20.2)
pub fn ref10(src: &str) -> Result<V, String> {
    let d: toml10::Document = src.parse().map_err(|e: toml10::TomlError| e.message().to_string())?;
    fn val(v: &toml10::Value) -> V {
        match v {
            toml10::Value::String(s) => V::Str(s.value().clone()),
            toml10::Value::Integer(i) => V::Int(*i.value()),
            toml10::Value::Float(f) => V::Float(*f.value()),
            toml10::Value::Boolean(b) => V::Bool(*b.value()),
            toml10::Value::Datetime(d) => V::Dt(canon_dt(&d.value().to_string())),
            toml10::Value::Array(a) => V::Arr(a.iter().map(val).collect()),
            toml10::Value::InlineTable(t) => V::Tab(t.iter().map(|(k, v)| (k.to_string(), val(v))).collect()),
        }
    }
    fn item(i: &toml10::Item) -> V {
        match i {
            toml10::Item::None => V::Tab(vec![]),
            toml10::Item::Value(v) => val(v),
            toml10::Item::Table(t) => V::Tab(t.iter().map(|(k, v)| (k.to_string(), item(v))).collect()),
            toml10::Item::ArrayOfTables(a) => V::Arr(
                a.iter().map(|t| V::Tab(t.iter().map(|(k, v)| (k.to_string(), item(v))).collect())).collect(),
            ),
        }
    }
    Ok(V::Tab(d.as_table().iter().map(|(k, v)| (k.to_string(), item(v))).collect()))
}

pub fn reference(src: &str, v11: bool) -> Result<V, String> {
    if v11 { ref11(src) } else { ref10(src) }
}

// ---- tombi
pub fn from_tree(v: &tombi_document_tree::Value) -> Result<V, String> {
    use tombi_document_tree::Value as T;
    Ok(match v {
        T::Boolean(b) => V::Bool(b.value()),
        T::Integer(i) => V::Int(i.value()),
        T::Float(f) => V::Float(f.value()),
        T::String(s) => V::Str(s.value().to_string()),
        T::OffsetDateTime(d) => V::Dt(canon_dt(&d.value().to_string())),
        T::LocalDateTime(d) => V::Dt(canon_dt(&d.value().to_string())),
        T::LocalDate(d) => V::Dt(canon_dt(&d.value().to_string())),
        T::LocalTime(d) => V::Dt(canon_dt(&d.value().to_string())),
        T::Array(a) => V::Arr(a.values().iter().map(from_tree).collect::<Result<_, _>>()?),
        T::Table(t) => from_table(t)?,
        T::Incomplete { .. } => return Err("incomplete".into()),
    })
}
pub fn from_table(t: &tombi_document_tree::Table) -> Result<V, String> {
    Ok(V::Tab(
        t.key_values()
            .iter()
            .map(|(k, v)| Ok((k.value.clone(), from_tree(v)?)))
            .collect::<Result<_, String>>()?,
    ))
}
