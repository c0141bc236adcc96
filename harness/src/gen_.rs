//! Random TOML documents with adversarial layout: every construct of the grammar, odd spacing, comments everywhere.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub v11: bool,
    /// 0..=100 chance of a comment at each place one is allowed
    pub comments: usize,
    pub crlf: bool,
    pub max_depth: usize,
    pub sections: usize,
    pub kvs: usize,
    pub exotic_keys: bool,
    pub unicode: bool,
    pub datetimes: bool,
    pub multiline_strings: bool,
    pub inline_tables: bool,
    pub odd_space: bool,
    pub marker: &'static str,
}

impl Cfg {
    pub fn random(r: &mut Rng) -> Cfg {
        Cfg {
            v11: r.chance(1, 3),
            comments: *r.pick(&[0, 10, 25, 60]),
            crlf: r.chance(1, 6),
            max_depth: r.range(1, 4),
            sections: *r.pick(&[0, 1, 2, 3, 5, 8]),
            kvs: r.range(1, 5),
            exotic_keys: r.chance(1, 2),
            unicode: r.chance(1, 2),
            datetimes: r.chance(3, 4),
            multiline_strings: r.chance(2, 3),
            inline_tables: r.chance(4, 5),
            odd_space: r.chance(1, 2),
            marker: "c",
        }
    }
}

const NAMES: &[&str] = &[
    "a", "b", "c", "d", "e", "foo", "bar", "baz", "name", "version", "dependencies", "x-y", "k_1", "key10", "key9", "Zed", "A", "_", "-",
    "1", "007", "true", "inf", "nan", "2020-01-01", "1e5", "0x1F",
];
const EXOTIC: &[&str] = &[
    "", " ", "a.b", "ʎǝʞ", "k\"q", "it's", "back\\slash", "tab\there", "日本語", "🦀", "é", "x=y", "#no", "[t]", "a b", "'\"", "café\u{301}", "{}",
];

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub c: Cfg,
    pub out: String,
    n_comment: usize,
    n_key: usize,
}

fn is_bare(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_')
}

pub fn escape_basic(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, c: Cfg) -> Self {
        Gen { r, c, out: String::new(), n_comment: 0, n_key: 0 }
    }
    pub fn doc(r: &mut Rng, c: Cfg) -> String {
        let mut g = Gen::new(r, c);
        g.document();
        g.out
    }
    fn eol(&mut self) {
        let s = if self.c.crlf { "\r\n" } else { "\n" };
        self.out.push_str(s);
    }
    fn ws(&mut self) {
        if self.c.odd_space {
            let s = self.r.pick_str(&["", "", " ", "  ", "\t", " \t "]);
            self.out.push_str(s);
        }
    }
    fn sp(&mut self) {
        if self.c.odd_space { self.ws() } else { self.out.push(' ') }
    }
    fn want_comment(&mut self) -> bool {
        let p = self.c.comments;
        self.r.chance(p, 100)
    }
    fn comment_text(&mut self) -> String {
        self.n_comment += 1;
        let n = self.n_comment;
        let m = self.c.marker;
        match self.r.below(15) {
            12 => format!("{}{m}{n}{m} {}", "#".repeat(self.r.range(2, 40)), "#".repeat(self.r.below(40))),
            13 => format!("# {m}{n}{m} {}", "long ".repeat(self.r.range(5, 40)).trim_end()),
            14 => format!("{}{m}{n}{m}{}", self.r.pick_str(&["#!", "#! ", "#!#", "#  !", "#-", "#\u{a0}", "#:", "#=", "#\t\t", "# \t", "#!!", "#.", "#,"]), self.r.pick_str(&["", "\t", " \u{3000}", " \u{a0}", "\\", " '", " \"\"\"", "]", " ]", "}"])),
            0 => format!("#{m}{n}{m}"),
            1 => format!("#   {m}{n}{m}"),
            2 => format!("## {m}{n}{m}"),
            3 => format!("#\t{m}{n}{m}"),
            4 => format!("# {m}{n}{m}   "),
            5 if self.c.unicode => format!("# {m}{n}{m} 日本語 é 🦀"),
            6 => format!("#! {m}{n}{m} \"quote' = [x] {{"),
            7 => format!("# {m}{n}{m} # nested"),
            8 => format!("#{m}{n}{m}#"),
            _ => format!("# {m}{n}{m} text"),
        }
    }
    fn blank_lines(&mut self, max: usize) {
        for _ in 0..self.r.below(max + 1) {
            if self.c.odd_space && self.r.chance(1, 4) {
                self.ws();
            }
            self.eol();
        }
    }
    /// own-line comments, possibly in groups separated by blank lines
    fn comment_lines(&mut self) {
        while self.want_comment() {
            self.ws();
            let t = self.comment_text();
            self.out.push_str(&t);
            self.eol();
            if self.r.chance(1, 4) {
                self.blank_lines(2);
            }
            if self.r.chance(1, 3) {
                break;
            }
        }
    }
    fn line_end(&mut self) {
        self.ws();
        if self.want_comment() {
            if !self.c.odd_space {
                self.out.push_str("  ");
            }
            let t = self.comment_text();
            self.out.push_str(&t);
        }
        self.eol();
    }

    pub fn key_repr(&mut self, name: &str) -> String {
        let q = self.r.below(6);
        if is_bare(name) && q < 4 {
            return name.to_string();
        }
        if q % 2 == 0 && !name.contains('\'') && !name.chars().any(|c| (c.is_control() && c != '\t')) {
            return format!("'{name}'");
        }
        if self.r.chance(1, 8) && !name.is_empty() {
            // a unicode escape for the first char
            let ch = name.chars().next().unwrap();
            let rest: String = name.chars().skip(1).collect();
            let u = ch as u32;
            let e = if u <= 0xffff { format!("\\u{u:04X}") } else { format!("\\U{u:08X}") };
            return format!("\"{e}{}\"", escape_basic(&rest));
        }
        format!("\"{}\"", escape_basic(name))
    }
    fn fresh_name(&mut self, used: &mut BTreeSet<String>) -> String {
        for _ in 0..8 {
            let n: String = if self.c.exotic_keys && self.r.chance(1, 4) {
                self.r.pick_str(EXOTIC).to_string()
            } else {
                self.r.pick_str(NAMES).to_string()
            };
            if !self.c.unicode && !n.is_ascii() {
                continue;
            }
            if used.insert(n.clone()) {
                return n;
            }
        }
        self.n_key += 1;
        let n = format!("u{}", self.n_key);
        used.insert(n.clone());
        n
    }
    fn path_repr(&mut self, p: &[String]) -> String {
        let mut s = String::new();
        for (i, k) in p.iter().enumerate() {
            if i > 0 {
                let d = if self.c.odd_space && self.r.chance(1, 4) { self.r.pick_str(&[" .", ". ", " . ", "\t."]) } else { "." };
                s.push_str(d);
            }
            let k = self.key_repr(k);
            s.push_str(&k);
        }
        s
    }

    // ---------------------------------------------------------------- values
    pub fn string_value(&mut self) -> String {
        let plain: &[&'static str] = &["", "x", "hello world", "1.2.3", "a#b", "C:\\temp", "it's", "say \"hi\"", "[x]", "a = 1", "trailing ", " lead", "\t", "1", "true"];
        let uni: &[&'static str] = &["日本語", "é\u{301}", "🦀🦀", "\u{7f}", "\u{1}", "\u{feff}", "line\nbreak", "a\r\nb", "\u{85}", "\u{2028}", "\\", "'''", "\"\"\"", "\u{10ffff}", "👨‍👩‍👧"];
        if self.r.chance(1, 10) {
            // put together from pieces, often long
            let mut s = String::new();
            for _ in 0..self.r.range(1, 40) {
                let p: &[&'static str] = if self.c.unicode && self.r.chance(1, 6) { uni } else { plain };
                s.push_str(self.r.pick_str(p));
            }
            return s;
        }
        if self.c.unicode && self.r.chance(1, 3) { self.r.pick_str(uni).to_string() } else { self.r.pick_str(plain).to_string() }
    }
    pub fn string_lit(&mut self) -> String {
        let s = self.string_value();
        let no_ctl = !s.chars().any(|c| c.is_control() && c != '\t' || c == '\u{7f}');
        let no_ctl = no_ctl || s.chars().all(|c| !(c as u32 > 0x9f && c.is_control()) && !((c as u32) < 0x20 && c != '\t') && c != '\u{7f}');
        match self.r.below(5) {
            0 if !s.contains('\'') && no_ctl && !s.contains('\n') => format!("'{s}'"),
            1 if self.c.multiline_strings => self.ml_basic(),
            2 if self.c.multiline_strings => self.ml_literal(),
            3 => {
                let esc = self.r.pick_str(&["\\b", "\\f", "\\u00E9", "\\U0001F980", "\\\\", "\\\"", "\\u0000", "\\t", "\\n", "\\r"]);
                let extra = if self.c.v11 && self.r.chance(1, 3) { self.r.pick_str(&["\\e", "\\x41", "\\x00", "\\x7f"]) } else { "" };
                format!("\"{}{}{}\"", escape_basic(&s), esc, extra)
            }
            _ => format!("\"{}\"", escape_basic(&s)),
        }
    }
    fn ml_body(&mut self, lit: bool) -> String {
        let nl = if self.c.crlf { "\r\n" } else { "\n" };
        let q = if lit { '\'' } else { '"' };
        let mut s = String::new();
        if self.r.chance(1, 2) {
            s.push_str(nl);
        }
        for _ in 0..self.r.below(5) {
            match self.r.below(9) {
                0 => s.push_str("word "),
                1 => s.push_str(nl),
                2 => s.push_str("  indented"),
                3 => {
                    s.push(q);
                    s.push('x');
                }
                4 => {
                    s.push(q);
                    s.push(q);
                    s.push(' ');
                }
                5 => s.push_str("# not a comment"),
                6 if !lit => s.push_str(self.r.pick_str(&["\\n", "\\\\", "\\\"", "\\u00e9", "\\t"])),
                7 if !lit => {
                    s.push('\\');
                    if self.r.chance(1, 3) {
                        s.push_str("  ");
                    }
                    s.push_str(nl);
                    if self.r.chance(1, 2) {
                        s.push_str(nl);
                        s.push_str("   ");
                    }
                }
                _ => {
                    s.push_str("tail \t ");
                    s.push_str(nl);
                }
            }
        }
        if self.r.chance(1, 4) {
            if s.ends_with(q) {
                s.push('z');
            }
            s.push(q);
            if self.r.chance(1, 2) {
                s.push(q);
            }
        }
        s
    }
    pub fn ml_basic(&mut self) -> String {
        let b = self.ml_body(false);
        format!("\"\"\"{b}\"\"\"")
    }
    pub fn ml_literal(&mut self) -> String {
        let b = self.ml_body(true);
        format!("'''{b}'''")
    }
    pub fn int_lit(&mut self) -> String {
        match self.r.below(8) {
            0 => self.r.pick_str(&["0", "-0", "+0", "+1", "-17", "1_000", "5_349_221", "9223372036854775807", "-9223372036854775808"]).to_string(),
            1 => format!("0x{:X}", self.r.below(1 << 40)),
            2 => self.r.pick_str(&["0xdead_beef", "0xDEADBEEF", "0x00", "0xa", "0x7fffffffffffffff", "0xE1"]).to_string(),
            3 => format!("0o{:o}", self.r.below(1 << 30)),
            4 => format!("0b{:b}", self.r.below(1 << 10)),
            5 => self.r.pick_str(&["0o7_5_5", "0b1_0", "0o01234567", "0b0"]).to_string(),
            6 => format!("-{}", self.r.below(100000)),
            _ => format!("{}", self.r.below(1000)),
        }
    }
    pub fn float_lit(&mut self) -> String {
        match self.r.below(4) {
            0 => self
                .r
                .pick_str(&[
                    "1.0", "+1.5", "-0.01", "5e+22", "1e06", "-2E-2", "6.626e-34", "224_617.445_991_228", "inf", "+inf", "-inf", "nan", "+nan", "-nan", "0.0", "-0.0", "0e0",
                    "1e1_000", "9_0.0_1", "1.7976931348623157e308", "5e-324", "+0.0", "3.0E5", "0.1_2e+1_0",
                ])
                .to_string(),
            1 => format!("{}.{}", self.r.below(1000), self.r.below(1000)),
            2 => format!("-{}.{}e{}", self.r.below(10), self.r.below(1000), self.r.below(20)),
            _ => format!("{}e-{}", self.r.below(10), self.r.below(20)),
        }
    }
    pub fn date_lit(&mut self) -> String {
        let (y, m) = (1900 + self.r.below(200), 1 + self.r.below(12));
        let dim = match m {
            2 => 28,
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
        let d = 1 + self.r.below(dim);
        if m == 2 && self.r.chance(1, 3) {
            return self.r.pick_str(&["2000-02-29", "2024-02-29", "1904-02-29"]).to_string();
        }
        format!("{y:04}-{m:02}-{d:02}")
    }
    pub fn time_lit(&mut self) -> String {
        let (h, m, s) = (self.r.below(24), self.r.below(60), self.r.below(60));
        if self.c.v11 && self.r.chance(1, 4) {
            return format!("{h:02}:{m:02}");
        }
        let f = self.r.pick_str(&["", "", ".5", ".123", ".000001", ".999999999", ".0"]);
        format!("{h:02}:{m:02}:{s:02}{f}")
    }
    pub fn dt_lit(&mut self) -> String {
        match self.r.below(4) {
            0 => self.date_lit(),
            1 => self.time_lit(),
            2 => {
                let d = self.date_lit();
                let t = self.time_lit();
                let x = self.r.pick_str(&["T", "t", " "]);
                format!("{d}{x}{t}")
            }
            _ => {
                let d = self.date_lit();
                let t = self.time_lit();
                let x = self.r.pick_str(&["T", "t", " "]);
                let o = self.r.pick_str(&["Z", "z", "+00:00", "-00:00", "+09:00", "-07:30", "+23:59", "-12:00"]);
                format!("{d}{x}{t}{o}")
            }
        }
    }
    pub fn scalar(&mut self) -> String {
        match self.r.below(12) {
            0..=4 => self.string_lit(),
            5..=6 => self.int_lit(),
            7 => self.float_lit(),
            8 => self.r.pick_str(&["true", "false"]).to_string(),
            9..=10 if self.c.datetimes => self.dt_lit(),
            _ => self.int_lit(),
        }
    }
    fn multi_gap(&mut self, allow: bool) {
        // whitespace / newlines / comments between array items
        if !allow {
            self.ws();
            return;
        }
        match self.r.below(6) {
            0 => self.ws(),
            1 => {
                self.eol();
                self.ws();
            }
            2 => {
                self.line_end();
                self.comment_lines();
                self.ws();
            }
            3 => {
                self.eol();
                self.blank_lines(1);
                self.comment_lines();
                self.ws();
            }
            _ => self.ws(),
        }
    }
    pub fn value(&mut self, depth: usize) {
        let c = self.r.below(10);
        if depth < self.c.max_depth && c < 2 {
            self.array(depth);
        } else if depth < self.c.max_depth && c == 2 && self.c.inline_tables {
            self.inline_table(depth);
        } else {
            let s = self.scalar();
            self.out.push_str(&s);
        }
    }
    pub fn array(&mut self, depth: usize) {
        let multi = self.r.chance(1, 2);
        self.out.push('[');
        let n = *self.r.pick(&[0, 1, 2, 3, 3, 5]);
        let homog = self.r.chance(2, 3);
        let kind = self.r.below(5);
        self.multi_gap(multi);
        for i in 0..n {
            if homog {
                match kind {
                    0 => {
                        let s = self.int_lit();
                        self.out.push_str(&s);
                    }
                    1 if depth + 1 < self.c.max_depth => self.array(depth + 1),
                    2 if self.c.inline_tables && depth + 1 < self.c.max_depth => self.inline_table(depth + 1),
                    3 => {
                        let s = self.float_lit();
                        self.out.push_str(&s);
                    }
                    _ => {
                        let s = self.string_lit();
                        self.out.push_str(&s);
                    }
                }
            } else {
                self.value(depth + 1);
            }
            let last = i + 1 == n;
            if !last {
                let g = multi && self.r.chance(1, 3);
                self.multi_gap(g);
                self.out.push(',');
                self.multi_gap(multi);
            } else {
                self.multi_gap(multi);
                if self.r.chance(1, 4) {
                    self.out.push(',');
                    self.multi_gap(multi);
                }
            }
        }
        self.out.push(']');
    }
    fn r_chance(&mut self, a: usize, b: usize) -> bool {
        self.r.chance(a, b)
    }
    pub fn inline_table(&mut self, depth: usize) {
        let multi = self.c.v11 && self.r.chance(1, 2);
        self.out.push('{');
        self.multi_gap(multi);
        let n = *self.r.pick(&[0, 1, 2, 3]);
        let mut used = BTreeSet::new();
        for i in 0..n {
            let k = self.fresh_name(&mut used);
            if self.r.chance(1, 5) {
                let mut u2 = BTreeSet::new();
                let k2 = self.fresh_name(&mut u2);
                let p = self.path_repr(&[k, k2]);
                self.out.push_str(&p);
            } else {
                let p = self.key_repr(&k);
                self.out.push_str(&p);
            }
            self.sp();
            self.out.push('=');
            self.sp();
            self.value(depth + 1);
            if i + 1 < n {
                let g = multi && self.r.chance(1, 3);
                self.multi_gap(g);
                self.out.push(',');
                self.multi_gap(multi);
            } else {
                self.multi_gap(multi);
                if self.c.v11 && self.r.chance(1, 4) {
                    self.out.push(',');
                    self.multi_gap(multi);
                }
            }
        }
        self.out.push('}');
    }

    // ---------------------------------------------------------------- document
    fn kvs(&mut self, used: &mut BTreeSet<String>, dotted: &mut Vec<String>) {
        let n = self.r.below(self.c.kvs + 1);
        for _ in 0..n {
            self.comment_lines();
            self.ws();
            let c = self.r.below(10);
            if c < 2 {
                let first = if !dotted.is_empty() && self.r.chance(2, 3) {
                    let i = self.r.below(dotted.len());
                    dotted[i].clone()
                } else {
                    let f = self.fresh_name(used);
                    dotted.push(f.clone());
                    f
                };
                self.n_key += 1;
                let mut p = vec![first];
                if self.r.chance(1, 3) {
                    p.push(format!("m{}", self.r.below(2)));
                }
                p.push(format!("k{}", self.n_key));
                let p = self.path_repr(&p);
                self.out.push_str(&p);
            } else {
                let k = self.fresh_name(used);
                let p = self.key_repr(&k);
                self.out.push_str(&p);
            }
            self.sp();
            self.out.push('=');
            self.sp();
            self.value(0);
            self.line_end();
            if self.r.chance(1, 4) {
                self.blank_lines(3);
            }
        }
        if self.r.chance(1, 3) {
            self.comment_lines();
        }
    }
    pub fn document(&mut self) {
        if self.r.chance(1, 5) {
            self.blank_lines(2);
        }
        self.comment_lines();
        if self.r.chance(1, 4) {
            self.blank_lines(2);
        }
        // taken: path -> kind  ('e' explicit table, 'i' implicit, 'v' value/dotted, 'a' array of tables)
        let mut taken: BTreeMap<Vec<String>, char> = BTreeMap::new();
        let mut used = BTreeSet::new();
        let mut dotted = vec![];
        if self.r.chance(3, 4) {
            self.kvs(&mut used, &mut dotted);
        }
        for u in &used {
            taken.insert(vec![u.clone()], 'v');
        }
        let n = self.r.below(self.c.sections + 1);
        for _ in 0..n {
            self.comment_lines();
            self.blank_lines(2);
            self.comment_lines();
            // choose a path
            let bases: Vec<Vec<String>> = taken.iter().filter(|(_, k)| **k != 'v').map(|(p, _)| p.clone()).collect();
            let mut path: Vec<String>;
            let choice = self.r.below(6);
            if choice < 2 || bases.is_empty() {
                let mut u: BTreeSet<String> = taken.keys().filter(|p| p.len() == 1).map(|p| p[0].clone()).collect();
                path = vec![self.fresh_name(&mut u)];
            } else {
                let i = self.r.below(bases.len());
                path = bases[i].clone();
                let again = taken[&path] == 'i' && self.r.chance(1, 2) || taken[&path] == 'a' && self.r.chance(1, 2);
                if !again && path.len() < 4 {
                    let mut u: BTreeSet<String> =
                        taken.keys().filter(|p| p.len() == path.len() + 1 && p.starts_with(&path)).map(|p| p[path.len()].clone()).collect();
                    let f = self.fresh_name(&mut u);
                    path.push(f);
                } else if !again {
                    let mut u: BTreeSet<String> = taken.keys().filter(|p| p.len() == 1).map(|p| p[0].clone()).collect();
                    path = vec![self.fresh_name(&mut u)];
                }
            }
            if self.r.chance(1, 5) && !taken.contains_key(&path) && path.len() < 4 {
                // leave an implicit parent
                taken.insert(path.clone(), 'i');
                let mut u = BTreeSet::new();
                let f = self.fresh_name(&mut u);
                path.push(f);
            }
            let kind = match taken.get(&path) {
                Some('a') => 'a',
                Some('i') => 'e',
                Some(_) => continue,
                None => {
                    if self.r.chance(1, 3) {
                        'a'
                    } else {
                        'e'
                    }
                }
            };
            if kind == 'a' {
                let pfx = path.clone();
                taken.retain(|p, _| !(p.len() > pfx.len() && p.starts_with(&pfx)));
            }
            taken.insert(path.clone(), kind);
            for l in 1..path.len() {
                taken.entry(path[..l].to_vec()).or_insert('i');
            }
            self.ws();
            let p = self.path_repr(&path);
            let (o, c) = if kind == 'a' { ("[[", "]]") } else { ("[", "]") };
            self.out.push_str(o);
            self.ws();
            self.out.push_str(&p);
            self.ws();
            self.out.push_str(c);
            self.line_end();
            if self.r.chance(1, 4) {
                self.blank_lines(2);
            }
            let mut used: BTreeSet<String> =
                taken.keys().filter(|p| p.len() == path.len() + 1 && p.starts_with(&path)).map(|p| p[path.len()].clone()).collect();
            let before = used.clone();
            let mut dotted = vec![];
            self.kvs(&mut used, &mut dotted);
            for u in used.difference(&before) {
                let mut q = path.clone();
                q.push(u.clone());
                taken.insert(q, 'v');
            }
        }
        self.comment_lines();
        if self.r.chance(1, 4) {
            self.blank_lines(2);
            self.comment_lines();
        }
        // sometimes no newline at the end
        if self.r.chance(1, 6) {
            while self.out.ends_with('\n') || self.out.ends_with('\r') {
                self.out.pop();
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ hostile text
pub const DICT: &[&str] = &[
    "[", "]", "[[", "]]", "{", "}", "=", ",", ".", "\"", "'", "\"\"\"", "'''", "#", "\n", "\r\n", "\r", " ", "\t", "\\", "\\u", "\\u12", "\\UFFFFFFFF", "\\\n", "_", "+", "-", "0x", "0o",
    "0b", "1e", "1.", ".5", "inf", "nan", "true", "false", "2020-01-01", "2020-13-01", "07:32:00", "T", "Z", "+25:00", "\0", "\u{1}", "\u{7f}", "\u{feff}", "é", "日本", "🦀", "\u{301}",
    "#:schema x.json", "#:tombi toml-version = \"v1.1.0\"", "# tombi: lint.rules.key-empty.disabled = true", "a = 1", "a.b", "[a]", "[[a]]", "a", "0", "00", "1_", "__", "9999999999999999999",
    "\\U0000D800", "\\uDFFF", "\\U00110000", "\\U0010FFFF", "\\uD7FF", "\\ud83d", "\\x4", "\\xg0", "\\e", "\\s", "\\ ", "0x_1", "0X1", "+0x1", "1__0", "_1", "1e1.0", "1.e1", "-00", "+01", "1_e1", "1e_1", "--1", "0b2", "0o8",
    "23:60:00", "24:00:00", "12:00:60", "2021-02-29", "2024-02-30", "1900-02-29", "2000-02-29", "2021-04-31", "2021-00-10", "2021-01-00", "0000-01-01", "2021-1-1", "T25:00:00", "+24:00", "-23:60", "12:00:00.", "2021-01-01T", "12:0:00",
    "//", "/*", ";", ":", "(", ")", "$", "@", "\u{2028}", "\u{85}", "\u{a0}", "= =", "[]", "{}", "{ a = 1 }", "\"a\" = ", "\u{202e}", "e", "x",
];

pub fn mutate(r: &mut Rng, s: &str, n: usize) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..n {
        let len = cs.len();
        match r.below(8) {
            0 if len > 0 => {
                let i = r.below(len);
                cs.remove(i);
            }
            1 if len > 0 => {
                let i = r.below(len);
                let j = (i + 1 + r.below(12)).min(len);
                cs.drain(i..j);
            }
            2 if len > 0 => {
                let i = r.below(len);
                let j = (i + 1 + r.below(20)).min(len);
                let seg: Vec<char> = cs[i..j].to_vec();
                let k = r.below(len + 1);
                for (o, c) in seg.into_iter().enumerate() {
                    cs.insert(k + o, c);
                }
            }
            3 if len > 0 => {
                let i = r.below(len);
                let d = r.pick_str(DICT);
                if let Some(c) = d.chars().next() {
                    cs[i] = c;
                }
            }
            4 if len > 0 => {
                // truncate
                let i = r.below(len);
                if r.chance(1, 4) {
                    cs.truncate(i);
                } else {
                    cs.drain(..i.min(10));
                }
            }
            _ => {
                let i = r.below(len + 1);
                let d = r.pick_str(DICT);
                for (o, c) in d.chars().enumerate() {
                    cs.insert(i + o, c);
                }
            }
        }
    }
    cs.into_iter().collect()
}

pub fn soup(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.below(n + 1) {
        s.push_str(r.pick_str(DICT));
        if r.chance(1, 5) {
            s.push_str(r.pick_str(&[" ", "\n", "a", "1"]));
        }
    }
    s
}

/// all .toml files of the repository (fixtures, samples, manifests), sorted
pub fn corpus() -> Vec<(String, String)> {
    fn walk(d: &std::path::Path, out: &mut Vec<(String, String)>, depth: usize) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        let mut es: Vec<_> = rd.flatten().collect();
        es.sort_by_key(|e| e.path());
        for e in es {
            let p = e.path();
            let n = e.file_name().to_string_lossy().to_string();
            let Ok(ft) = e.file_type() else { continue };
            if ft.is_dir() {
                if n == "target" || n == "node_modules" || n == ".git" || depth > 8 {
                    continue;
                }
                walk(&p, out, depth + 1);
            } else if ft.is_file() && n.ends_with(".toml") {
                if let Ok(s) = std::fs::read_to_string(&p) {
                    if s.len() < 60_000 {
                        out.push((p.to_string_lossy().to_string(), s));
                    }
                }
            }
        }
    }
    let mut v = vec![];
    walk(std::path::Path::new("/repo"), &mut v, 0);
    v
}
