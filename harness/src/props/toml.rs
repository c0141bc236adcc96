//! P01 lossless total parsing, P02 conformance, P03 data-preserving formatting, P04 idempotence, P05 comments.
use crate::driver::*;
use crate::env::Env;
use crate::gen_::{self, Cfg, Gen};
use crate::opts;
use crate::rng::Rng;
use crate::scan::{self, K};
use crate::val;
use serde_json::json;
use std::time::Duration;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "P01",
            quick_cases: 80_000,
            quick_s: 80,
            thorough_cases: 20_000_000,
            thorough_s: 1500,
            workers: 8,
            level: "exploration",
            rule: "one evaluation = one text run through lexer, parser, tree, document tree, linter and formatter in both TOML versions, with every leaf of the tree compared against the text; distinct non-trivial = distinct non-blank texts",
            assumptions: &[
                "the generator reaches the constructs a user writes; texts it cannot make are not observed",
                "nesting deeper than the parser's own limit and very long flat texts are sampled by 25 fixed inputs",
            ],
            must: &["leaves", "with_syntax_errors", "format_ok", "format_refused", "large_inputs"],
            make: |_| Box::new(Total { env: Env::new(), all: gen_::corpus() }),
        },
        Spec {
            id: "P02",
            quick_cases: 160_000,
            quick_s: 80,
            thorough_cases: 20_000_000,
            thorough_s: 1500,
            workers: 8,
            level: "exploration",
            rule: "one evaluation = one text whose acceptance and decoded value were compared with an independent reader; distinct non-trivial = distinct texts",
            assumptions: &[
                "the generator reaches the constructs a user writes; texts it cannot make are not observed",
                "the independent readers (toml 1.1.8 for TOML 1.1, toml_edit 0.20.2 for TOML 1.0) are right; texts on which they are known to depart from the specification are left out",
            ],
            must: &["accepted", "rejected"],
            make: |_| Box::new(Conf { env: Env::new(), all: gen_::corpus() }),
        },
        Spec {
            id: "P03",
            quick_cases: 110_000,
            quick_s: 80,
            thorough_cases: 20_000_000,
            thorough_s: 1500,
            workers: 8,
            level: "exploration",
            rule: "one evaluation = one text formatted under one option set, both readings compared; distinct non-trivial = distinct texts",
            assumptions: &[
                "the generator reaches the constructs a user writes; texts it cannot make are not observed",
                "the independent readers decide what the data of a text is",
            ],
            must: &["formatted", "invalid_texts"],
            make: |_| Box::new(Fmt { env: Env::new(), all: gen_::corpus(), which: 'd' }),
        },
        Spec {
            id: "P04",
            quick_cases: 110_000,
            quick_s: 80,
            thorough_cases: 20_000_000,
            thorough_s: 1500,
            workers: 8,
            level: "exploration",
            rule: "one evaluation = one valid text formatted twice under one option set; distinct non-trivial = distinct texts",
            assumptions: &[
                "the generator reaches the constructs a user writes; texts it cannot make are not observed",
            ],
            must: &["formatted"],
            make: |_| Box::new(Fmt { env: Env::new(), all: gen_::corpus(), which: 'i' }),
        },
        Spec {
            id: "P05",
            quick_cases: 110_000,
            quick_s: 80,
            thorough_cases: 20_000_000,
            thorough_s: 1500,
            workers: 8,
            level: "exploration",
            rule: "one evaluation = one valid text formatted under one option set, every comment located before and after; distinct non-trivial = distinct texts with at least one comment",
            assumptions: &[
                "the generator reaches the constructs a user writes; texts it cannot make are not observed",
                "where a comment belongs is read off the text by a scanner of our own",
            ],
            must: &["formatted", "comments_tracked"],
            make: |_| Box::new(Fmt { env: Env::new(), all: gen_::corpus(), which: 'c' }),
        },
    ]
}

pub fn any_doc(r: &mut Rng, all: &[(String, String)], v11: bool) -> String {
    if r.chance(1, 12) && !all.is_empty() {
        let i = r.below(all.len());
        return all[i].1.clone();
    }
    let mut c = Cfg::random(r);
    c.v11 = v11;
    Gen::doc(r, c)
}

struct Conf {
    env: Env,
    all: Vec<(String, String)>,
}

/// where the reference reader departs from the specification, or the specification leaves a choice
pub fn undecidable(src: &str, v11: bool, want: &Result<val::V, String>) -> bool {
    if src.contains('\u{feff}') {
        return true; // byte order marks are not covered by TOML 1.0/1.1
    }
    if let Err(e) = want {
        if e.contains("floating-point") {
            return true; // out-of-range floats: readers may refuse or round to infinity
        }
    }
    // the 1.0 reader takes 2024-02-30
    let impossible = |t: &str| {
        let n = |r: std::ops::Range<usize>| t.get(r).and_then(|x| x.parse::<u32>().ok());
        t.as_bytes().get(4) == Some(&b'-')
            && matches!((n(0..4), n(5..7), n(8..10)), (Some(y), Some(m), Some(d)) if d > match m {
                2 => 28 + u32::from(y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)),
                4 | 6 | 9 | 11 => 30,
                _ => 31,
            })
    };
    if want.is_ok() && !v11 && scan::scan(src).iter().any(|t| t.k == K::Word && impossible(&t.text)) {
        return true;
    }
    if v11 {
        // the 1.1 reader allows newlines around `=` and `.` inside inline tables; the grammar does not
        let t: Vec<scan::Tok> = scan::scan(src).into_iter().filter(|t| t.k != K::Comment).collect();
        for w in t.windows(2) {
            if (w[0].k == K::Nl && (w[1].text == "=" || w[1].text.starts_with('.'))) || (w[1].k == K::Nl && (w[0].text == "=" || w[0].text.ends_with('.'))) {
                return true;
            }
        }
    }
    false
}

/// a bare key that starts like a date (`2020-01-01x`)
pub fn date_like_key(src: &str) -> bool {
    scan::scan(src).iter().any(|t| {
        t.k == K::Word
            && t.text.split('.').any(|p| {
                let b = p.as_bytes();
                b.len() > 10
                    && b[..10].iter().enumerate().all(|(i, c)| if i == 4 || i == 7 { *c == b'-' } else { c.is_ascii_digit() })
                    && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_')
            })
    })
}

/// None = agree / not decidable; Some(sig, msg)
fn conf_verdict(env: &Env, src: &str, v11: bool) -> Option<(String, String)> {
    let want = val::reference(src, v11);
    if undecidable(src, v11, &want) {
        return None;
    }
    let got = match guard(|| env.decode(src, opts::toml_version(v11))) {
        Ok(g) => g,
        Err(p) => return Some((panic_sig(&p), format!("panic {p}"))),
    };
    match (want, got) {
        (Ok(w), Ok(g)) => {
            if w.lf().canon(false) != g.lf().canon(false) {
                return Some(("value-differs".into(), format!("reference {} tombi {}", w.canon(false), g.canon(false))));
            }
            None
        }
        (Ok(_), Err(_)) if date_like_key(src) => Some(("rejects-valid:date-like-bare-key".into(), format!("v11={v11}"))),
        (Ok(_), Err(e)) => Some((format!("rejects-valid"), format!("v11={v11} {}", e.join("; ")))),
        (Err(e), Ok(_)) => Some((format!("accepts-invalid"), format!("v11={v11} reference says: {}", e.replace('\n', " ")))),
        _ => None,
    }
}

impl Check for Conf {
    fn case(&mut self, _idx: u64, r: &mut Rng, rep: &mut Rep) {
        let v11 = r.chance(1, 2);
        let mut src = any_doc(r, &self.all, v11 || r.clone().chance(1, 5));
        if r.chance(1, 2) {
            let n = r.range(1, 3);
            src = gen_::mutate(r, &src, n);
        }
        if src.contains("#:") || src.contains("tombi:") {
            return;
        }
        let ok = val::reference(&src, v11).is_ok();
        rep.count(if ok { "accepted" } else { "rejected" });
        rep.eval(&src, true);
        rep.sample(&src);
        if let Some((sig, _)) = conf_verdict(&self.env, &src, v11) {
            let env = &self.env;
            let small = shrink(&src, Duration::from_secs(5), |t| conf_verdict(env, t, v11).map(|x| x.0) == Some(sig.clone()));
            let (sig, msg) = conf_verdict(env, &small, v11).unwrap();
            rep.viol(sig, format!("{small:?}: {msg}"), json!({"src": small, "v11": v11}));
        }
    }
}

struct Fmt {
    env: Env,
    all: Vec<(String, String)>,
    which: char,
}

impl Fmt {
    fn verdict(&self, src: &str, v11: bool, o: &tombi_config::FormatOptions) -> Option<(String, String)> {
        let env = &self.env;
        let tv = opts::toml_version(v11);
        let before = match val::reference(src, v11) {
            Ok(b) => b,
            Err(_) if self.which == 'd' => return self.invalid_verdict(src, v11, o),
            Err(_) => return None,
        };
        let out = match guard(|| env.format(src, tv, o)) {
            Err(p) => return Some((panic_sig(&p), format!("panic {p}"))),
            Ok(Err(e)) => return if self.which == 'd' && env.decode(src, tv).is_ok() { Some(("refuses-valid".into(), format!("{e:?}"))) } else { None },
            Ok(Ok(o)) => o,
        };
        match self.which {
            'd' => match val::reference(&out, v11) {
                Err(e) => return Some(("output-invalid".into(), format!("{out:?}: {e}"))),
                Ok(after) => {
                    if before.canon(false) != after.canon(false) {
                        return Some(("data-changed".into(), format!("out {out:?} before {} after {}", before.canon(false), after.canon(false))));
                    }
                }
            },
            'i' => match guard(|| env.format(&out, tv, o)) {
                Err(p) => return Some((panic_sig(&p), format!("panic {p}"))),
                Ok(Err(e)) => return Some(("refuses-own-output".into(), format!("{out:?} {e:?}"))),
                Ok(Ok(o2)) => {
                    if o2 != out {
                        return Some(("not-idempotent".into(), format!("once {out:?} twice {o2:?}")));
                    }
                }
            },
            _ => {
                let norm = |c: &str| {
                    let h = c.chars().take_while(|c| *c == '#').count();
                    let r = &c[h..];
                    let (bang, r) = r.strip_prefix('!').map(|r| ("!", r)).unwrap_or(("", r));
                    format!("{}{bang}|{}", &c[..h], r.trim_start_matches([' ', '\t']).trim_ascii_end())
                };
                let a: Vec<String> = scan::scan(src).into_iter().filter(|t| t.k == K::Comment).map(|t| norm(&t.text)).collect();
                let b: Vec<String> = scan::scan(&out).into_iter().filter(|t| t.k == K::Comment).map(|t| norm(&t.text)).collect();
                let (mut x, mut y) = (a.clone(), b.clone());
                x.sort();
                y.sort();
                if x != y {
                    return Some(("comments-lost".into(), format!("out {out:?}: {a:?} vs {b:?}")));
                }
                let (Some(oa), Some(ob)) = (scan::owners(src, 'c'), scan::owners(&out, 'c')) else { return None };
                for (m, o) in &oa {
                    if ob.get(m) != Some(o) {
                        return Some((format!("comment-moved:{}", o.split(' ').next().unwrap()), format!("out {out:?}: comment c{m}c was {o}, is {:?}", ob.get(m))));
                    }
                }
            }
        }
        None
    }
}

/// every character of every key and value of a text, whatever its structure
fn content(src: &str) -> Option<Vec<char>> {
    let mut v = vec![];
    for t in scan::scan(src) {
        match t.k {
            K::Str => v.extend(scan::decode_key(&t)?.concat().chars()),
            K::Word => v.extend(t.text.chars().filter(|c| !matches!(c, '.' | 'T' | 't'))),
            _ => {}
        }
    }
    v.sort();
    Some(v)
}

impl Fmt {
    /// a text that is not valid TOML is refused, or comes out with everything that was in it
    fn invalid_verdict(&self, src: &str, v11: bool, o: &tombi_config::FormatOptions) -> Option<(String, String)> {
        let before = content(src)?;
        match guard(|| self.env.format(src, opts::toml_version(v11), o)) {
            Err(p) => Some((panic_sig(&p), format!("panic {p}"))),
            Ok(Err(_)) => None,
            Ok(Ok(out)) => {
                let after = content(&out);
                if after.as_ref() != Some(&before) {
                    return Some(("invalid-text-loses-content".into(), format!("out {out:?}")));
                }
                None
            }
        }
    }
}

impl Check for Fmt {
    fn case(&mut self, _idx: u64, r: &mut Rng, rep: &mut Rep) {
        let v11 = r.chance(1, 2);
        let mut src = any_doc(r, &self.all, v11);
        if self.which == 'd' && r.chance(1, 5) {
            src = if r.chance(1, 2) {
                // two documents in one: repeated keys and tables
                format!("{src}\n{}", any_doc(r, &self.all, v11))
            } else {
                gen_::mutate(r, &src, 2)
            };
        }
        if src.contains("#:") || src.contains("tombi:") {
            return;
        }
        let rules = opts::random_rules(r);
        let o = opts::options(&rules);
        if val::reference(&src, v11).is_err() {
            if self.which != 'd' {
                rep.count("skipped_invalid");
                return;
            }
            rep.count("invalid_texts");
        }
        rep.count("formatted");
        let comments = if self.which == 'c' { scan::owners(&src, 'c').map(|m| m.len()).unwrap_or(0) } else { 0 };
        rep.add("comments_tracked", comments as u64);
        rep.eval(&src, self.which != 'c' || comments > 0);
        rep.sample(&src);
        if let Some((sig, _)) = self.verdict(&src, v11, &o) {
            // fewer options first
            let mut rules = rules;
            for k in rules.keys().cloned().collect::<Vec<_>>() {
                let mut r2 = rules.clone();
                r2.remove(&k);
                if self.verdict(&src, v11, &opts::options(&r2)).map(|x| x.0) == Some(sig.clone()) {
                    rules = r2;
                }
            }
            let o = opts::options(&rules);
            let small = shrink(&src, Duration::from_secs(5), |t| self.verdict(t, v11, &o).map(|x| x.0) == Some(sig.clone()));
            let (sig, msg) = self.verdict(&small, v11, &o).unwrap();
            let sig = format!("{sig} {}", rules.keys().cloned().collect::<Vec<_>>().join(","));
            rep.viol(sig, format!("v11={v11} {rules:?} {small:?}: {msg}"), json!({"src": small, "v11": v11, "rules": rules}));
        }
    }
}

// ------------------------------------------------------------------------------------------------- P01
struct Total {
    env: Env,
    all: Vec<(String, String)>,
}

/// the tree a text parses to must be the text again, piece by piece, with true positions
pub fn lossless(src: &str, rep: &mut Rep) -> Option<(String, String)> {
    let lexed = tombi_lexer::lex(src);
    let mut at = 0usize;
    for t in &lexed.tokens {
        let (s, e): (usize, usize) = (t.span().start.into(), t.span().end.into());
        if s != at || e < s || e > src.len() {
            return Some(("token-gap".into(), format!("token {:?} at {s}..{e}, expected to start at {at}", t.kind())));
        }
        at = e;
    }
    if at != src.len() {
        return Some(("tokens-short".into(), format!("tokens end at {at} of {}", src.len())));
    }
    let p = tombi_parser::parse(src);
    let root = p.syntax_node();
    let text = root.text().to_string();
    if text != src {
        return Some(("tree-text-differs".into(), format!("tree {text:?}")));
    }
    let mut off = 0usize;
    let mut pos = tombi_text::Position::default();
    let mut n = 0u64;
    // lines counted from the text itself
    let mut line = 0u32;
    for el in root.descendants_with_tokens() {
        let (s, e): (usize, usize) = (el.span().start.into(), el.span().end.into());
        let Some(t) = el.as_token() else {
            if e < s || e > src.len() {
                return Some(("node-span".into(), format!("{:?} {s}..{e}", el.kind())));
            }
            if el.range().start > el.range().end {
                return Some(("node-range".into(), format!("{:?} {:?}", el.kind(), el.range())));
            }
            continue;
        };
        n += 1;
        if s != off {
            return Some(("leaf-gap".into(), format!("{:?} starts at {s}, previous ended at {off}", t.kind())));
        }
        if src.get(s..e) != Some(t.text()) {
            return Some(("leaf-text".into(), format!("{:?} {s}..{e} is {:?}, text has {:?}", t.kind(), t.text(), src.get(s..e))));
        }
        let r = t.range();
        if r.start != pos && s != e {
            return Some(("leaf-position".into(), format!("{:?} {:?} starts at {:?}, previous ended at {pos:?}", t.kind(), t.text(), r.start)));
        }
        if r.start.line != line {
            return Some(("leaf-line".into(), format!("{:?} {:?} on line {}, text says {line}", t.kind(), t.text(), r.start.line)));
        }
        line += t.text().matches('\n').count() as u32;
        if r.end.line != line {
            return Some(("leaf-line".into(), format!("{:?} {:?} ends on line {}, text says {line}", t.kind(), t.text(), r.end.line)));
        }
        if !t.text().contains('\n') && t.text().is_ascii() && !t.text().contains('\r') && r.end.column - r.start.column != t.text().len() as u32 {
            return Some(("leaf-column".into(), format!("{:?} {:?} {r:?}", t.kind(), t.text())));
        }
        pos = r.end;
        off = e;
    }
    if off != src.len() {
        return Some(("leaves-short".into(), format!("leaves end at {off} of {}", src.len())));
    }
    // an upper bound on columns: characters (a cluster may be split between two tokens)
    let widths: Vec<usize> = src.split('\n').map(|l| l.chars().count()).collect();
    for e in p.errors.iter() {
        for q in [e.range().start, e.range().end] {
            if widths.get(q.line as usize).is_none_or(|w| q.column as usize > *w) {
                return Some(("error-out-of-text".into(), format!("{e} {:?}", e.range())));
            }
        }
    }
    if !p.errors.is_empty() {
        rep.count("with_syntax_errors");
    }
    rep.add("leaves", n);
    rep.max("leaves", n);
    None
}

impl Total {
    fn verdict(&self, src: &str, o: &tombi_config::FormatOptions, rep: &mut Rep) -> Option<(String, String)> {
        match guard(|| lossless(src, rep)) {
            Err(p) => return Some((panic_sig(&p), format!("panic {p}"))),
            Ok(Some(x)) => return Some(x),
            Ok(None) => {}
        }
        let lo = tombi_config::LintOptions::default();
        for v11 in [false, true] {
            let tv = opts::toml_version(v11);
            let r = guard(|| {
                self.env.tree_any(src, tv);
                let l = self.env.lint(src, tv, &lo);
                let f = self.env.format(src, tv, o);
                (l, f.is_ok())
            });
            match r {
                Err(p) => return Some((panic_sig(&p), format!("panic {p}"))),
                Ok((_, f)) => rep.count(if f { "format_ok" } else { "format_refused" }),
            }
        }
        None
    }
    fn big(k: u64) -> String {
        let n = 3000;
        match k {
            0 => format!("a = {}1{}", "[".repeat(24), "]".repeat(24)),
            1 => format!("a = {}1{}", "[".repeat(50_000), "]".repeat(50_000)),
            2 => "[".repeat(50_000),
            3 => format!("a = {}", "{a=".repeat(50_000)),
            4 => format!("a = {}1{}", "{a=".repeat(24), "}".repeat(24)),
            5 => format!("{}a = 1", "a.".repeat(100)),
            6 => format!("[{}a]\nb = 1\n", "a.".repeat(100)),
            7 => (0..n).map(|i| format!("k{i} = {i} # c\n")).collect(),
            8 => (0..200).map(|i| format!("[t{i}]\nk = {i}\n")).collect(),
            9 => (0..200).map(|i| format!("[[t]]\nk = {i}\n")).collect(),
            10 => format!("a = [{}]", (0..n * 3).map(|i| format!("{i}, ")).collect::<String>()),
            11 => format!("a = \"\"\"{}\"\"\"", "x\n\\\"".repeat(20_000)),
            12 => format!("# {}", "é".repeat(50_000)),
            13 => "\n".repeat(50_000),
            14 => "\"".repeat(20_001),
            15 => "a = 1 ".repeat(5000),
            16 => "]".repeat(20_000),
            17 => "= ".repeat(10_000),
            18 => "a.\n".repeat(3000),
            19 => format!("a = {{{}}}", (0..1000).map(|i| format!("k{i} = {i}")).collect::<Vec<_>>().join(", ")),
            20 => format!("a = 0x{}", "f".repeat(5000)),
            21 => format!("a = {}", "1".repeat(50_000)),
            22 => format!("a = {}1{}", "[{a=".repeat(12), "}]".repeat(12)),
            23 => "#\n".repeat(3_000),
            24 => format!("a = [\n{}]", "# c\n".repeat(5000)),
            _ => String::new(),
        }
    }
}

impl Check for Total {
    fn pinned(&self) -> u64 {
        26
    }
    fn case(&mut self, idx: u64, r: &mut Rng, rep: &mut Rep) {
        let rules = opts::random_rules(r);
        let o = opts::options(&rules);
        let v11 = r.chance(1, 2);
        let src = if idx < 26 {
            rep.count("large_inputs");
            Self::big(idx)
        } else {
            match r.below(6) {
                0 => gen_::soup(r, 40),
                1 => any_doc(r, &self.all, v11),
                2 => {
                    // cut anywhere, as while typing
                    let d = any_doc(r, &self.all, v11);
                    let n = d.chars().count();
                    let k = r.below(n + 1);
                    d.chars().take(k).collect()
                }
                _ => {
                    let d = any_doc(r, &self.all, v11);
                    let n = r.range(1, 6);
                    gen_::mutate(r, &d, n)
                }
            }
        };
        rep.eval(&src, !src.trim().is_empty());
        rep.sample(&src);
        if let Some((sig, msg)) = self.verdict(&src, &o, rep) {
            let mut sink = Rep::default();
            let small = if src.len() > 20_000 { src.clone() } else { shrink(&src, Duration::from_secs(5), |t| self.verdict(t, &o, &mut sink).map(|x| x.0) == Some(sig.clone())) };
            rep.viol(sig, format!("{:?}: {msg}", small.chars().take(300).collect::<String>()), json!({"src": small, "rules": rules}));
        }
    }
}
