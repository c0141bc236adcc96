//! P16: the layout options are obeyed everywhere in the output. The monitor reads the output with the independent scanner
//! and judges each token's place, never how the formatter came to put it there.
use crate::driver::{Check, Rep, Spec, guard, panic_sig, shrink};
use crate::env::Env;
use crate::props::toml::any_doc;
use crate::rng::Rng;
use crate::scan::{self, K, Stmt, Tok};
use crate::{gen_, opts, val};
use serde_json::{Map, Value as J, json};
use std::time::Duration;
use unicode_segmentation::UnicodeSegmentation;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "P16",
        quick_cases: 110_000,
        quick_s: 80,
        thorough_cases: 20_000_000,
        thorough_s: 1500,
        workers: 8,
        level: "exploration",
        rule: "one evaluation = one valid text formatted under one option set, every token of the output judged against the options; distinct non-trivial = distinct texts with at least one statement",
        assumptions: &["the generator reaches the constructs a user writes; texts it cannot make are not observed"],
        must: &[
            "indents_judged",
            "equals_judged",
            "equals_aligned_groups",
            "brackets_judged",
            "commas_judged",
            "trailing_comments_judged",
            "trailing_comments_aligned_groups",
            "quotes_judged",
            "dates_judged",
            "blank_runs_judged",
            "table_gaps_judged",
            "table_gaps_tight",
            "wide_lines_judged",
            "broken_containers_judged",
            "comments_judged",
            "line_endings_judged",
            "tables_moved",
        ],
        make: |_| Box::new(Layout { env: Env::new(), all: gen_::corpus() }),
    }]
}

struct Layout {
    env: Env,
    all: Vec<(String, String)>,
}

/// the options with their documented defaults
struct O {
    bracket: usize,
    acomma: usize,
    brace: usize,
    icomma: usize,
    eq: usize,
    eq_align: bool,
    tc: usize,
    tc_align: bool,
    unit: String,
    sub: bool,
    kv: bool,
    group: usize,
    table: usize,
    normalize: bool,
    key_q: char,
    str_q: char,
    date: char,
    ending: &'static str,
    width: Option<usize>,
}
impl O {
    fn new(r: &Map<String, J>) -> O {
        let n = |k: &str, d: usize| r.get(k).and_then(|v| v.as_u64()).map(|v| v as usize).unwrap_or(d);
        let b = |k: &str| r.get(k).and_then(|v| v.as_bool()).unwrap_or(false);
        let s = |k: &str, d: &'static str| r.get(k).and_then(|v| v.as_str()).unwrap_or(d).to_string();
        let q = |s: &str| match s {
            "double" => '"',
            "single" => '\'',
            _ => 'p',
        };
        let str_q = s("string-quote-style", "double");
        let key_q = r.get("key-quote-style").and_then(|v| v.as_str()).unwrap_or(&str_q).to_string();
        O {
            bracket: n("array-bracket-space-width", 0),
            acomma: n("array-comma-space-width", 1),
            brace: n("inline-table-brace-space-width", 1),
            icomma: n("inline-table-comma-space-width", 1),
            eq: n("key-value-equals-sign-space-width", 1),
            eq_align: b("key-value-equals-sign-alignment"),
            tc: n("trailing-comment-space-width", 2),
            tc_align: b("trailing-comment-alignment"),
            unit: if s("indent-style", "space") == "tab" { "\t".into() } else { " ".repeat(n("indent-width", 2)) },
            sub: b("indent-sub-tables"),
            kv: b("indent-table-key-value-pairs"),
            group: n("group-blank-lines-limit", 1),
            table: n("table-blank-lines", 1),
            normalize: s("comment-style", "normalize") == "normalize",
            key_q: q(&key_q),
            str_q: q(&str_q),
            date: match s("date-time-delimiter", "T").as_str() {
                "T" => 'T',
                "space" => ' ',
                _ => 'p',
            },
            ending: match s("line-ending", "auto").as_str() {
                "lf" => "\n",
                "crlf" => "\r\n",
                _ => "",
            },
            width: r.get("line-width").and_then(|v| v.as_u64()).map(|v| v as usize),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum C {
    Nl,
    Comment,
    Head,
    Key,
    Eq,
    Val,
    Open,
    Close,
    Comma,
}

#[derive(Clone, Debug)]
struct Cont {
    open: usize,
    close: usize,
    parent: Option<usize>,
    brace: bool,
    /// a line break directly inside
    multi: bool,
    items: usize,
    /// a comment anywhere inside
    comment: bool,
    trailing_comma: bool,
    blank: bool,
    /// a string over several lines anywhere inside
    mlstr: bool,
    stmt: usize,
}

struct Doc<'a> {
    text: &'a str,
    toks: Vec<Tok>,
    st: Vec<Stmt>,
    cls: Vec<C>,
    conts: Vec<Cont>,
    /// the innermost container a token is in (its own for brackets)
    inside: Vec<Option<usize>>,
}

fn is_date(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() >= 10 && b[..10].iter().enumerate().all(|(i, c)| if i == 4 || i == 7 { *c == b'-' } else { c.is_ascii_digit() })
}
fn cols(s: &str) -> usize {
    s.graphemes(true).count()
}

impl<'a> Doc<'a> {
    fn new(text: &'a str) -> Option<Doc<'a>> {
        let toks = scan::scan(text);
        let st = scan::stmts(&toks)?;
        let mut cls = vec![C::Nl; toks.len()];
        let mut inside = vec![None; toks.len()];
        let mut conts: Vec<Cont> = vec![];
        for (i, t) in toks.iter().enumerate() {
            if t.k == K::Comment {
                cls[i] = C::Comment;
            }
        }
        for (si, s) in st.iter().enumerate() {
            if s.kind != "=" {
                for c in &mut cls[s.first..s.last] {
                    *c = C::Head;
                }
                continue;
            }
            let mut stack: Vec<usize> = vec![];
            let mut key = true;
            for i in s.first..s.last {
                let t = &toks[i];
                inside[i] = stack.last().copied();
                if let Some(c) = stack.last() {
                    let c = &mut conts[*c];
                    match t.k {
                        K::Nl => {
                            c.multi = true;
                            c.blank |= toks[i - 1].k == K::Nl;
                            continue;
                        }
                        K::Comment => {
                            for c in &stack {
                                conts[*c].comment = true;
                            }
                            continue;
                        }
                        _ => c.trailing_comma = t.text == "," && t.k == K::Punct || (c.trailing_comma && t.text == if c.brace { "}" } else { "]" } && t.k == K::Punct),
                    }
                } else if matches!(t.k, K::Nl | K::Comment) {
                    continue;
                }
                cls[i] = match (t.k.clone(), t.text.as_str()) {
                    (K::Punct, "[" | "{") if !key => {
                        if let Some(c) = stack.last() {
                            if !conts[*c].brace {
                                conts[*c].items += 1;
                            }
                        }
                        inside[i] = Some(conts.len());
                        let brace = t.text == "{";
                        conts.push(Cont { open: i, close: i, parent: stack.last().copied(), brace, multi: false, items: 0, comment: false, trailing_comma: false, blank: false, mlstr: false, stmt: si });
                        stack.push(conts.len() - 1);
                        key = brace;
                        C::Open
                    }
                    (K::Punct, "]" | "}") => {
                        let c = stack.pop()?;
                        inside[i] = Some(c);
                        conts[c].close = i;
                        key = false;
                        C::Close
                    }
                    (K::Punct, ",") => {
                        key = conts[*stack.last()?].brace;
                        C::Comma
                    }
                    (K::Punct, "=") => {
                        key = false;
                        C::Eq
                    }
                    (K::Str | K::Word, _) => {
                        if t.k == K::Str && t.text.contains('\n') {
                            for c in &stack {
                                conts[*c].mlstr = true;
                            }
                        }
                        if let Some(c) = stack.last() {
                            if !key && !conts[*c].brace || key && matches!(cls[i - 1], C::Open | C::Comma | C::Nl) {
                                conts[*c].items += 1;
                            }
                        }
                        if key { C::Key } else { C::Val }
                    }
                    _ => return None,
                };
            }
            if !stack.is_empty() {
                return None;
            }
        }
        Some(Doc { text, toks, st, cls, conts, inside })
    }
    fn end(&self, i: usize) -> usize {
        self.toks[i].start + self.toks[i].text.len()
    }
    fn gap(&self, i: usize) -> &'a str {
        let from = if i == 0 { 0 } else { self.end(i - 1) };
        &self.text[from..self.toks[i].start]
    }
    fn first_on_line(&self, i: usize) -> bool {
        i == 0 || self.cls[i - 1] == C::Nl
    }
    /// grapheme column of a byte offset
    fn col(&self, at: usize) -> usize {
        let s = self.text[..at].rfind('\n').map(|p| p + 1).unwrap_or(0);
        cols(&self.text[s..at])
    }
    fn stmt_of(&self, i: usize) -> Option<usize> {
        let k = self.st.partition_point(|s| s.last <= i);
        (k < self.st.len() && self.st[k].first <= i).then_some(k)
    }
    /// blank lines directly above token i, which is first on its line
    fn blanks_above(&self, i: usize) -> usize {
        let mut n = 0;
        let mut j = i;
        while j > 0 && self.cls[j - 1] == C::Nl {
            n += 1;
            j -= 1;
        }
        if j == 0 { n } else { n.saturating_sub(1) }
    }
    /// first token of the comment block that leads directly to statement s (its own first token if none)
    fn lead(&self, s: usize) -> usize {
        let mut i = self.st[s].first;
        while i >= 2 && self.cls[i - 1] == C::Nl && self.cls[i - 2] == C::Comment && self.first_on_line(i - 2) {
            i -= 2;
        }
        i
    }
    /// own-line comments between a (exclusive) and b
    fn own_comments(&self, a: usize, b: usize) -> bool {
        (a..b).any(|i| self.cls[i] == C::Comment && self.first_on_line(i))
    }
}

fn header_level(d: &Doc, s: usize) -> usize {
    let me = &d.st[s].keys;
    let mut seen: Vec<&Vec<String>> = vec![];
    for p in d.st[..s].iter().rev().filter(|p| p.kind != "=") {
        if p.keys.first() != me.first() {
            break;
        }
        if p.keys.len() < me.len() && me.starts_with(&p.keys) && !seen.contains(&&p.keys) {
            seen.push(&p.keys);
        }
    }
    seen.len()
}

/// how a container would read on one line
fn one_line(d: &Doc, c: &Cont, o: &O) -> String {
    let mut s = String::new();
    let mut prev: Option<usize> = None;
    for i in c.open..=c.close {
        let sp = |n: usize| " ".repeat(n);
        match d.cls[i] {
            C::Nl | C::Comment => continue,
            C::Open if prev.is_some_and(|p| d.cls[p] == C::Eq) => s.push_str(&sp(o.eq)),
            C::Eq => s.push_str(&sp(o.eq)),
            C::Close => {
                let me = &d.conts[d.inside[i].unwrap()];
                if d.cls[prev.unwrap()] == C::Comma {
                    // a trailing comma goes away
                    let keep = s.trim_end_matches(' ').strip_suffix(',').unwrap_or(&s).to_string();
                    s = keep;
                }
                if me.items > 0 {
                    s.push_str(&sp(if me.brace { o.brace } else { o.bracket }));
                }
            }
            C::Val if prev.is_some_and(|p| d.cls[p] == C::Eq) => s.push_str(&sp(o.eq)),
            C::Val if prev.is_some_and(|p| d.cls[p] == C::Val) => s.push(' '),
            _ => {}
        }
        s.push_str(&d.toks[i].text);
        if d.cls[i] == C::Open {
            let me = &d.conts[d.inside[i].unwrap()];
            if me.items > 0 {
                s.push_str(&sp(if me.brace { o.brace } else { o.bracket }));
            }
        }
        if d.cls[i] == C::Comma {
            let me = &d.conts[d.inside[i].unwrap()];
            s.push_str(&sp(if me.brace { o.icomma } else { o.acomma }));
        }
        prev = Some(i);
    }
    s
}

type V = Option<(String, String)>;

/// is `out` laid out as the options say, given that it was made from `src`?
fn judge(src: &str, out: &str, v11: bool, rules: &Map<String, J>, rep: &mut Rep) -> V {
    let o = O::new(rules);
    let (Some(a), Some(b)) = (Doc::new(src), Doc::new(out)) else {
        rep.count("not_scanned");
        return None;
    };
    let bad = |sig: &str, i: usize, want: String| -> V {
        let t = &b.toks[i.min(b.toks.len().saturating_sub(1))];
        Some((sig.to_string(), format!("out {out:?}: at {:?} (byte {}): {want}", t.text, t.start)))
    };
    if b.toks.is_empty() {
        return a.st.first().map(|_| ("output-empty".to_string(), String::new()));
    }
    // ---- the ends of lines
    let src_ends: Vec<&str> = a.toks.iter().filter(|t| t.k == K::Nl).map(|t| t.text.as_str()).collect();
    let want = if !o.ending.is_empty() {
        Some(o.ending)
    } else if src_ends.is_empty() {
        Some("\n")
    } else {
        ["\n", "\r\n"].into_iter().find(|e| src_ends.iter().all(|x| x == e))
    };
    let want = want.unwrap_or_else(|| if b.toks.iter().any(|t| t.k == K::Nl && t.text == "\r\n") { "\r\n" } else { "\n" });
    for (i, t) in b.toks.iter().enumerate() {
        if t.k == K::Nl {
            rep.count("line_endings_judged");
            if t.text != want {
                return bad("line-ending", i, format!("want {want:?}"));
            }
            if !b.gap(i).is_empty() || (o.normalize && i > 0 && b.cls[i - 1] == C::Comment && b.toks[i - 1].text.ends_with([' ', '\t'])) {
                return bad("trailing-whitespace", i, "nothing before the end of the line".into());
            }
        }
    }
    let n = b.toks.len();
    if b.cls[n - 1] != C::Nl || b.end(n - 1) != out.len() || n == 1 || b.cls[n - 2] == C::Nl || b.cls[0] == C::Nl {
        return bad("ends-of-file", n - 1, "exactly one line ending at the end, none at the start".into());
    }
    // ---- the same statements and containers (tables may have been moved next to each other)
    let place: std::collections::HashMap<&str, usize> = a.st.iter().enumerate().map(|(i, s)| (s.id.as_str(), i)).collect();
    let sm: Option<Vec<usize>> = b.st.iter().map(|s| place.get(s.id.as_str()).copied()).collect();
    let first_cont = |d: &Doc| d.conts.iter().enumerate().rev().map(|(i, c)| (c.stmt, i)).collect::<std::collections::HashMap<usize, usize>>();
    let (fa, fb) = (first_cont(&a), first_cont(&b));
    let Some(sm) = sm.filter(|_| a.st.len() == b.st.len() && a.conts.len() == b.conts.len() && place.len() == a.st.len()) else {
        rep.count("not_matched");
        return None;
    };
    if sm.windows(2).any(|w| w[0] > w[1]) {
        rep.count("tables_moved");
    }
    let src_cont = |ci: usize| {
        let s = b.conts[ci].stmt;
        fa.get(&sm[s]).map(|x| x + ci - fb[&s])
    };
    // ---- comments
    {
        let texts = |d: &Doc| {
            let mut v: Vec<String> = d.toks.iter().filter(|t| t.k == K::Comment).map(|t| t.text.clone()).collect();
            v.sort();
            v
        };
        if o.normalize {
            for (i, t) in b.toks.iter().enumerate().filter(|x| x.1.k == K::Comment) {
                rep.count("comments_judged");
                let rest = t.text.strip_prefix("#!").unwrap_or_else(|| t.text.trim_start_matches('#'));
                if !rest.is_empty() && !rest.starts_with(' ') {
                    return bad("comment-not-normalized", i, "a space after the hash".into());
                }
            }
        } else {
            rep.count("comments_judged");
            if texts(&a) != texts(&b) {
                return Some(("comment-not-preserved".into(), format!("out {out:?}")));
            }
        }
    }
    // ---- quotes and dates
    for (i, t) in b.toks.iter().enumerate() {
        if t.k == K::Str && !t.text.starts_with("\"\"\"") && !t.text.starts_with("'''") {
            let q = if matches!(b.cls[i], C::Key | C::Head) { o.key_q } else { o.str_q };
            rep.count("quotes_judged");
            if q != 'p' && !t.text.starts_with(q) && !t.text.contains('\\') && !t.text.contains(q) {
                return bad("quote-style", i, format!("could be in {q}"));
            }
        }
        if t.k == K::Word && b.cls[i] == C::Val && is_date(&t.text) {
            let time = match t.text.as_bytes().get(10) {
                Some(c @ (b'T' | b't')) => Some(*c as char),
                Some(_) => None,
                None => (i + 1 < n && b.cls[i + 1] == C::Val).then_some(' '),
            };
            if let Some(time) = time {
                rep.count("dates_judged");
                if o.date != 'p' && time != o.date {
                    return bad("date-time-delimiter", i, format!("want {:?}", o.date));
                }
                if time == ' ' && b.gap(i + 1) != " " {
                    return bad("date-time-gap", i, "one space".into());
                }
            }
        }
    }
    {
        let pick = |d: &Doc, f: &dyn Fn(usize, &Tok) -> bool| {
            let mut v: Vec<String> = d.toks.iter().enumerate().filter(|(i, t)| f(*i, t)).map(|x| x.1.text.clone()).collect();
            v.sort();
            v
        };
        for (q, keys, name) in [(o.key_q, true, "key"), (o.str_q, false, "string")] {
            if q == 'p' {
                let f = |d: &Doc| pick(d, &|i, t| t.k == K::Str && matches!(d.cls[i], C::Key | C::Head) == keys);
                if f(&a) != f(&b) {
                    return Some((format!("{name}-quotes-not-preserved"), format!("out {out:?}")));
                }
            }
        }
        if o.date == 'p' {
            let f = |d: &Doc| pick(d, &|i, t| t.k == K::Word && d.cls[i] == C::Val);
            if f(&a) != f(&b) {
                return Some(("dates-not-preserved".into(), format!("out {out:?}")));
            }
        }
    }
    // ---- indentation and spaces
    let levels: Vec<usize> = {
        let mut cur = 0;
        let mut head = false;
        b.st.iter()
            .enumerate()
            .map(|(i, s)| {
                if s.kind != "=" {
                    cur = if o.sub { header_level(&b, i) } else { 0 };
                    head = true;
                    cur
                } else {
                    cur + usize::from(o.kv && head)
                }
            })
            .collect()
    };
    for i in 0..n {
        let c = b.cls[i];
        if c == C::Nl {
            continue;
        }
        let g = b.gap(i);
        let si = b.stmt_of(i);
        if b.first_on_line(i) {
            rep.count("indents_judged");
            let mut open = 0;
            let mut at = b.inside[i];
            while let Some(k) = at {
                let k = &b.conts[k];
                if k.multi && k.open != i && k.close != i {
                    open += 1;
                }
                at = k.parent;
            }
            let ok: Vec<usize> = match si {
                Some(s) => vec![levels[s] + open],
                None => {
                    // a comment between statements: of the section above, or of the header below
                    let next = b.st.partition_point(|s| s.first <= i);
                    let prev_head = b.st[..next].iter().rposition(|s| s.kind != "=");
                    let sec = prev_head.map(|h| levels[h] + usize::from(o.kv)).unwrap_or(0);
                    let leads = next < b.st.len() && b.lead(next) <= i;
                    if leads { vec![levels[next]] } else { vec![sec] }
                }
            };
            if !ok.iter().any(|l| g == o.unit.repeat(*l)) {
                let kind = match (c, si) {
                    (C::Comment, Some(_)) => "inner-comment",
                    (C::Comment, None) => "comment",
                    (C::Head, _) => "header",
                    (C::Key, _) if b.inside[i].is_none() => "key",
                    (C::Close, _) => "close",
                    (C::Comma, _) => "comma",
                    _ => "item",
                };
                return bad(&format!("indent-{kind}"), i, format!("indented by {g:?}, want level {ok:?} of {:?}", o.unit));
            }
            if c == C::Close && !b.conts[b.inside[i].unwrap()].multi {
                return bad("close-on-own-line", i, "same line".into());
            }
            continue;
        }
        let p = b.cls[i - 1];
        let cont = b.inside[i].map(|k| &b.conts[k]);
        match c {
            C::Comment => {
                rep.count("trailing_comments_judged");
                let aligned = o.tc_align && si.map(|s| b.st[s].kind == "=").unwrap_or_else(|| b.st[b.st.partition_point(|s| s.last <= i) - 1].kind == "=");
                if if aligned { g.len() < o.tc || g.contains('\t') } else { g != " ".repeat(o.tc) } {
                    return bad("trailing-comment-gap", i, format!("{g:?}, want {}", o.tc));
                }
            }
            C::Head => {
                if !g.is_empty() {
                    return bad("header-gap", i, "no space inside a header".into());
                }
            }
            C::Key if p == C::Key => {
                if !g.is_empty() {
                    return bad("key-gap", i, "no space around a dot".into());
                }
            }
            C::Eq => {
                rep.count("equals_judged");
                // inside a container on one line there is nothing to align with
                let aligned = o.eq_align && cont.is_none_or(|k| k.multi);
                if if aligned { g.len() < o.eq || g.contains('\t') } else { g != " ".repeat(o.eq) } {
                    return bad("before-equals", i, format!("{g:?}, want {}", o.eq));
                }
            }
            _ if p == C::Eq => {
                if g != " ".repeat(o.eq) {
                    return bad("after-equals", i, format!("{g:?}, want {}", o.eq));
                }
            }
            C::Val if p == C::Val => {}
            C::Comma => {
                rep.count("commas_judged");
                if !g.is_empty() {
                    return bad("before-comma", i, "nothing".into());
                }
            }
            C::Close => {
                let k = cont.unwrap();
                rep.count("brackets_judged");
                if k.multi {
                    return bad("close-not-on-own-line", i, "its own line".into());
                }
                let w = if k.items == 0 {
                    0
                } else if k.brace {
                    o.brace
                } else {
                    o.bracket
                };
                if g != " ".repeat(w) {
                    return bad(if k.brace { "before-brace" } else { "before-bracket" }, i, format!("{g:?}, want {w}"));
                }
                if k.items > 0 && p == C::Comma {
                    return bad("trailing-comma-on-one-line", i, "no comma before the end".into());
                }
            }
            _ if p == C::Open => {
                let k = &b.conts[b.inside[i - 1].unwrap()];
                rep.count("brackets_judged");
                if k.multi {
                    return bad("item-after-open", i, "a new line".into());
                }
                let w = if k.brace { o.brace } else { o.bracket };
                if g != " ".repeat(w) {
                    return bad(if k.brace { "after-brace" } else { "after-bracket" }, i, format!("{g:?}, want {w}"));
                }
            }
            _ if p == C::Comma => {
                let k = &b.conts[b.inside[i - 1].unwrap()];
                rep.count("commas_judged");
                if k.multi {
                    return bad("item-after-comma", i, "a new line".into());
                }
                let w = if k.brace { o.icomma } else { o.acomma };
                if g != " ".repeat(w) {
                    return bad(if k.brace { "after-comma-inline" } else { "after-comma-array" }, i, format!("{g:?}, want {w}"));
                }
            }
            _ => return bad("unexpected-neighbours", i, format!("{c:?} after {p:?}")),
        }
    }
    // ---- blank lines
    for s in 0..b.st.len() {
        let cur = &b.st[s];
        // inside values
        for i in cur.first..cur.last {
            if b.cls[i] != C::Nl && b.first_on_line(i) {
                rep.count("blank_runs_judged");
                let n = if i == cur.first { 0 } else { b.blanks_above(i) };
                if n > o.group {
                    return bad("blank-lines-in-value", i, format!("{n} blank lines, at most {}", o.group));
                }
            }
        }
        let prev = (s > 0).then(|| &b.st[s - 1]);
        let from = prev.map(|p| p.last).unwrap_or(0);
        let lead = b.lead(s);
        // comments of the section above
        for i in from..lead {
            if b.cls[i] == C::Comment && b.first_on_line(i) {
                rep.count("blank_runs_judged");
                let n = b.blanks_above(i);
                if n > o.group || (n > 0 && prev.is_none() && i == 0) {
                    return bad("blank-lines-before-comment", i, format!("{n} blank lines, at most {}", o.group));
                }
            }
        }
        let got = b.blanks_above(lead);
        let dangling = b.own_comments(from, lead);
        let a_lead = a.lead(sm[s]);
        let a_from = if sm[s] > 0 { a.st[sm[s] - 1].last } else { 0 };
        let there = a.blanks_above(a_lead);
        let a_dangling = a.own_comments(a_from, a_lead);
        if cur.kind == "=" {
            rep.count("blank_runs_judged");
            match prev {
                None if !dangling => {} // the start of the file, already judged
                Some(p) if p.kind != "=" && !dangling => {
                    if got != 0 {
                        return bad("blank-lines-after-header", lead, format!("{got} blank lines, want none"));
                    }
                }
                _ => {
                    let want = there.min(o.group);
                    if got > o.group {
                        return bad("blank-lines-over-limit", lead, format!("{got} blank lines, at most {}", o.group));
                    }
                    if got != want && dangling == a_dangling {
                        return bad("blank-lines-not-kept", lead, format!("{got} blank lines, {there} in the source, limit {}", o.group));
                    }
                }
            }
            continue;
        }
        // before a header
        if prev.is_none() && !dangling {
            continue;
        }
        let only_comments = prev.is_none();
        rep.count("table_gaps_judged");
        if only_comments {
            let want = there.min(o.group);
            if got != want && a_dangling && sm[s] == 0 {
                return bad("blank-lines-after-first-comments", lead, format!("{got} blank lines, {there} in the source, limit {}", o.group));
            }
            continue;
        }
        let p = prev.unwrap();
        let leading = lead != cur.first;
        // the section above: its header and whether it has anything in it
        let ph = if p.kind == "=" { None } else { Some(p) };
        let child = ph.is_some_and(|h| !dangling && cur.keys.starts_with(&h.keys) && !(h.kind == "[[" && cur.kind == "[[" && h.keys == cur.keys));
        let free = o.table.max(usize::from(dangling));
        let wants: Vec<usize> = match (child, leading) {
            (true, false) => vec![0],
            (true, true) if ph.unwrap().kind == "[[" && cur.kind == "[[" => vec![0, free],
            _ => vec![free],
        };
        if wants == [0] && child {
            rep.count("table_gaps_tight");
        }
        if !wants.contains(&got) {
            return bad(if child && !leading { "table-not-tight" } else { "table-blank-lines" }, lead, format!("{got} blank lines, want {wants:?}"));
        }
    }
    // ---- after the last statement
    let from = b.st.last().map(|s| s.last).unwrap_or(0);
    for i in from..n {
        if b.cls[i] == C::Comment && b.first_on_line(i) && b.blanks_above(i) > o.group {
            return bad("blank-lines-before-comment", i, format!("at most {}", o.group));
        }
    }
    // ---- groups of key-values: columns
    let mut s = 0;
    while s < b.st.len() {
        if b.st[s].kind != "=" {
            s += 1;
            continue;
        }
        let mut e = s + 1;
        while e < b.st.len() && b.st[e].kind == "=" && b.blanks_above(b.lead(e)) == 0 {
            e += 1;
        }
        if o.eq_align {
            let eqs: Vec<usize> = (s..e).map(|k| (b.st[k].first..b.st[k].last).find(|i| b.cls[*i] == C::Eq).unwrap()).collect();
            if let Some(x) = aligned(&b, &eqs, o.eq, rep) {
                return Some(x);
            }
        }
        if o.tc_align {
            // up to the comment that ends the last statement's line
            let hi = (b.st[e - 1].last..n).find(|i| b.cls[*i] == C::Nl).unwrap_or(n);
            let lo = b.st[s].first;
            let cs: Vec<usize> = (lo..hi).filter(|i| b.cls[*i] == C::Comment && !b.first_on_line(*i)).collect();
            if !cs.is_empty() {
                rep.count("trailing_comments_aligned_groups");
                let col = b.col(b.toks[cs[0]].start);
                if let Some(i) = cs.iter().find(|i| b.col(b.toks[**i].start) != col) {
                    return bad("trailing-comments-not-aligned", *i, format!("column {col}"));
                }
                if o.width.is_none() {
                    let mut w = 0;
                    for i in lo..hi {
                        if matches!(b.cls[i], C::Comment | C::Nl) {
                            continue;
                        }
                        w = w.max(b.col(b.end(i)));
                        if b.toks[i].k == K::Str && b.toks[i].text.contains('\n') {
                            let lines: Vec<&str> = b.toks[i].text.lines().collect();
                            w = w.max(b.col(b.toks[i].start) + cols(lines[0]));
                            for l in &lines[1..] {
                                w = w.max(cols(l));
                            }
                        }
                    }
                    if col != w + o.tc {
                        return bad("trailing-comments-too-far", cs[0], format!("column {col}, longest line {w}, gap {}", o.tc));
                    }
                }
            }
        }
        s = e;
    }
    if o.eq_align {
        for (ci, c) in b.conts.iter().enumerate() {
            if c.brace && c.multi {
                let eqs: Vec<usize> = (c.open..c.close).filter(|i| b.cls[*i] == C::Eq && b.inside[*i] == Some(ci)).collect();
                if let Some(x) = aligned(&b, &eqs, o.eq, rep) {
                    return Some(x);
                }
            }
        }
    }
    // ---- the line width
    for (ci, c) in b.conts.iter().enumerate() {
        if !c.multi {
            if let Some(w) = o.width {
                rep.count("wide_lines_judged");
                if c.items > 0 && (v11 || !c.brace) && b.text[b.toks[c.open].start..b.end(c.close)].find('\n').is_none() && b.col(b.end(c.close)) > w {
                    return bad("line-too-wide", c.close, format!("ends at column {}, limit {w}, and could be broken", b.col(b.end(c.close))));
                }
            }
            continue;
        }
        rep.count("broken_containers_judged");
        // why is it on several lines? only for containers nothing in the source asks to break
        let inner = |d: &Doc, k: usize| {
            // k and everything in it
            let k = &d.conts[k];
            d.conts.iter().filter(|x| x.open >= k.open && x.close <= k.close).any(|x| x.comment || x.trailing_comma || x.blank || x.mlstr)
        };
        if src_cont(ci).is_none_or(|k| inner(&a, k)) || inner(&b, ci) {
            continue;
        }
        let fits = match o.width {
            None => true,
            Some(w) => {
                let line = b.col(b.toks[c.open].start) + cols(&one_line(&b, c, &o));
                let tail = (c.close + 1 < n && b.cls[c.close + 1] == C::Comment).then(|| o.tc + cols(&b.toks[c.close + 1].text)).unwrap_or(0);
                line + tail <= w
            }
        };
        if fits {
            return bad("needlessly-broken", c.open, format!("fits on its line: {:?}", one_line(&b, c, &o)));
        }
    }
    None
}

fn aligned(b: &Doc, eqs: &[usize], gap: usize, rep: &mut Rep) -> V {
    if eqs.is_empty() {
        return None;
    }
    rep.count("equals_aligned_groups");
    let col = b.col(b.toks[eqs[0]].start);
    let far = eqs.iter().map(|i| b.col(b.end(*i - 1))).max().unwrap();
    if eqs.iter().any(|i| b.col(b.toks[*i].start) != col) || col != far + gap {
        return Some(("equals-not-aligned".into(), format!("out {:?}: equals at columns {:?}, longest key ends at {far}, gap {gap}", b.text, eqs.iter().map(|i| b.col(b.toks[*i].start)).collect::<Vec<_>>())));
    }
    None
}

impl Layout {
    fn verdict(&self, src: &str, v11: bool, rules: &Map<String, J>, rep: &mut Rep) -> V {
        if val::reference(src, v11).is_err() {
            return None;
        }
        let o = opts::options(rules);
        match guard(|| self.env.format(src, opts::toml_version(v11), &o)) {
            Err(p) => Some((panic_sig(&p), format!("panic {p}"))),
            Ok(Err(_)) => {
                rep.count("refused");
                None
            }
            Ok(Ok(out)) => {
                if val::reference(&out, v11).is_err() {
                    rep.count("output_invalid"); // judged by P03
                    return None;
                }
                judge(src, &out, v11, rules, rep)
            }
        }
    }
}

impl Check for Layout {
    fn case(&mut self, _idx: u64, r: &mut Rng, rep: &mut Rep) {
        let v11 = r.chance(1, 2);
        let mut src = any_doc(r, &self.all, v11);
        if src.contains("#:") || src.contains("tombi:") || src.contains('\u{feff}') {
            return;
        }
        if r.chance(1, 8) {
            src = src.replace("\r\n", "\n").replace('\n', "\r\n");
        }
        let rules = opts::random_rules(r);
        if val::reference(&src, v11).is_err() {
            rep.count("skipped_invalid");
            return;
        }
        rep.count("formatted");
        rep.eval(&src, src.contains('=') || src.contains('['));
        rep.sample(&src);
        if let Some((sig, _)) = self.verdict(&src, v11, &rules, rep) {
            let mut sink = Rep::default();
            let mut rules = rules;
            for k in rules.keys().cloned().collect::<Vec<_>>() {
                let mut r2 = rules.clone();
                r2.remove(&k);
                if self.verdict(&src, v11, &r2, &mut sink).map(|x| x.0) == Some(sig.clone()) {
                    rules = r2;
                }
            }
            let small = shrink(&src, Duration::from_secs(5), |t| self.verdict(t, v11, &rules, &mut sink).map(|x| x.0) == Some(sig.clone()));
            let (sig, msg) = self.verdict(&small, v11, &rules, &mut sink).unwrap();
            let sig = format!("{sig} {}", rules.keys().cloned().collect::<Vec<_>>().join(","));
            rep.viol(sig, format!("v11={v11} {rules:?} {small:?}: {msg}"), json!({"src": small, "v11": v11, "rules": rules}));
        }
    }
}
