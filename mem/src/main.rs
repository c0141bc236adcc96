//! Workload and online monitor for the syntax tree: a random program of walks and edits runs on the real tree and on a
//! plain model of it; every answer of the tree is compared with the model's. Run under Miri and under AddressSanitizer,
//! which watch the memory accesses.
use std::collections::HashMap;
use std::ops::Range;

use tombi_rg_tree::cursor::{SyntaxElement, SyntaxNode, SyntaxToken};
use tombi_rg_tree::{
    Direction, GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken, SyntaxKind, TokenAtOffset,
};
use tombi_text::{Offset, Position, Span};

mod docs;

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
}

#[derive(Clone, Debug)]
enum Spec {
    Node(u16, Vec<Spec>),
    Tok(u16, &'static str),
}
const TEXTS: &[&str] = &["a", "=", "\n", " ", "1", "abc", "é", "日本", "x\ny", "\n\n", "#c", "[", "]", "key", ""];

impl Spec {
    fn rand(r: &mut Rng, depth: usize, width: usize) -> Spec {
        if depth == 0 || r.chance(1, 3) {
            let n = TEXTS.len() - (r.below(6) > 0) as usize;
            Spec::Tok(100 + r.below(4) as u16, TEXTS[r.below(n)])
        } else {
            Spec::node(r, depth, width)
        }
    }
    fn node(r: &mut Rng, depth: usize, width: usize) -> Spec {
        let n = r.below(width + 1);
        Spec::Node(r.below(5) as u16, (0..n).map(|_| Spec::rand(r, depth - 1, width)).collect())
    }
    fn text(&self) -> String {
        match self {
            Spec::Tok(_, t) => t.to_string(),
            Spec::Node(_, c) => c.iter().map(|c| c.text()).collect(),
        }
    }
    fn build(&self, b: &mut GreenNodeBuilder<'_>, r: &mut Rng) {
        match self {
            Spec::Tok(k, t) => b.token(SyntaxKind(*k), t),
            Spec::Node(k, c) => {
                let ck = b.checkpoint();
                let at = if r.chance(1, 3) { r.below(c.len() + 1) } else { 0 };
                let late = r.chance(1, 3);
                if !late {
                    b.start_node(SyntaxKind(*k));
                }
                for (i, x) in c.iter().enumerate() {
                    if late && i == at {
                        b.start_node_at(ck, SyntaxKind(*k));
                    }
                    x.build(b, r);
                }
                if late && at >= c.len() {
                    b.start_node_at(ck, SyntaxKind(*k));
                }
                b.finish_node();
            }
        }
    }
    fn green(&self) -> NodeOrToken<GreenNode, GreenToken> {
        match self {
            Spec::Tok(k, t) => GreenToken::new(SyntaxKind(*k), t).into(),
            Spec::Node(k, c) => GreenNode::new(SyntaxKind(*k), c.iter().map(|c| c.green()).collect::<Vec<_>>()).into(),
        }
    }
}

// -------------------------------------------------------------------------------------------------------- the model
#[derive(Clone)]
struct N {
    kind: u16,
    text: Option<String>,
    kids: Vec<usize>,
    parent: Option<usize>,
}
#[derive(Default, Clone)]
struct M {
    a: Vec<N>,
}
impl M {
    fn add(&mut self, s: &Spec, parent: Option<usize>) -> usize {
        let id = self.a.len();
        match s {
            Spec::Tok(k, t) => self.a.push(N { kind: *k, text: Some(t.to_string()), kids: vec![], parent }),
            Spec::Node(k, c) => {
                self.a.push(N { kind: *k, text: None, kids: vec![], parent });
                for x in c {
                    let i = self.add(x, Some(id));
                    self.a[id].kids.push(i);
                }
            }
        }
        id
    }
    fn copy_from(&mut self, o: &M, i: usize, parent: Option<usize>, map: &mut HashMap<usize, usize>) -> usize {
        let id = self.a.len();
        map.insert(i, id);
        self.a.push(N { kids: vec![], parent, ..o.a[i].clone() });
        for k in o.a[i].kids.clone() {
            let n = self.copy_from(o, k, Some(id), map);
            self.a[id].kids.push(n);
        }
        id
    }
    fn text(&self, i: usize) -> String {
        let mut s = String::new();
        self.text_to(i, &mut s);
        s
    }
    fn text_to(&self, i: usize, s: &mut String) {
        if let Some(t) = &self.a[i].text {
            s.push_str(t);
        }
        for k in &self.a[i].kids {
            self.text_to(*k, s);
        }
    }
    fn root(&self, mut i: usize) -> usize {
        while let Some(p) = self.a[i].parent {
            i = p;
        }
        i
    }
    fn index(&self, i: usize) -> usize {
        self.a[i].parent.map_or(0, |p| self.a[p].kids.iter().position(|k| *k == i).unwrap())
    }
    fn before(&self, i: usize) -> String {
        let mut parts = vec![];
        let mut c = i;
        while let Some(p) = self.a[c].parent {
            let mut s = String::new();
            for k in &self.a[p].kids {
                if *k == c {
                    break;
                }
                self.text_to(*k, &mut s);
            }
            parts.push(s);
            c = p;
        }
        parts.into_iter().rev().collect()
    }
    fn is_node(&self, i: usize) -> bool {
        self.a[i].text.is_none()
    }
    fn sib(&self, i: usize, d: isize) -> Option<usize> {
        let p = self.a[i].parent?;
        let n = self.index(i) as isize + d;
        if n < 0 { None } else { self.a[p].kids.get(n as usize).copied() }
    }
    fn sib_node(&self, mut i: usize, d: isize) -> Option<usize> {
        loop {
            i = self.sib(i, d)?;
            if self.is_node(i) {
                return Some(i);
            }
        }
    }
    fn ancestors(&self, i: usize) -> Vec<usize> {
        std::iter::successors(Some(i), |x| self.a[*x].parent).collect()
    }
    fn pre(&self, i: usize, out: &mut Vec<usize>) {
        out.push(i);
        for k in &self.a[i].kids {
            self.pre(*k, out);
        }
    }
    fn detach(&mut self, i: usize) {
        if let Some(p) = self.a[i].parent.take() {
            self.a[p].kids.retain(|k| *k != i);
        }
    }
}
/// lines and columns of the end of a text that starts at 0:0, as the tree adds them up token by token
fn pos_of(chunks: &str) -> (u32, u32) {
    let mut p = (0, 0);
    for c in chunks.chars() {
        if c == '\n' {
            p = (p.0 + 1, 0);
        } else {
            p.1 += 1;
        }
    }
    p
}

// -------------------------------------------------------------------------------------------------------- the check
fn off(o: usize) -> Offset {
    Offset::new(o as u32)
}
#[derive(Default)]
struct Stats {
    c: HashMap<&'static str, u64>,
}
impl Stats {
    fn n(&mut self, k: &'static str) {
        *self.c.entry(k).or_default() += 1;
    }
}
fn same(m: &M, e: &SyntaxElement, id: usize) {
    let n = &m.a[id];
    let text = m.text(id);
    let pre = m.before(id);
    let (s, t) = (pos_of(&pre), pos_of(&(pre.clone() + &text)));
    let (kind, span, range, index, parent) = match e {
        NodeOrToken::Node(x) => (x.kind(), x.span(), x.range(), x.index(), x.parent()),
        NodeOrToken::Token(x) => (x.kind(), x.span(), x.range(), x.index(), x.parent()),
    };
    assert_eq!(kind.0, n.kind, "kind");
    assert_eq!(span, Span::new(off(pre.len()), off(pre.len() + text.len())), "span");
    assert_eq!((range.start, range.end), (Position::new(s.0, s.1), Position::new(t.0, t.1)), "range");
    if n.parent.is_some() {
        assert_eq!(index, m.index(id), "index");
    }
    assert_eq!(parent.as_ref().map(|p| p.kind().0), n.parent.map(|p| m.a[p].kind), "parent");
    match e {
        NodeOrToken::Node(x) => {
            assert!(n.text.is_none(), "a token became a node");
            assert_eq!(x.text().to_string(), text, "text of a node");
            assert_eq!(x.green().to_string(), text, "text of the green node");
        }
        NodeOrToken::Token(x) => assert_eq!(Some(x.text()), n.text.as_deref(), "text of a token"),
    }
}
fn same_deep(m: &M, e: &SyntaxElement, id: usize) {
    same(m, e, id);
    if let NodeOrToken::Node(x) = e {
        let kids: Vec<SyntaxElement> = x.children_with_tokens().collect();
        assert_eq!(kids.len(), m.a[id].kids.len(), "number of children");
        for (c, k) in kids.iter().zip(&m.a[id].kids) {
            same_deep(m, c, *k);
        }
    }
}
fn el(n: SyntaxNode) -> SyntaxElement {
    n.into()
}
fn tk(n: SyntaxToken) -> SyntaxElement {
    n.into()
}

struct W<'a> {
    r: &'a mut Rng,
    m: M,
    h: Vec<(SyntaxElement, usize)>,
    mutable: bool,
    st: &'a mut Stats,
    greens: Vec<(GreenNode, String)>,
}
impl W<'_> {
    fn put(&mut self, e: Option<SyntaxElement>, id: Option<usize>, what: &str) {
        assert_eq!(e.is_some(), id.is_some(), "{what} is there or not");
        if let (Some(e), Some(id)) = (e, id) {
            same(&self.m, &e, id);
            self.h.push((e, id));
        }
    }
    /// one step from a random handle to a related element
    fn nav(&mut self) {
        self.st.n("nav");
        let (e, i) = self.h[self.r.below(self.h.len())].clone();
        let m = &self.m;
        let firstlast = |i: usize, last: bool| -> Option<usize> {
            let mut v = vec![];
            m.pre(i, &mut v);
            // first_token and last_token go down the outermost children only
            let mut c = i;
            while m.is_node(c) {
                c = *if last { m.a[c].kids.last()? } else { m.a[c].kids.first()? };
            }
            Some(c)
        };
        let (x, id, what): (Option<SyntaxElement>, Option<usize>, &str) = match (&e, self.r.below(16)) {
            (NodeOrToken::Node(n), 0) => (n.parent().map(el), m.a[i].parent, "parent"),
            (NodeOrToken::Node(n), 1) => (n.first_child().map(el), m.a[i].kids.iter().copied().find(|k| m.is_node(*k)), "first child"),
            (NodeOrToken::Node(n), 2) => (n.last_child().map(el), m.a[i].kids.iter().copied().rev().find(|k| m.is_node(*k)), "last child"),
            (NodeOrToken::Node(n), 3) => (n.first_child_or_token(), m.a[i].kids.first().copied(), "first child or token"),
            (NodeOrToken::Node(n), 4) => (n.last_child_or_token(), m.a[i].kids.last().copied(), "last child or token"),
            (NodeOrToken::Node(n), 5) => (n.next_sibling().map(el), m.sib_node(i, 1), "next sibling"),
            (NodeOrToken::Node(n), 6) => (n.prev_sibling().map(el), m.sib_node(i, -1), "previous sibling"),
            (NodeOrToken::Node(n), 7) => (n.next_sibling_or_token(), m.sib(i, 1), "next sibling or token"),
            (NodeOrToken::Node(n), 8) => (n.prev_sibling_or_token(), m.sib(i, -1), "previous sibling or token"),
            (NodeOrToken::Node(n), 9) => (n.first_token().map(tk), firstlast(i, false), "first token"),
            (NodeOrToken::Node(n), 10) => (n.last_token().map(tk), firstlast(i, true), "last token"),
            (NodeOrToken::Node(n), 11 | 12) => {
                let k = self.r.below(m.a[i].kids.len() + 1);
                (n.children_with_tokens().nth(k), m.a[i].kids.get(k).copied(), "nth child or token")
            }
            (NodeOrToken::Node(n), 13) => {
                let d: Vec<SyntaxElement> = n.descendants_with_tokens().collect();
                let mut v = vec![];
                m.pre(i, &mut v);
                assert_eq!(d.len(), v.len(), "number of descendants");
                let k = self.r.below(v.len());
                (Some(d[k].clone()), Some(v[k]), "descendant")
            }
            (NodeOrToken::Node(n), 14) => {
                let a: Vec<SyntaxNode> = n.ancestors().collect();
                let v = m.ancestors(i);
                assert_eq!(a.len(), v.len(), "number of ancestors");
                let k = self.r.below(v.len());
                (Some(a[k].clone().into()), Some(v[k]), "ancestor")
            }
            (NodeOrToken::Node(n), _) => {
                let d: Vec<SyntaxNode> = n.descendants().collect();
                let mut v = vec![];
                m.pre(i, &mut v);
                v.retain(|x| m.is_node(*x));
                assert_eq!(d.len(), v.len(), "number of descendant nodes");
                let k = self.r.below(v.len());
                (Some(d[k].clone().into()), Some(v[k]), "descendant node")
            }
            (NodeOrToken::Token(t), 0..=3) => (t.parent().map(el), m.a[i].parent, "parent of a token"),
            (NodeOrToken::Token(t), 4..=6) => (t.next_sibling_or_token(), m.sib(i, 1), "sibling after a token"),
            (NodeOrToken::Token(t), 7..=9) => (t.prev_sibling_or_token(), m.sib(i, -1), "sibling before a token"),
            (NodeOrToken::Token(t), x) => {
                // the tokens after and before, where no empty node lies between
                let mut v = vec![];
                m.pre(m.root(i), &mut v);
                let p = v.iter().position(|y| *y == i).unwrap();
                let fwd = x % 2 == 0;
                if v.iter().any(|y| m.is_node(*y) && m.text(*y).is_empty()) {
                    (None, None, "")
                } else if fwd {
                    (t.next_token().map(tk), v[p + 1..].iter().copied().find(|y| !m.is_node(*y)), "next token")
                } else {
                    (t.prev_token().map(tk), v[..p].iter().rev().copied().find(|y| !m.is_node(*y)), "previous token")
                }
            }
        };
        self.put(x, id, what);
    }
    fn queries(&mut self) {
        self.st.n("query");
        let (e, i) = self.h[self.r.below(self.h.len())].clone();
        let m = &self.m;
        let dir = |fwd| if fwd { Direction::Next } else { Direction::Prev };
        let fwd = self.r.chance(1, 2);
        let sibs: Vec<usize> = std::iter::successors(Some(i), |x| m.sib(*x, if fwd { 1 } else { -1 })).collect();
        match &e {
            NodeOrToken::Token(t) => {
                let s: Vec<u16> = t.siblings_with_tokens(dir(fwd)).map(|x| kind(&x)).collect();
                assert_eq!(s, sibs.iter().map(|x| m.a[*x].kind).collect::<Vec<_>>(), "siblings of a token");
                assert_eq!(t.ancestors().count(), m.ancestors(i).len() - 1, "ancestors of a token");
                assert_eq!(t.green().text(), t.text(), "green token");
            }
            NodeOrToken::Node(n) => {
                let s: Vec<u16> = n.siblings_with_tokens(dir(fwd)).map(|x| kind(&x)).collect();
                assert_eq!(s, sibs.iter().map(|x| m.a[*x].kind).collect::<Vec<_>>(), "siblings and tokens");
                let s: Vec<u16> = n.siblings(dir(fwd)).map(|x| x.kind().0).collect();
                assert_eq!(s, sibs.iter().filter(|x| m.is_node(**x)).map(|x| m.a[*x].kind).collect::<Vec<_>>(), "siblings");
                assert_eq!(n.children().count(), m.a[i].kids.iter().filter(|x| m.is_node(**x)).count(), "children");
                let text = m.text(i);
                let start = m.before(i).len();
                let t = n.text();
                assert_eq!(t.len() as usize, text.len(), "length of the text");
                assert!(t == *text.as_str() && *text.as_str() == t && t == t.clone(), "text equality");
                for c in ['\n', '=', 'é', 'z'] {
                    assert_eq!(t.find_char(c), text.find(c).map(off), "find_char");
                    assert_eq!(t.contains_char(c), text.contains(c), "contains_char");
                }
                let cut: Vec<usize> = (0..=text.len()).filter(|x| text.is_char_boundary(*x)).collect();
                let (a, b) = (self.r.below(cut.len()), self.r.below(cut.len()));
                let (a, b) = (cut[a.min(b)], cut[a.max(b)]);
                assert_eq!(t.slice(off(a)..off(b)).to_string(), text[a..b], "slice");
                assert!(t.slice(off(a)..off(b)) == text[a..b], "equality of a slice");
                assert_eq!(t.slice(off(a)..).to_string(), text[a..], "slice from");
                assert_eq!(t.char_at(off(a)), text[a..].chars().next(), "char_at");
                // tokens at an offset: the ones that end and start there
                let mut v = vec![];
                m.pre(i, &mut v);
                let toks: Vec<(usize, usize, usize)> = v
                    .iter()
                    .filter(|x| !m.is_node(**x) && !m.a[**x].text.as_ref().unwrap().is_empty())
                    .map(|x| {
                        let s = m.before(*x).len();
                        (*x, s, s + m.a[*x].text.as_ref().unwrap().len())
                    })
                    .collect();
                let touching = |a: usize| -> Vec<usize> { toks.iter().filter(|(_, x, y)| *x <= a && a <= *y).map(|t| t.0).collect() };
                let got = match n.token_at_offset(off(start + a)) {
                    TokenAtOffset::None => vec![],
                    TokenAtOffset::Single(t) => vec![t],
                    TokenAtOffset::Between(a, b) => vec![a, b],
                };
                let want = touching(start + a);
                assert_eq!(got.len(), want.len(), "tokens at offset {a} of {text:?}");
                for (t, id) in got.into_iter().zip(want) {
                    same(m, &t.into(), id);
                }
                // the same, asked for by line and column
                let all: String = m.before(i) + &text;
                let at = pos_of(&all[..start + a]);
                let (from, to) = (pos_of(&all[..start]), pos_of(&all));
                let toks: Vec<usize> = toks
                    .iter()
                    .filter(|(_, x, y)| from != to && pos_of(&all[..*x]) <= at && at <= pos_of(&all[..*y]))
                    .map(|t| t.0)
                    .collect();
                let got = match n.token_at_position(Position::new(at.0, at.1)) {
                    TokenAtOffset::None => vec![],
                    TokenAtOffset::Single(t) => vec![t],
                    TokenAtOffset::Between(a, b) => vec![a, b],
                };
                assert_eq!(got.len(), toks.len(), "tokens at position {at:?} of {text:?}");
                for (t, id) in got.into_iter().zip(toks) {
                    same(m, &t.into(), id);
                }
                // the smallest element around a span
                let cov = n.covering_element(Span::new(off(start + a), off(start + b)));
                let sp = match &cov {
                    NodeOrToken::Node(x) => x.span(),
                    NodeOrToken::Token(x) => x.span(),
                };
                assert!(sp.contains_span(Span::new(off(start + a), off(start + b))), "covering element");
                if let NodeOrToken::Node(x) = &cov {
                    if a < b {
                        for c in x.children_with_tokens() {
                            let s = match &c {
                                NodeOrToken::Node(x) => x.span(),
                                NodeOrToken::Token(x) => x.span(),
                            };
                            assert!(!s.contains_span(Span::new(off(start + a), off(start + b))), "smallest covering element");
                        }
                    }
                }
            }
        }
    }
    fn keep_green(&mut self) {
        let (e, i) = self.h[self.r.below(self.h.len())].clone();
        if let NodeOrToken::Node(n) = e {
            self.st.n("green kept");
            self.greens.push((n.green().into_owned(), self.m.text(i)));
        }
    }
    fn detach(&mut self) {
        let k = self.r.below(self.h.len());
        let (e, i) = self.h[k].clone();
        self.st.n("detach");
        match &e {
            NodeOrToken::Node(n) => n.detach(),
            NodeOrToken::Token(t) => t.detach(),
        }
        self.m.detach(i);
        same(&self.m, &e, i);
    }
    fn detach_while_iterating(&mut self) {
        let (e, i) = self.h[self.r.below(self.h.len())].clone();
        let NodeOrToken::Node(n) = e else { return };
        self.st.n("detach while iterating");
        let kids = self.m.a[i].kids.clone();
        let mut seen = 0;
        for (c, k) in n.children_with_tokens().zip(kids.clone()) {
            seen += 1;
            if self.r.chance(1, 2) {
                match &c {
                    NodeOrToken::Node(n) => n.detach(),
                    NodeOrToken::Token(t) => t.detach(),
                }
                self.m.detach(k);
                if self.r.chance(1, 2) {
                    self.h.push((c, k));
                }
            }
        }
        assert_eq!(seen, kids.len(), "children seen while detaching");
    }
    fn fresh(&mut self) -> (SyntaxElement, usize) {
        let s = Spec::node(self.r, 2, 3);
        let NodeOrToken::Node(g) = s.green() else { unreachable!() };
        let n = if self.r.chance(1, 2) { SyntaxNode::new_root_mut(g) } else { SyntaxNode::new_root(g).clone_for_update() };
        let id = self.m.add(&s, None);
        if self.r.chance(1, 2) {
            if let Some(c) = n.first_child_or_token() {
                return (c, self.m.a[id].kids[0]);
            }
        }
        (n.into(), id)
    }
    fn splice(&mut self) {
        let (e, i) = self.h[self.r.below(self.h.len())].clone();
        let NodeOrToken::Node(n) = e else { return };
        let len = self.m.a[i].kids.len();
        let (a, b) = (self.r.below(len + 1), self.r.below(len + 1));
        let del: Range<usize> = a.min(b)..a.max(b);
        let anc = self.m.ancestors(i);
        let mut ins: Vec<(SyntaxElement, usize)> = vec![];
        for _ in 0..self.r.below(4) {
            let x = if self.r.chance(2, 3) { self.fresh() } else { self.h[self.r.below(self.h.len())].clone() };
            // not an ancestor, not a child that stays, nor below one that is put in already
            let stays = self.m.a[i].kids.iter().enumerate().any(|(n, k)| *k == x.1 && !del.contains(&n));
            if anc.contains(&x.1) || stays || ins.iter().any(|y| y.1 == x.1) {
                continue;
            }
            ins.push(x);
        }
        self.st.n(if ins.is_empty() { "splice out" } else { "splice in" });
        n.splice_children(del.clone(), ins.iter().map(|x| x.0.clone()).collect());
        for k in self.m.a[i].kids[del.clone()].to_vec() {
            self.m.detach(k);
        }
        for (at, (_, k)) in (del.start..).zip(&ins) {
            self.m.detach(*k);
            self.m.a[*k].parent = Some(i);
            self.m.a[i].kids.insert(at, *k);
        }
        same_deep(&self.m, &n.into(), i);
        self.h.extend(ins);
    }
    fn replaced(&mut self) {
        let (e, i) = self.h[self.r.below(self.h.len())].clone();
        let root = self.m.root(i);
        let (before, all) = (self.m.before(i), self.m.text(root));
        let old = self.m.text(i).len();
        self.st.n("replace_with");
        let (g, new) = match &e {
            NodeOrToken::Node(n) => {
                let s = Spec::Node(self.m.a[i].kind, vec![Spec::rand(self.r, 1, 2)]);
                let NodeOrToken::Node(g) = s.green() else { unreachable!() };
                (n.replace_with(g), s.text())
            }
            NodeOrToken::Token(t) => {
                if t.parent().is_none() {
                    return;
                }
                (t.replace_with(GreenToken::new(SyntaxKind(self.m.a[i].kind), "new")), "new".into())
            }
        };
        let want = format!("{before}{new}{}", &all[before.len() + old..]);
        assert_eq!(g.to_string(), want, "replace_with");
        self.greens.push((g, want));
    }
    fn clone_tree(&mut self) {
        let (e, i) = self.h[self.r.below(self.h.len())].clone();
        let NodeOrToken::Node(n) = e else { return };
        if self.r.chance(1, 2) {
            self.st.n("clone_subtree");
            let c = n.clone_subtree();
            let mut m = M::default();
            m.copy_from(&self.m, i, None, &mut HashMap::new());
            same_deep(&m, &c.into(), 0);
        } else if !self.mutable {
            self.st.n("clone_for_update");
            let c = n.clone_for_update();
            let mut m = M::default();
            let mut map = HashMap::new();
            m.copy_from(&self.m, self.m.root(i), None, &mut map);
            let id = map[&i];
            let len = self.r.below(12);
            let mut w = W { r: self.r, m, h: vec![(c.into(), id)], mutable: true, st: self.st, greens: vec![] };
            w.run(len);
        }
    }
    fn check(&mut self) {
        self.st.n("check of a whole tree");
        let k = self.r.below(self.h.len());
        let (e, i) = self.h[k].clone();
        let top = match &e {
            NodeOrToken::Node(n) => n.ancestors().last(),
            NodeOrToken::Token(t) => t.ancestors().last(),
        };
        match top {
            Some(t) => same_deep(&self.m, &t.into(), self.m.root(i)),
            None => same_deep(&self.m, &e, i),
        }
        for (e, i) in &self.h {
            same(&self.m, e, *i);
        }
        for (g, t) in &self.greens {
            assert_eq!(g.to_string(), *t, "a green node that was kept");
            assert_eq!(g.text_len() as usize, t.len(), "length of a green node that was kept");
        }
    }
    fn run(&mut self, steps: usize) {
        for _ in 0..steps {
            if self.h.is_empty() {
                break;
            }
            match self.r.below(if self.mutable { 20 } else { 14 }) {
                0..=5 => self.nav(),
                6 | 7 => self.queries(),
                8 => self.keep_green(),
                9 => {
                    if self.h.len() > 1 {
                        self.st.n("drop");
                        let k = self.r.below(self.h.len());
                        self.h.swap_remove(k);
                    }
                }
                10 => self.clone_tree(),
                11 => {
                    if self.r.chance(1, 3) {
                        self.check()
                    }
                }
                12 => self.replaced(),
                13 => {
                    let k = self.r.below(self.h.len());
                    let c = self.h[k].clone();
                    assert!(c.0 == self.h[k].0, "a clone equals its original");
                    self.h.push(c);
                }
                14 | 15 => self.detach(),
                16 => self.detach_while_iterating(),
                _ => self.splice(),
            }
            while self.h.len() > 12 {
                self.st.n("drop");
                let k = self.r.below(self.h.len());
                self.h.swap_remove(k);
            }
            self.greens.truncate(6);
        }
        if !self.h.is_empty() {
            self.check();
        }
        while !self.h.is_empty() {
            let k = self.r.below(self.h.len());
            self.h.swap_remove(k);
            if self.r.chance(1, 8) && !self.h.is_empty() {
                self.check();
            }
        }
    }
}
fn kind(e: &SyntaxElement) -> u16 {
    match e {
        NodeOrToken::Node(x) => x.kind().0,
        NodeOrToken::Token(x) => x.kind().0,
    }
}

/// the children of a green node, from both ends
fn green_children(r: &mut Rng, g: &GreenNode, s: &Spec) {
    let Spec::Node(_, c) = s else { return };
    assert_eq!(g.children().len(), c.len(), "number of green children");
    let mut it = g.children();
    let (mut a, mut b) = (0, c.len());
    while a < b {
        let fwd = r.chance(1, 2);
        let x = if fwd { it.next() } else { it.next_back() }.expect("a green child");
        let want = if fwd {
            a += 1;
            &c[a - 1]
        } else {
            b -= 1;
            &c[b]
        };
        let (k, t) = match x {
            NodeOrToken::Node(n) => (n.kind().0, n.to_string()),
            NodeOrToken::Token(n) => (n.kind().0, n.text().to_string()),
        };
        let wk = match want {
            Spec::Node(k, _) | Spec::Tok(k, _) => *k,
        };
        assert_eq!((k, t), (wk, want.text()), "a green child");
        if let (NodeOrToken::Node(n), true) = (x, r.chance(1, 2)) {
            green_children(r, &n.to_owned(), want);
        }
    }
    assert!(it.next().is_none() && it.next_back().is_none());
    if !c.is_empty() {
        let k = r.below(c.len());
        assert_eq!(g.children().nth(k).map(|x| x.to_string()), Some(c[k].text()), "nth green child");
        assert_eq!(g.children().last().map(|x| x.to_string()), c.last().map(|x| x.text()), "last green child");
        let t = |v: Vec<String>| v.concat();
        let mut v: Vec<String> = c.iter().map(|x| x.text()).collect();
        match r.below(3) {
            0 => {
                v[k] = "R".into();
                assert_eq!(g.replace_child(k, GreenToken::new(SyntaxKind(100), "R").into()).to_string(), t(v), "replace_child");
            }
            1 => {
                v.insert(k, "I".into());
                assert_eq!(g.insert_child(k, GreenToken::new(SyntaxKind(100), "I").into()).to_string(), t(v), "insert_child");
            }
            _ => {
                v.remove(k);
                assert_eq!(g.remove_child(k).to_string(), t(v), "remove_child");
            }
        }
    }
}

fn program(seed: u64, st: &mut Stats, small: bool, cache: &mut NodeCache) {
    let r = &mut Rng::new(seed);
    let depth = 1 + r.below(3);
    let s = Spec::node(r, depth, 4);
    let mut own = NodeCache::default();
    let mut b = match r.below(3) {
        0 => GreenNodeBuilder::new(),
        1 => GreenNodeBuilder::with_cache(&mut own),
        _ => GreenNodeBuilder::with_cache(cache),
    };
    s.build(&mut b, r);
    let g = b.finish();
    assert_eq!(g.to_string(), s.text(), "the tree that was built");
    green_children(r, &g, &s);
    let mut m = M::default();
    m.add(&s, None);
    let mutable = r.chance(2, 3);
    let n = if mutable { SyntaxNode::new_root_mut(g) } else { SyntaxNode::new_root(g) };
    drop(own);
    same_deep(&m, &n.clone().into(), 0);
    let len = if small { 10 + r.below(25) } else { 20 + r.below(120) };
    let mut w = W { r, m, h: vec![(n.into(), 0)], mutable, st, greens: vec![] };
    w.run(len);
}

/// green trees shared by threads that build, edit and drop
fn threads(seed: u64, st: &mut Stats) {
    let r = &mut Rng::new(seed);
    let s = Spec::node(r, 2, 3);
    let NodeOrToken::Node(g) = s.green() else { unreachable!() };
    let text = s.text();
    let (tx, rx) = std::sync::mpsc::channel::<(GreenNode, String)>();
    let mut hs = vec![];
    for t in 0..3u64 {
        let (g, text, tx) = (g.clone(), text.clone(), tx.clone());
        hs.push(std::thread::spawn(move || {
            let r = &mut Rng::new(seed.wrapping_mul(7).wrapping_add(t));
            let outer = GreenNode::new(
                SyntaxKind(9),
                vec![g.clone().into(), GreenToken::new(SyntaxKind(100), "+").into(), g.clone().into()],
            );
            drop(g);
            assert_eq!(outer.to_string(), format!("{text}+{text}"), "shared green node");
            let n = SyntaxNode::new_root_mut(outer.clone());
            let c = n.first_child().unwrap();
            if r.chance(1, 2) {
                tx.send((outer, format!("{text}+{text}"))).unwrap();
            } else {
                drop(outer);
            }
            for x in c.children_with_tokens() {
                if let (NodeOrToken::Node(x), true) = (x, r.chance(1, 2)) {
                    x.detach();
                }
            }
            let now = n.text().to_string();
            tx.send((n.green().into_owned(), now.clone())).unwrap();
            if r.chance(1, 2) {
                drop(c);
            }
            drop(n);
        }));
    }
    drop((g, tx));
    let mut k = 0;
    for (g, t) in rx {
        assert_eq!(g.to_string(), t, "green node from another thread");
        k += 1;
        if k % 2 == 0 {
            std::thread::yield_now();
        }
    }
    for h in hs {
        h.join().expect("a thread");
    }
    st.n("threads");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mode = a.get(1).map(|s| s.as_str()).unwrap_or("tree");
    let seed: u64 = a.get(2).map_or(1, |s| s.parse().unwrap());
    let from: u64 = a.get(3).map_or(0, |s| s.parse().unwrap());
    let to: u64 = a.get(4).map_or(50, |s| s.parse().unwrap());
    let secs: u64 = a.get(5).map_or(20, |s| s.parse().unwrap());
    let small = cfg!(miri);
    let t0 = std::time::Instant::now();
    let mut st = Stats::default();
    let mut cache = NodeCache::default();
    let mut done = 0;
    for i in from..to {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        // what ran last, should a sanitizer end the process
        eprintln!("AT {i}");
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i);
        match mode {
            "tree" => program(s, &mut st, small, &mut cache),
            "threads" => threads(s, &mut st),
            "docs" => docs::run(s, &mut st.c, small),
            x => panic!("mode {x}"),
        }
        done += 1;
        if i % 64 == 63 {
            cache = NodeCache::default();
        }
    }
    drop(cache);
    let mut v: Vec<_> = st.c.iter().collect();
    v.sort();
    println!("DONE {done} {}", v.iter().map(|(k, n)| format!("{}={n}", k.replace(' ', "_"))).collect::<Vec<_>>().join(" "));
}
