//! Regular expressions: generators of surface syntax, reference automata built independently of the
//! tokenizer (Thompson construction with fresh nodes, subset construction over character intervals),
//! and derivation of test strings from the reference.

use crate::engine::Src;
use regex_syntax::hir::{Class, Hir, HirKind, Literal, RepetitionKind, RepetitionRange};
use std::collections::HashMap;

pub const MAX: u32 = 0x10FFFF;

// ---------------------------------------------------------------- reading patterns

pub fn parse(p: &str) -> Option<Hir> {
    regex_syntax::Parser::new().parse(p).ok()
}

/// Does the pattern contain an empty sub-expression (the shape of the known finding of C01)?
pub fn has_empty(h: &Hir) -> bool {
    match h.kind() {
        HirKind::Empty => true,
        HirKind::Repetition(r) => has_empty(&r.hir),
        HirKind::Group(g) => has_empty(&g.hir),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().any(has_empty),
        _ => false,
    }
}

/// Does the pattern use a construct a character tokenizer cannot honour?
pub fn has_unsupported(h: &Hir) -> bool {
    match h.kind() {
        HirKind::Anchor(_) | HirKind::WordBoundary(_) => true,
        HirKind::Literal(Literal::Byte(_)) | HirKind::Class(Class::Bytes(_)) => true,
        HirKind::Repetition(r) => has_unsupported(&r.hir),
        HirKind::Group(g) => has_unsupported(&g.hir),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().any(has_unsupported),
        _ => false,
    }
}

pub fn rep_bounds(k: &RepetitionKind) -> (u32, Option<u32>) {
    match k {
        RepetitionKind::ZeroOrOne => (0, Some(1)),
        RepetitionKind::ZeroOrMore => (0, None),
        RepetitionKind::OneOrMore => (1, None),
        RepetitionKind::Range(RepetitionRange::Exactly(n)) => (*n, Some(*n)),
        RepetitionKind::Range(RepetitionRange::AtLeast(n)) => (*n, None),
        RepetitionKind::Range(RepetitionRange::Bounded(n, m)) => (*n, Some(*m)),
    }
}

/// Thompson nodes the pattern needs.
pub fn hir_size(h: &Hir) -> u64 {
    match h.kind() {
        HirKind::Repetition(r) => {
            let (lo, hi) = rep_bounds(&r.kind);
            (hi.unwrap_or(lo + 1).max(1) as u64).saturating_mul(hir_size(&r.hir) + 1)
        }
        HirKind::Group(g) => hir_size(&g.hir),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().map(hir_size).fold(1u64, |a, b| a.saturating_add(b)),
        _ => 2,
    }
}

// ---------------------------------------------------------------- reference NFA

pub struct Nfa {
    eps: Vec<Vec<u32>>,
    tr: Vec<Vec<(u32, u32, u32)>>,
    start: u32,
    ends: Vec<u32>,
    /// the recorded defect: an empty sub-expression matches any string
    empty_is_any: bool,
}

impl Nfa {
    fn node(&mut self) -> u32 {
        self.eps.push(Vec::new());
        self.tr.push(Vec::new());
        (self.eps.len() - 1) as u32
    }
    fn frag(&mut self, h: &Hir, from: u32) -> u32 {
        match h.kind() {
            HirKind::Empty => {
                let to = self.node();
                self.eps[from as usize].push(to);
                if self.empty_is_any {
                    self.tr[to as usize].push((0, MAX, to));
                }
                to
            }
            HirKind::Literal(Literal::Unicode(c)) => {
                let to = self.node();
                self.tr[from as usize].push((*c as u32, *c as u32, to));
                to
            }
            HirKind::Class(Class::Unicode(c)) => {
                let to = self.node();
                for r in c.iter() {
                    self.tr[from as usize].push((r.start() as u32, r.end() as u32, to));
                }
                to
            }
            HirKind::Repetition(r) => {
                let (lo, hi) = rep_bounds(&r.kind);
                let mut cur = self.node();
                self.eps[from as usize].push(cur);
                for _ in 0..lo {
                    cur = self.frag(&r.hir, cur);
                    let n = self.node();
                    self.eps[cur as usize].push(n);
                    cur = n;
                }
                match hi {
                    None => {
                        // loop on a fresh pair of nodes
                        let head = self.node();
                        self.eps[cur as usize].push(head);
                        let body = self.node();
                        self.eps[head as usize].push(body);
                        let e = self.frag(&r.hir, body);
                        self.eps[e as usize].push(head);
                        let out = self.node();
                        self.eps[head as usize].push(out);
                        out
                    }
                    Some(hi) => {
                        let out = self.node();
                        for _ in lo..hi {
                            self.eps[cur as usize].push(out);
                            cur = self.frag(&r.hir, cur);
                            let n = self.node();
                            self.eps[cur as usize].push(n);
                            cur = n;
                        }
                        self.eps[cur as usize].push(out);
                        out
                    }
                }
            }
            HirKind::Group(g) => self.frag(&g.hir, from),
            HirKind::Concat(v) => {
                let mut cur = from;
                for x in v {
                    cur = self.frag(x, cur);
                }
                cur
            }
            HirKind::Alternation(v) => {
                let out = self.node();
                for x in v {
                    let n = self.node();
                    self.eps[from as usize].push(n);
                    let e = self.frag(x, n);
                    self.eps[e as usize].push(out);
                }
                out
            }
            _ => panic!("unsupported construct reached the reference"),
        }
    }
    pub fn new(hirs: &[Hir], empty_is_any: bool) -> Nfa {
        let mut n = Nfa { eps: vec![], tr: vec![], start: 0, ends: vec![], empty_is_any };
        n.start = n.node();
        for h in hirs {
            let b = n.node();
            let s = n.start as usize;
            n.eps[s].push(b);
            let e = n.frag(h, b);
            // a node of its own, so that no edge leaves an end
            let f = n.node();
            n.eps[e as usize].push(f);
            n.ends.push(f);
        }
        n
    }
    fn closure(&self, mut set: Vec<u32>) -> Vec<u32> {
        let mut seen = std::collections::HashSet::new();
        let mut out = Vec::new();
        while let Some(x) = set.pop() {
            if seen.insert(x) {
                // only nodes that matter: those with character edges or that are ends
                if !self.tr[x as usize].is_empty() || self.ends.contains(&x) {
                    out.push(x);
                }
                set.extend(self.eps[x as usize].iter().copied());
            }
        }
        out.sort_unstable();
        out
    }
}

// ---------------------------------------------------------------- reference DFA

pub struct Dfa {
    /// interval i is bounds[i]..bounds[i+1]
    pub bounds: Vec<u32>,
    /// trans[state] = sorted runs (first interval, last interval, target)
    pub trans: Vec<Vec<(u32, u32, u32)>>,
    /// patterns matched at a state, in order
    pub accept: Vec<Vec<u32>>,
    /// shortest access: (previous state, interval)
    pub access: Vec<(u32, u32)>,
}

/// About a second of the code under test.
const STEPS: u64 = 1_500_000;

impl Dfa {
    /// None when more than cap states are needed, or when building it the usual way takes very many steps.
    pub fn new(hirs: &[Hir], empty_is_any: bool, cap: usize) -> Option<Dfa> {
        let nfa = Nfa::new(hirs, empty_is_any);
        let mut bounds = vec![0, 0xD800, 0xE000, MAX + 1];
        for t in nfa.tr.iter().flatten() {
            bounds.push(t.0);
            bounds.push(t.1 + 1);
        }
        bounds.sort_unstable();
        bounds.dedup();
        let idx = |c: u32| bounds.binary_search(&c).unwrap() as u32;
        let tr: Vec<Vec<(u32, u32, u32)>> = nfa.tr.iter().map(|v| v.iter().map(|t| (idx(t.0), idx(t.1 + 1) - 1, t.2)).collect()).collect();
        let mut ids: HashMap<Vec<u32>, u32> = HashMap::new();
        let start = nfa.closure(vec![nfa.start]);
        let mut sets = vec![start.clone()];
        ids.insert(start, 0);
        let mut d = Dfa { bounds: bounds.clone(), trans: vec![], accept: vec![], access: vec![(0, 0)] };
        let mut i = 0;
        let mut memo: HashMap<Vec<u32>, u32> = HashMap::new();
        let mut cost = 0u64;
        while i < sets.len() {
            let set = sets[i].clone();
            d.accept.push(nfa.ends.iter().enumerate().filter(|(_, e)| set.contains(e)).map(|(p, _)| p as u32).collect());
            // sweep over interval starts where the set of live targets changes
            let mut ev: Vec<(u32, bool, u32)> = Vec::new();
            for n in &set {
                for t in &tr[*n as usize] {
                    ev.push((t.0, true, t.2));
                    ev.push((t.1 + 1, false, t.2));
                }
            }
            ev.sort_unstable();
            let mut live: std::collections::BTreeMap<u32, u32> = Default::default();
            let mut runs: Vec<(u32, u32, u32)> = Vec::new();
            let mut k = 0;
            while k < ev.len() {
                let at = ev[k].0;
                while k < ev.len() && ev[k].0 == at {
                    let e = live.entry(ev[k].2).or_insert(0);
                    if ev[k].1 {
                        *e += 1;
                    } else {
                        // starts sort after ends at one point only through the bool order, so allow a transient dip
                        *e = e.wrapping_sub(1);
                    }
                    if *e == 0 {
                        live.remove(&ev[k].2);
                    }
                    k += 1;
                }
                if live.is_empty() {
                    continue;
                }
                let until = ev[k].0 - 1;
                let raw: Vec<u32> = live.keys().copied().collect();
                let id = match memo.get(&raw) {
                    Some(id) => *id,
                    None => {
                        let next = nfa.closure(raw.clone());
                        let id = match ids.get(&next) {
                            Some(id) => *id,
                            None => {
                                let id = sets.len() as u32;
                                if sets.len() >= cap {
                                    return None;
                                }
                                ids.insert(next.clone(), id);
                                sets.push(next);
                                d.access.push((i as u32, at));
                                id
                            }
                        };
                        memo.insert(raw, id);
                        id
                    }
                };
                runs.push((at, until, id));
                cost += (live.len() * (5 + sets[id as usize].len())) as u64;
                if cost > STEPS {
                    return None;
                }
            }
            d.trans.push(runs);
            i += 1;
        }
        Some(d)
    }

    pub fn step(&self, state: u32, c: char) -> Option<u32> {
        let c = c as u32;
        let i = self.bounds.partition_point(|b| *b <= c) as u32 - 1;
        let runs = &self.trans[state as usize];
        let k = runs.partition_point(|r| r.0 <= i);
        if k == 0 {
            return None;
        }
        let r = runs[k - 1];
        if i <= r.1 {
            Some(r.2)
        } else {
            None
        }
    }

    /// Longest match: (length, first pattern) and the number of characters after which the scan was decided.
    pub fn longest(&self, cs: &[char]) -> (Option<(usize, u32)>, usize) {
        let mut s = 0u32;
        let mut best = self.accept[0].first().map(|p| (0usize, *p));
        for (i, c) in cs.iter().enumerate() {
            match self.step(s, *c) {
                Some(n) => {
                    s = n;
                    if let Some(p) = self.accept[s as usize].first() {
                        best = Some((i + 1, *p));
                    }
                }
                None => return (best, i + 1),
            }
        }
        (best, cs.len())
    }

    pub fn matches(&self, cs: &[char]) -> Vec<u32> {
        let mut s = 0u32;
        for c in cs {
            match self.step(s, *c) {
                Some(n) => s = n,
                None => return vec![],
            }
        }
        self.accept[s as usize].clone()
    }

    /// A character of the interval run; picks its ends often, where mistakes hide.
    fn char_in(&self, first: u32, last: u32, src: &mut Src) -> Option<char> {
        let lo = self.bounds[first as usize];
        let hi = self.bounds[last as usize + 1] - 1;
        char_between(lo, hi, src)
    }

    pub fn access_string(&self, state: u32, src: &mut Src) -> Option<Vec<char>> {
        let mut v = Vec::new();
        let mut s = state;
        while s != 0 {
            let (p, i) = self.access[s as usize];
            // the whole run that leads there
            let run = self.trans[p as usize].iter().find(|r| r.0 <= i && i <= r.1)?;
            v.push(self.char_in(run.0, run.1, src)?);
            s = p;
        }
        v.reverse();
        Some(v)
    }

    /// A random walk from a state, stopping preferably where something is accepted.
    pub fn walk(&self, mut state: u32, max: usize, src: &mut Src, out: &mut Vec<char>) {
        for _ in 0..max {
            let runs = &self.trans[state as usize];
            if runs.is_empty() {
                return;
            }
            if !self.accept[state as usize].is_empty() && src.chance(1, 3) {
                return;
            }
            let r = runs[src.n(runs.len())];
            match self.char_in(r.0, r.1, src) {
                Some(c) => out.push(c),
                None => return,
            }
            state = r.2;
        }
    }

    /// One walk of n characters, as long as there is a way on.
    pub fn walk_on(&self, n: usize, src: &mut Src, out: &mut Vec<char>) {
        let mut s = 0u32;
        let few = src.chance(1, 2);
        let mut c = None;
        for _ in 0..n {
            let t = c.and_then(|c| self.step(s, c)).filter(|t| few && !self.trans[*t as usize].is_empty());
            s = match t {
                Some(t) => t,
                None => {
                    let runs = &self.trans[s as usize];
                    if runs.is_empty() {
                        return;
                    }
                    let on: Vec<_> = runs.iter().filter(|r| !self.trans[r.2 as usize].is_empty()).collect();
                    let r = if on.is_empty() { &runs[src.n(runs.len())] } else { on[src.n(on.len())] };
                    c = self.char_in(r.0, r.1, src);
                    r.2
                }
            };
            match c {
                Some(c) => out.push(c),
                None => return,
            }
        }
    }

    /// A text of about n characters: a walk that avoids dead ends, starting over where there is no other way.
    pub fn long_text(&self, n: usize, src: &mut Src) -> Vec<char> {
        let mut out = Vec::with_capacity(n);
        let mut s = 0u32;
        // few decisions: a transition is followed repeatedly while it stays possible
        while out.len() < n {
            let runs = &self.trans[s as usize];
            let on: Vec<_> = runs.iter().filter(|r| !self.trans[r.2 as usize].is_empty()).collect();
            let r = if on.is_empty() {
                if runs.is_empty() {
                    if s == 0 {
                        break;
                    }
                    s = 0;
                    continue;
                }
                runs[src.n(runs.len())]
            } else {
                *on[src.n(on.len())]
            };
            let Some(c) = self.char_in(r.0, r.1, src) else {
                s = 0;
                out.push('a');
                continue;
            };
            let k = [1, 1, 3, 40, 1000][src.n(5)];
            for _ in 0..k {
                match self.step(s, c) {
                    Some(t) if out.len() < n => {
                        out.push(c);
                        s = t;
                    }
                    _ => break,
                }
            }
        }
        out
    }

    /// Walk to an accepting state the short way (by distance), if there is one.
    pub fn walk_to_accept(&self, mut state: u32, dist: &[u32], src: &mut Src, out: &mut Vec<char>) {
        while dist[state as usize] > 0 && dist[state as usize] != u32::MAX {
            let want = dist[state as usize] - 1;
            let opts: Vec<_> = self.trans[state as usize].iter().filter(|r| dist[r.2 as usize] == want).collect();
            let r = opts[src.n(opts.len())];
            match self.char_in(r.0, r.1, src) {
                Some(c) => out.push(c),
                None => return,
            }
            state = r.2;
        }
    }

    pub fn distances(&self) -> Vec<u32> {
        let n = self.trans.len();
        let mut rev: Vec<Vec<u32>> = vec![vec![]; n];
        for (s, runs) in self.trans.iter().enumerate() {
            for r in runs {
                rev[r.2 as usize].push(s as u32);
            }
        }
        let mut d = vec![u32::MAX; n];
        let mut q = std::collections::VecDeque::new();
        for s in 0..n {
            if !self.accept[s].is_empty() {
                d[s] = 0;
                q.push_back(s);
            }
        }
        while let Some(s) = q.pop_front() {
            for p in &rev[s] {
                if d[*p as usize] == u32::MAX {
                    d[*p as usize] = d[s] + 1;
                    q.push_back(*p as usize);
                }
            }
        }
        d
    }

    /// Test strings: every (state, run) pair of a small automaton at the ends of the run and just outside of it,
    /// each followed by a way to acceptance, plus random walks.
    pub fn strings(&self, max: usize, src: &mut Src) -> Vec<Vec<char>> {
        let dist = self.distances();
        let mut pairs: Vec<(u32, u32, bool)> = Vec::new();
        for s in 0..self.trans.len() {
            for k in 0..self.trans[s].len() {
                pairs.push((s as u32, k as u32, false));
                pairs.push((s as u32, k as u32, true));
            }
        }
        if pairs.len() > max {
            src.shuffle_prefix(&mut pairs, max);
            pairs.truncate(max);
        }
        let mut out = vec![vec![]];
        for (s, k, outside) in pairs {
            let Some(mut v) = self.access_string(s, src) else { continue };
            let r = self.trans[s as usize][k as usize];
            let c = if outside {
                let lo = self.bounds[r.0 as usize];
                let hi = self.bounds[r.1 as usize + 1] - 1;
                let c = if src.chance(1, 2) { lo.checked_sub(1) } else { Some(hi + 1) };
                c.and_then(fix_surrogate(src.chance(1, 2))).and_then(char::from_u32)
            } else {
                self.char_in(r.0, r.1, src)
            };
            let Some(c) = c else { continue };
            v.push(c);
            let at = self.step(s, c);
            if let Some(t) = at {
                if src.chance(1, 2) {
                    self.walk(t, 6, src, &mut v);
                }
                let mut st = Some(0);
                for c in &v {
                    st = st.and_then(|x| self.step(x, *c));
                }
                if let Some(st) = st {
                    self.walk_to_accept(st, &dist, src, &mut v);
                }
            } else {
                let n = src.n(3);
                for _ in 0..n {
                    let r = &self.trans[s as usize];
                    let r = r[src.n(r.len())];
                    if let Some(c) = self.char_in(r.0, r.1, src) {
                        v.push(c);
                    }
                }
            }
            if src.chance(1, 3) {
                if let Some(c) = v.get(src.n(v.len())).copied() {
                    v.push(c);
                }
            }
            out.push(v);
        }
        out
    }
}

fn fix_surrogate(up: bool) -> impl Fn(u32) -> Option<u32> {
    move |c| match c {
        0xD800..=0xDFFF => Some(if up { 0xE000 } else { 0xD7FF }),
        c if c > MAX => None,
        c => Some(c),
    }
}

pub fn char_between(lo: u32, hi: u32, src: &mut Src) -> Option<char> {
    let c = match src.weighted(&[4, 3, 3]) {
        0 => lo,
        1 => hi,
        _ => lo + src.below((hi - lo + 1) as u64) as u32,
    };
    char::from_u32(c).or_else(|| char::from_u32(lo)).or_else(|| char::from_u32(hi))
}

/// A string of the pattern's language, straight from its syntax tree.
pub fn sample(h: &Hir, src: &mut Src, out: &mut Vec<char>) {
    if out.len() > 400 {
        return;
    }
    match h.kind() {
        HirKind::Literal(Literal::Unicode(c)) => out.push(*c),
        HirKind::Class(Class::Unicode(c)) => {
            let r: Vec<_> = c.iter().collect();
            if r.is_empty() {
                return;
            }
            let r = r[src.n(r.len())];
            out.extend(char_between(r.start() as u32, r.end() as u32, src));
        }
        HirKind::Repetition(r) => {
            let (lo, hi) = rep_bounds(&r.kind);
            let hi = hi.unwrap_or(lo + 3);
            let n = match src.n(3) {
                0 => lo,
                1 => hi,
                _ => src.range(lo as usize, hi as usize) as u32,
            };
            for _ in 0..n {
                sample(&r.hir, src, out);
            }
        }
        HirKind::Group(g) => sample(&g.hir, src, out),
        HirKind::Concat(v) => v.iter().for_each(|x| sample(x, src, out)),
        HirKind::Alternation(v) => sample(&v[src.n(v.len())], src, out),
        _ => {}
    }
}

/// Small damage to a string: delete, duplicate, replace, swap, nudge a character by one.
pub fn damage(v: &mut Vec<char>, pool: &[char], src: &mut Src) {
    for _ in 0..src.range(1, 3) {
        if v.is_empty() {
            v.push(*src.pick(pool));
            continue;
        }
        let i = src.n(v.len());
        match src.n(6) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, v[i]),
            2 => v[i] = *src.pick(pool),
            3 => v.insert(i, *src.pick(pool)),
            4 => {
                let up = src.chance(1, 2);
                let c = v[i] as u32;
                let n = if up { c + 1 } else { c.wrapping_sub(1) };
                if let Some(c) = char::from_u32(n) {
                    v[i] = c;
                }
            }
            _ => {
                let j = src.n(v.len());
                v.swap(i, j);
            }
        }
    }
}

// ---------------------------------------------------------------- generating patterns

const EDGE: &[char] = &[
    '\0', '\x01', '\t', '\n', '\r', '\x1f', ' ', '\x7e', '\x7f', '\u{80}', '\u{85}', '\u{a0}', '\u{ff}', '\u{100}', '\u{17f}', '\u{3b1}', '\u{3c9}', '\u{7ff}', '\u{800}', '\u{2028}', '\u{212a}', '\u{3042}', '\u{4e2d}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10fffe}',
    '\u{10ffff}',
];
const META: &[char] = &['\\', '.', '+', '*', '?', '(', ')', '|', '[', ']', '{', '}', '^', '$', '#', '&', '-', '~', '/', '"', '\'', '<', '>', '=', '!', ':', ',', ';', '_', '%'];

/// The characters a case is about.
pub fn theme(src: &mut Src) -> Vec<char> {
    let mut v: Vec<char> = match src.weighted(&[10, 4, 3, 4, 3, 2]) {
        0 => ('a'..='e').collect(),
        1 => ('0'..='5').chain('a'..='c').collect(),
        2 => {
            let n = src.range(2, 6);
            (0..n).map(|_| *src.pick(META)).collect()
        }
        3 => {
            let n = src.range(2, 6);
            (0..n).map(|_| *src.pick(EDGE)).collect()
        }
        5 => vec!['a', ' ', '\n', '\r', '\t', '\\'],
        _ => {
            let base = src.below(0x10FFF0) as u32;
            (0..5).filter_map(|i| char::from_u32(base + i)).collect()
        }
    };
    if v.is_empty() {
        v.push('a');
    }
    if src.chance(1, 4) {
        v.push(*src.pick(EDGE));
    }
    if src.chance(1, 4) {
        v.push(*src.pick(META));
    }
    if src.chance(1, 8) {
        v.extend(crate::dict::ch(src));
    }
    v
}

pub struct Gen {
    pub theme: Vec<char>,
    /// emit named classes, flags and the like
    pub fancy: bool,
    /// emit empty sub-expressions
    pub empties: bool,
    names: u32,
}

impl Gen {
    pub fn new(theme: Vec<char>, fancy: bool, empties: bool) -> Gen {
        Gen { theme, fancy, empties, names: 0 }
    }

    fn ch(&self, src: &mut Src) -> char {
        *src.pick(&self.theme)
    }

    fn lit(&self, c: char, in_class: bool, src: &mut Src) -> String {
        let hex = |src: &mut Src| match src.n(4) {
            0 => format!("\\x{{{:x}}}", c as u32),
            1 => format!("\\u{{{:X}}}", c as u32),
            2 => format!("\\U{:08x}", c as u32),
            _ => {
                if (c as u32) < 0x100 {
                    format!("\\x{:02x}", c as u32)
                } else if (c as u32) < 0x10000 {
                    format!("\\u{:04x}", c as u32)
                } else {
                    format!("\\x{{{:x}}}", c as u32)
                }
            }
        };
        if src.chance(1, 6) {
            return hex(src);
        }
        match c {
            '\t' if src.chance(1, 2) => "\\t".into(),
            '\n' if src.chance(1, 2) => "\\n".into(),
            '\r' if src.chance(1, 2) => "\\r".into(),
            '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' | '#' | '&' | '-' | '~' => format!("\\{}", c),
            // under the x flag these would vanish; spelled in hex they never do
            c if c.is_whitespace() || c.is_control() => hex(src),
            c if in_class && !c.is_alphanumeric() && c.is_ascii() => {
                if regex_syntax::is_meta_character(c) {
                    format!("\\{}", c)
                } else {
                    c.to_string()
                }
            }
            c => c.to_string(),
        }
    }

    fn class(&self, src: &mut Src, depth: usize) -> String {
        let neg = src.chance(1, 5);
        let mut s = String::from(if neg { "[^" } else { "[" });
        let n = src.range(1, 4);
        for _ in 0..n {
            match src.weighted(&[5, 6, if self.fancy { 2 } else { 0 }, if depth > 0 { 1 } else { 0 }]) {
                0 => s.push_str(&self.lit(self.ch(src), true, src)),
                1 => {
                    let (a, b) = (self.ch(src), self.ch(src));
                    let (mut a, mut b) = (a.min(b), a.max(b));
                    // sometimes widen
                    if src.chance(1, 4) {
                        b = char::from_u32(b as u32 + src.n(4) as u32).unwrap_or(b);
                    }
                    if src.chance(1, 12) {
                        b = '\u{10ffff}';
                    }
                    if src.chance(1, 12) {
                        a = '\0';
                    }
                    s.push_str(&self.lit(a, true, src));
                    s.push('-');
                    s.push_str(&self.lit(b, true, src));
                }
                2 => s.push_str(src.pick(&["\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "[:alpha:]", "[:digit:]", "[:^lower:]", "[:punct:]", "\\p{Greek}", "\\pN", "\\P{L}"])),
                _ => s.push_str(&self.class(src, depth - 1)),
            }
        }
        if self.fancy && src.chance(1, 10) {
            s.push_str(src.pick(&["&&", "--", "~~"]));
            s.push_str(&self.class(src, 0));
        }
        s.push(']');
        s
    }

    fn atom(&mut self, src: &mut Src) -> String {
        let f = self.fancy;
        match src.weighted(&[10, 6, if f { 2 } else { 0 }, if f { 2 } else { 0 }]) {
            0 => self.lit(self.ch(src), false, src),
            1 => self.class(src, 1),
            2 => ".".into(),
            _ => src.pick(&["\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "[[:alpha:]]", "[[:xdigit:]]", "\\p{Greek}", "\\pN", "\\p{Lu}", "\\PL", "[^\\n]", "(?s:.)"]).to_string(),
        }
    }

    fn quantifier(&self, src: &mut Src, big: bool) -> String {
        let hi = if big && src.chance(1, 8) { 24 } else { 4 };
        let mut q = match src.n(6) {
            0 => "?".to_string(),
            1 => "*".to_string(),
            2 => "+".to_string(),
            3 => format!("{{{}}}", src.n(hi + 1)),
            4 => format!("{{{},}}", src.n(hi)),
            _ => {
                let a = src.n(hi);
                let b = a + src.n(hi);
                format!("{{{},{}}}", a, b)
            }
        };
        if src.chance(1, 8) {
            q.push('?');
        }
        q
    }

    fn group(&mut self, inner: String, src: &mut Src) -> String {
        match src.weighted(&[6, 6, 1, if self.fancy { 2 } else { 0 }, if self.fancy { 1 } else { 0 }]) {
            0 => format!("({})", inner),
            1 => format!("(?:{})", inner),
            2 => {
                self.names += 1;
                // names of any length
                let n = match crate::dict::cheap_size(200, 10, src) {
                    Some(n) if src.chance(1, 2) => n,
                    _ => src.n(12),
                };
                format!("(?P<{}{}>{})", "g".repeat(n.max(1)), self.names, inner)
            }
            3 => format!("(?{}:{})", src.pick(&["i", "s", "is", "U", "-i", "-s", "iU", "m"]), inner),
            _ => format!("(?x: {} )", inner),
        }
    }

    /// (text, precedence: 0 alternation, 1 concatenation, 2 quantified, 3 atom)
    fn expr(&mut self, depth: usize, src: &mut Src) -> (String, u8) {
        let k = if depth == 0 { 0 } else { src.weighted(&[3, 5, 4, 6, 1]) };
        match k {
            0 => {
                if self.empties && src.chance(1, 3) {
                    (src.pick(&["()", "(?:)", "(|)"]).to_string(), 3)
                } else {
                    (self.atom(src), 3)
                }
            }
            1 => {
                let n = src.range(2, 4);
                let mut s = String::new();
                for _ in 0..n {
                    let (t, p) = self.expr(depth - 1, src);
                    if p == 0 {
                        s.push_str(&self.group(t, src));
                    } else {
                        s.push_str(&t);
                    }
                }
                (s, 1)
            }
            2 => {
                let n = src.range(2, 4);
                let mut v = Vec::new();
                for _ in 0..n {
                    if self.empties && src.chance(1, 4) {
                        v.push(String::new());
                    } else {
                        v.push(self.expr(depth - 1, src).0);
                    }
                }
                (v.join("|"), 0)
            }
            3 => {
                let (t, p) = self.expr(depth - 1, src);
                let q = self.quantifier(src, p == 3);
                let t = if p == 3 { t } else { self.group(t, src) };
                (format!("{}{}", t, q), 2)
            }
            _ => {
                let (t, _) = self.expr(depth - 1, src);
                (self.group(t, src), 3)
            }
        }
    }

    pub fn pattern(&mut self, src: &mut Src) -> String {
        let d = src.weighted(&[2, 4, 6, 5, 2]);
        let mut s = self.expr(d, src).0;
        if self.fancy && src.chance(1, 16) {
            s = format!("(?{}){}", src.pick(&["i", "s", "x", "U", "m"]), s);
        }
        s
    }

    /// A pattern of bounded size that the tokenizer supports.
    pub fn good(&mut self, max_size: u64, src: &mut Src) -> (String, Hir) {
        for _ in 0..20 {
            let p = self.pattern(src);
            if let Some(h) = parse(&p) {
                if hir_size(&h) <= max_size && !has_unsupported(&h) && (self.empties || !has_empty(&h)) {
                    return (p, h);
                }
            }
        }
        let h = parse("a").unwrap();
        ("a".into(), h)
    }
}

/// Many states that differ only in where a range ends: `p0[a-b]|p1[a-c]|...`, with various continuations.
pub fn fan(src: &mut Src) -> String {
    let n = src.range(2, 60);
    let lo = 0x61 + src.n(200) as u32;
    let tails = ["", "+", "*", "z"];
    let step = src.range(1, 2) as u32;
    let mixed = src.chance(1, 3);
    let mut v = Vec::new();
    for i in 0..n as u32 {
        let p = 0x1000 + i;
        let t = if mixed { tails[src.n(4)] } else { "" };
        let start = if mixed && src.chance(1, 6) { lo + 1 } else { lo };
        v.push(format!("\\u{{{:x}}}[\\u{{{:x}}}-\\u{{{:x}}}]{}", p, start, lo + 1 + i * step, t));
    }
    v.join("|")
}

/// Beyond the usual size in one direction: number of patterns, repetition counts, length of a literal, ranges of a class.
pub fn scaled(src: &mut Src) -> Vec<(String, Hir)> {
    let mut v: Vec<String> = Vec::new();
    match src.n(7) {
        0 => {
            // keywords, often with an identifier pattern somewhere
            let n = src.range(20, 300);
            let letters = ['a', 'b', 'c', 'd'];
            for i in 0..n {
                let mut w = String::new();
                let mut k = i;
                loop {
                    w.push(letters[k % 4]);
                    k /= 4;
                    if k == 0 {
                        break;
                    }
                }
                if src.chance(1, 20) {
                    w.push(*src.pick(&letters));
                }
                v.push(w);
            }
            if src.chance(1, 2) {
                src.shuffle(&mut v);
            }
            if src.chance(2, 3) {
                let at = src.n(v.len() + 1);
                v.insert(at, src.pick(&["[a-d]+", "[a-z][a-z0-9]*", "[a-d]{3}", ".", "[b-d]+e?"]).to_string());
            }
        }
        1 => {
            let n = [5, 30, 70, 140, 270][src.n(5)] + src.n(30);
            let m = n + src.n(60);
            let atom = src.pick(&["a", "[ab]", "(?:ab)", "(?:a|bc)", ".", "(?:a?)", "(?:a|b?)"]);
            // each of these makes several empty steps
            let n = if atom.contains('?') && !atom.contains("bc") && src.chance(1, 2) { n / 2 + 2 } else { n };
            v.push(match src.n(5) {
                0 => format!("{}{{{}}}", atom, n),
                1 => format!("{}{{{},}}", atom, n),
                2 => format!("{}{{{},{}}}", atom, n, m),
                3 => format!("b{}{{{},{}}}c", atom, n, m),
                _ => format!("(?:{}{{{}}}c)*", atom, n),
            });
            if src.chance(1, 2) {
                v.push(src.pick(&["a", "a+", "ab", "[a-c]", "a{3}", "a*b"]).to_string());
            }
            if src.chance(1, 3) {
                v.rotate_left(1);
            }
        }
        2 => {
            // a long literal, and beginnings of it
            let n = src.range(30, 250);
            let w: String = (0..n).map(|_| *src.pick(&['a', 'b', 'c'])).collect();
            for _ in 0..src.range(0, 3) {
                let k = src.range(1, n);
                v.push(w[..k].to_string());
            }
            let at = src.n(v.len() + 1);
            v.insert(at, w);
            if src.chance(1, 3) {
                v.push("[a-c]".into());
            }
        }
        3 => {
            // a class of very many ranges
            let n = src.range(40, 400);
            let base = [0x61u32, 0x400, 0x3400, 0xE000, 0x10000, 0x10F000][src.n(6)];
            let mut c = String::from("[");
            let mut at = base;
            for _ in 0..n {
                let w = src.n(3) as u32;
                c.push_str(&format!("\\u{{{:x}}}-\\u{{{:x}}}", at, at + w));
                at += w + 2 + src.n(2) as u32;
            }
            c.push(']');
            v.push(if src.chance(1, 2) { format!("{}+", c) } else { c });
            if src.chance(1, 2) {
                v.push(format!("[\\u{{{:x}}}-\\u{{{:x}}}]", base, base + src.n(2 * n) as u32));
            }
        }
        4 => {
            // one pattern of very many branches
            let n = src.range(20, 300);
            let digits = ['0', '1', 'x', 'y'];
            let mut words = Vec::new();
            for i in 0..n {
                let mut w = String::new();
                let mut k = i + 1;
                while k > 0 {
                    w.push(digits[k % 4]);
                    k /= 4;
                }
                if src.chance(1, 10) {
                    w.push_str(src.pick(&["+", "?", "{2}", "[xz]*"]));
                }
                words.push(w);
            }
            if src.chance(1, 2) {
                src.shuffle(&mut words);
            }
            let w = words.join("|");
            v.push(match src.n(4) {
                0 => format!("a(?:{})b", w),
                1 => format!("(?:{})(?:z|zz)", w),
                _ => w,
            });
            if src.chance(1, 2) {
                v.push("[01xy]".into());
            }
        }
        5 => {
            // very many places reached without reading anything
            let n = src.range(20, 250);
            let c = ["a?", "(?:a|b)?", "a*", "b?", "(?:ab)?"];
            if src.chance(1, 2) {
                v.push(format!("(?:{}){{{}}}", src.pick(&c), n));
            } else {
                let few: Vec<&str> = (0..src.range(1, 3)).map(|_| *src.pick(&c)).collect();
                let mut p = String::new();
                for _ in 0..n {
                    p.push_str(src.pick(&few));
                }
                v.push(p);
            }
            v[0].push_str(src.pick(&["c", "", "d+", "e"]));
            if src.chance(1, 2) {
                v.push(src.pick(&["a", "[a-e]", "a+c"]).to_string());
            }
        }
        _ => {
            // long scans that come to nothing
            v.push("a".into());
            v.push(src.pick(&["a*b", "a+b|c", "(?:aa)*b", "[a-c]*d", ".*z", "(?s:.)*\\x00"]).to_string());
            if src.chance(1, 2) {
                v.push(src.pick(&["[b-z]", "aaaa", ".", "c"]).to_string());
            }
            if src.chance(1, 2) {
                v.reverse();
            }
        }
    }
    v.into_iter()
        .filter_map(|p| {
            let h = parse(&p)?;
            Some((p, h))
        })
        .collect()
}

/// As `scaled`, with a size at or next to a number of the code under test.
pub fn sized(src: &mut Src) -> Option<Vec<(String, Hir)>> {
    let kind = src.n(8);
    let n = crate::dict::cheap_size([400, 600, 600, 1500, 2000, 1500, 100, 1500][kind], [100, 100, 100, 300, 300, 300, 100, 300][kind], src)?;
    let word = |i: usize, at: u32| -> String { [i / 400, i / 20 % 20, i % 20].iter().map(|k| char::from_u32(at + *k as u32).unwrap()).collect() };
    let mut v: Vec<String> = Vec::new();
    match kind {
        0 => {
            // a counted repetition
            let atom = *src.pick(&["a", "[ab]", "(?:ab)", "(?:a|bc)", ".", "(?:a?)", "(?:a|b?)"]);
            // each of these makes several empty steps
            let n = if atom.contains('?') && !atom.contains("bc") && src.chance(1, 2) { n / 2 + 2 } else { n };
            v.push(match src.n(5) {
                0 => format!("{}{{{}}}", atom, n),
                1 => format!("{}{{{},}}", atom, n),
                2 => format!("{}{{{},{}}}", atom, n, n + src.n(4)),
                3 => format!("{}{{0,{}}}c", atom, n),
                _ => format!("b{}{{{},{}}}c", atom, n.saturating_sub(3), n),
            });
        }
        1 => {
            // so many patterns, the last ones of their own kind
            for i in 0..n {
                v.push(word(i, 0x61));
            }
            let k = v.len() - 1;
            v[k] = src.pick(&["[a-z]+", "z+", "abc", "0"]).to_string();
            if src.chance(1, 2) {
                let i = src.n(v.len());
                v.swap(i, k);
            }
        }
        2 => {
            // so many branches
            let w: Vec<String> = (0..n).map(|i| word(i, 0x61)).collect();
            v.push(match src.n(3) {
                0 => format!("x(?:{})y", w.join("|")),
                1 => format!("(?:{})+", w.join("|")),
                _ => w.join("|"),
            });
        }
        3 => {
            // so many ranges of a class
            let base = [0x61u32, 0x400, 0xE000, 0x10000][src.n(4)];
            let mut c = String::from("[");
            for i in 0..n as u32 {
                c.push_str(&format!("\\u{{{:x}}}-\\u{{{:x}}}", base + 4 * i, base + 4 * i + 1));
            }
            c.push(']');
            v.push(if src.chance(1, 2) { format!("{}+", c) } else { c });
        }
        4 => {
            // a literal of this length
            let w: String = (0..n).map(|_| *src.pick(&['a', 'b', 'c'])).collect();
            v.push(w);
        }
        5 => {
            // one range of this many characters, or one at a character of the code
            let base = [0u32, 0x61, 0x400, 0x10000][src.n(4)];
            let lo = if src.chance(1, 2) { crate::dict::ch(src).map_or(base, |c| c as u32) } else { base };
            let hi = (lo + n as u32 - 1).min(MAX);
            if char::from_u32(lo).is_none() || char::from_u32(hi).is_none() {
                return None;
            }
            v.push(format!("[\\u{{{:x}}}-\\u{{{:x}}}]{}", lo, hi, src.pick(&["", "+", "*b"])));
        }
        6 => {
            // nested so deeply
            let mut p = String::from("ab");
            for _ in 0..n.min(100) {
                p = format!("({}){}", p, src.pick(&["", "c", "?", "|d"]));
            }
            v.push(p);
        }
        _ => {
            // an expression of this length
            let mut p = String::new();
            while p.len() < n {
                p.push_str(src.pick(&["a", "[ab]", "b?", "(?:a|c)", "c*"]));
            }
            v.push(p);
        }
    }
    if src.chance(1, 2) {
        v.push(src.pick(&["a", "a+", "ab", "[a-c]", "a{3}", "a*b", "[a-z]+"]).to_string());
        if src.chance(1, 2) {
            v.rotate_right(1);
        }
    }
    Some(v.into_iter().filter_map(|p| { let h = parse(&p)?; (!has_empty(&h) && !has_unsupported(&h)).then_some((p, h)) }).collect::<Vec<_>>()).filter(|v| !v.is_empty())
}

/// A text with a length, a number of tokens, a token or an amount read ahead near a number of the code under test.
pub fn sized_text(p: &[Hir], d: &Dfa, src: &mut Src) -> Option<Vec<char>> {
    let max = if src.chance(1, 30) { 140_000 } else { 4000 };
    let n = crate::dict::cheap_size(max, 200, src)?;
    let mut v = Vec::new();
    match src.n(4) {
        0 => v = d.long_text(n, src),
        1 => {
            d.walk_on(n, src, &mut v);
            v.push(*src.pick(&['\0', '\n', 'z', 'a', '\u{10ffff}']));
            v.extend_from_within(..v.len().min(5));
        }
        2 => {
            // this many tokens
            let mut w = Vec::new();
            sample(&p[src.n(p.len())], src, &mut w);
            while w.is_empty() || w.len() > 8 {
                w = vec!['a'];
            }
            for _ in 0..n {
                v.extend(w.iter());
                if w.len() < 4 && src.chance(1, 50) {
                    sample(&p[src.n(p.len())], src, &mut v);
                }
            }
            sample(&p[src.n(p.len())], src, &mut v);
        }
        _ => {
            while v.len() < n {
                let before = v.len();
                sample(&p[src.n(p.len())], src, &mut v);
                if v.len() == before {
                    v.push('a');
                }
            }
            // end exactly there, now and then
            if src.chance(1, 2) {
                v.truncate(n);
            }
        }
    }
    // what scanning it costs
    let (mut at, mut work) = (0, 0);
    while let (Some((k, _)), decided) = d.longest(&v[at..]) {
        work += decided;
        at += k;
        if k == 0 || work > 400_000 {
            break;
        }
    }
    if work > 400_000 {
        v.truncate(1000);
    }
    Some(v)
}

/// A list of patterns as a tokenizer author would write, related to each other.
pub fn pattern_list(src: &mut Src, max: usize, fancy: bool) -> Vec<(String, Hir)> {
    let th = theme(src);
    let mut g = Gen::new(th, fancy, false);
    let n = if src.chance(1, 20) { src.range(5, max.max(5)) } else { src.range(1, max.min(5)) };
    let mut v: Vec<(String, Hir)> = Vec::new();
    for _ in 0..n {
        let k = src.weighted(&[8, 3, 1, 2, 1]);
        let p = match k {
            1 => {
                // keyword: a string of an earlier pattern, or of the theme
                let mut w = Vec::new();
                if !v.is_empty() && src.chance(2, 3) {
                    let j = src.n(v.len());
                    sample(&v[j].1, src, &mut w);
                    w.truncate(6);
                }
                while w.is_empty() || src.chance(1, 4) {
                    w.push(g.ch(src));
                }
                w.iter().map(|c| g.lit(*c, false, src)).collect::<String>()
            }
            2 if !v.is_empty() => {
                let j = src.n(v.len());
                v[j].0.clone()
            }
            3 => src.pick(&["[a-zA-Z_][a-zA-Z0-9_]*", "[0-9]+", ".|\n", "[ \\t]+", "0[xX][0-9a-fA-F]+|[0-9]+", "//[^\\n]*", "\"([^\"\\\\]|\\\\.)*\"", "/\\*([^*]|\\*+[^*/])*\\*+/", "([0-9]+|[0-9]+\\.[0-9]*|[0-9]*\\.[0-9]+)([eE][\\+\\-]?[0-9]+)?",
                "\r\n", "\n", "\r\n|\n|\r", "\\r\\n", " ", "  ", "\t", " +", " a", "a ", "a  b", "\u{feff}", "#[^\r\n]*\r?\n", "'(?:[^'\\\\]|\\\\.)'", "(?i)select", "(?i:if)|else", "\\\\", "\\\\n", "[\\s&&[^\n]]+", "\\p{L}+", "(?x) a b # comment\n c", "<=|>=|<|>", "-?[0-9]{1,4}", "[0-9]{4}-[0-9]{2}", "@[a-z]{3,}"]).to_string(),
            4 if !v.is_empty() => {
                let j = src.n(v.len());
                let (a, b) = (v[j].0.clone(), g.good(30, src).0);
                match src.n(3) {
                    0 => format!("(?:{})(?:{})", a, b),
                    1 => format!("(?:{})|(?:{})", a, b),
                    _ => format!("(?:{})?(?:{})", b, a),
                }
            }
            _ => g.good(if n > 5 { 12 } else { 60 }, src).0,
        };
        match parse(&p) {
            Some(h) if !has_empty(&h) && !has_unsupported(&h) && hir_size(&h) < 400 => v.push((p, h)),
            _ => {}
        }
    }
    if v.is_empty() {
        v.push(("a".into(), parse("a").unwrap()));
    }
    v
}

/// Inputs made of samples of the patterns, damaged samples and transition-cover strings.
pub fn inputs(p: &[Hir], d: &Dfa, n: usize, src: &mut Src) -> Vec<Vec<char>> {
    let mut out = Vec::new();
    if p.is_empty() {
        return vec![vec![], vec!['a'], vec!['b', 'a', '\n']];
    }
    let cover = d.strings(n * 2, src);
    let pool: Vec<char> = {
        let mut v: Vec<char> = vec!['a', 'b', '0', ' ', '\n', '\u{e000}'];
        for c in cover.iter().flatten().take(40) {
            v.push(*c);
        }
        v.extend(crate::dict::ch(src));
        v
    };
    if src.chance(1, 12) {
        out.extend(sized_text(p, d, src));
    }
    while out.len() < n {
        let mut v = Vec::new();
        let k = src.range(1, 5);
        for _ in 0..k {
            match src.weighted(&[6, 3, 1, 1]) {
                0 => sample(&p[src.n(p.len())], src, &mut v),
                1 => v.extend(cover[src.n(cover.len())].iter()),
                2 => v.push(*src.pick(&pool)),
                _ => {
                    let mut w = Vec::new();
                    sample(&p[src.n(p.len())], src, &mut w);
                    let keep = src.n(w.len() + 1);
                    w.truncate(keep);
                    v.extend(w);
                }
            }
        }
        if src.chance(1, 4) {
            damage(&mut v, &pool, src);
        }
        v.truncate(600);
        out.push(v);
    }
    out
}
