//! Grammars: representation, generators, Earley recogniser, canonical LR(1) construction and the
//! reference parser (conflict resolution and error recovery included), all independent of the code under test.

use crate::engine::{sut, Src};
use parser::enum_index::EnumIndex;
use parser::{LR1Parser, Parse, ParseError, Rule, Symbol, Syntax};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum S {
    N(u16),
    T(u16),
    E,
}
use S::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Grammar {
    pub nn: usize,
    pub nt: usize,
    pub start: u16,
    pub rules: Vec<(u16, Vec<S>)>,
}

impl Grammar {
    pub fn show(&self) -> String {
        let mut v = vec![format!("start N{}", self.start)];
        for (l, r) in &self.rules {
            let r: Vec<String> = r
                .iter()
                .map(|s| match s {
                    N(n) => format!("N{}", n),
                    T(t) => format!("t{}", t),
                    E => "ERROR".into(),
                })
                .collect();
            v.push(format!("N{} -> {}", l, if r.is_empty() { "(empty)".into() } else { r.join(" ") }));
        }
        v.join("; ")
    }
    pub fn has_error(&self) -> bool {
        self.rules.iter().any(|r| r.1.contains(&E))
    }
    /// non-terminals that derive some token string (ERROR counting as a token)
    pub fn productive(&self) -> Vec<bool> {
        let mut p = vec![false; self.nn];
        loop {
            let mut up = false;
            for (l, r) in &self.rules {
                if !p[*l as usize] && r.iter().all(|s| !matches!(s, N(n) if !p[*n as usize])) {
                    p[*l as usize] = true;
                    up = true;
                }
            }
            if !up {
                return p;
            }
        }
    }
    pub fn defined(&self) -> bool {
        (0..self.nn as u16).all(|n| self.rules.iter().any(|r| r.0 == n))
    }
    pub fn nullable(&self) -> Vec<bool> {
        let mut p = vec![false; self.nn];
        loop {
            let mut up = false;
            for (l, r) in &self.rules {
                if !p[*l as usize] && r.iter().all(|s| matches!(s, N(n) if p[*n as usize])) {
                    p[*l as usize] = true;
                    up = true;
                }
            }
            if !up {
                return p;
            }
        }
    }
    /// Removes rules whose non-terminals are undefined and renumbers the rest; false if the start is gone.
    pub fn clean(&mut self) -> bool {
        loop {
            let def: HashSet<u16> = self.rules.iter().map(|r| r.0).collect();
            let n = self.rules.len();
            self.rules.retain(|r| r.1.iter().all(|s| !matches!(s, N(n) if !def.contains(n))));
            if self.rules.len() == n {
                break;
            }
        }
        let def: BTreeSet<u16> = self.rules.iter().map(|r| r.0).collect();
        if !def.contains(&self.start) {
            return false;
        }
        let map: HashMap<u16, u16> = def.iter().enumerate().map(|(i, n)| (*n, i as u16)).collect();
        self.nn = def.len();
        self.start = map[&self.start];
        for r in self.rules.iter_mut() {
            r.0 = map[&r.0];
            for s in r.1.iter_mut() {
                if let N(n) = s {
                    *n = map[n];
                }
            }
        }
        true
    }
}

// ---------------------------------------------------------------- Earley

pub struct Earley {
    /// position of the first token after which nothing can be completed (None: all tokens are viable)
    pub dead: Option<usize>,
    pub accepts: bool,
}

/// Recognises; `E` never matches an input token. Viability is exact when all symbols are productive.
pub fn earley(g: &Grammar, w: &[u16]) -> Earley {
    let nullable = g.nullable();
    let mut sets: Vec<HashSet<(u32, u32, u32)>> = Vec::with_capacity(w.len() + 1);
    let mut by_lhs: Vec<Vec<u32>> = vec![vec![]; g.nn];
    for (i, r) in g.rules.iter().enumerate() {
        by_lhs[r.0 as usize].push(i as u32);
    }
    let mut init: Vec<(u32, u32, u32)> = by_lhs[g.start as usize].iter().map(|r| (*r, 0, 0)).collect();
    for k in 0..=w.len() {
        let mut cur: HashSet<(u32, u32, u32)> = HashSet::new();
        let mut q = std::mem::take(&mut init);
        let mut next = Vec::new();
        while let Some(it) = q.pop() {
            if !cur.insert(it) {
                continue;
            }
            let (r, d, o) = it;
            let rule = &g.rules[r as usize];
            match rule.1.get(d as usize) {
                Some(N(n)) => {
                    for p in &by_lhs[*n as usize] {
                        q.push((*p, 0, k as u32));
                    }
                    if nullable[*n as usize] {
                        q.push((r, d + 1, o));
                    }
                }
                Some(T(t)) => {
                    if w.get(k) == Some(t) {
                        next.push((r, d + 1, o));
                    }
                }
                Some(E) => {}
                None => {
                    if o as usize == k {
                        continue; // empty derivations are handled by the nullable step
                    }
                    for (r2, d2, o2) in &sets[o as usize] {
                        if g.rules[*r2 as usize].1.get(*d2 as usize) == Some(&N(rule.0)) {
                            q.push((*r2, d2 + 1, *o2));
                        }
                    }
                }
            }
        }
        if k == w.len() {
            let accepts = cur.iter().any(|(r, d, o)| *o == 0 && g.rules[*r as usize].0 == g.start && *d as usize == g.rules[*r as usize].1.len());
            return Earley { dead: None, accepts };
        }
        if next.is_empty() {
            return Earley { dead: Some(k), accepts: false };
        }
        sets.push(cur);
        init = next;
    }
    unreachable!()
}

// ---------------------------------------------------------------- canonical LR(1)

#[derive(Clone, Debug, Default)]
pub struct Cell {
    pub shift: Option<u32>,
    pub reduce: Vec<u32>,
    pub accept: bool,
}

pub struct Lr {
    /// lookahead index: terminals, then ERROR, then end of input
    pub nt: usize,
    pub action: Vec<Vec<Cell>>,
    pub goto: Vec<HashMap<u16, u32>>,
    pub error_rules: Vec<BTreeSet<u32>>,
    pub conflict_free: bool,
    /// conflict-free and still so when states with equal cores are merged
    pub lalr: bool,
    /// (rule) reduced in conflict with a shift
    pub sr: BTreeSet<u32>,
    /// pairs of rules reduced on the same lookahead; the augmented rule has index rules.len()
    pub rr: BTreeSet<(u32, u32)>,
    /// rules that compete with another reduction where nothing is shifted
    pub rr_named: BTreeSet<u32>,
}

/// Sets of lookaheads.
trait Bits: Copy + Eq + std::hash::Hash {
    const NONE: Self;
    fn one(i: usize) -> Self;
    fn or(self, o: Self) -> Self;
    fn has(self, i: usize) -> bool;
    fn count(self) -> usize;
}
impl Bits for u128 {
    const NONE: u128 = 0;
    fn one(i: usize) -> u128 {
        1 << i
    }
    fn or(self, o: u128) -> u128 {
        self | o
    }
    fn has(self, i: usize) -> bool {
        self >> i & 1 == 1
    }
    fn count(self) -> usize {
        self.count_ones() as usize
    }
}
impl Bits for [u64; 8] {
    const NONE: [u64; 8] = [0; 8];
    fn one(i: usize) -> [u64; 8] {
        let mut b = [0; 8];
        b[i / 64] = 1 << (i % 64);
        b
    }
    fn or(mut self, o: [u64; 8]) -> [u64; 8] {
        for (a, b) in self.iter_mut().zip(o) {
            *a |= b;
        }
        self
    }
    fn has(self, i: usize) -> bool {
        self[i / 64] >> (i % 64) & 1 == 1
    }
    fn count(self) -> usize {
        self.iter().map(|x| x.count_ones() as usize).sum()
    }
}

impl Lr {
    /// None if the automaton is over the bound on items.
    pub fn new(g: &Grammar, cap: usize) -> Option<Lr> {
        if g.nt + 2 <= 128 {
            Lr::build::<u128>(g, cap)
        } else {
            assert!(g.nt + 2 <= 512);
            Lr::build::<[u64; 8]>(g, cap)
        }
    }

    fn build<B: Bits>(g: &Grammar, cap: usize) -> Option<Lr> {
        let nt = g.nt;
        let (err, eoi) = (B::one(nt), B::one(nt + 1));
        let nullable = g.nullable();
        let mut first: Vec<B> = vec![B::NONE; g.nn];
        loop {
            let mut up = false;
            for (l, r) in &g.rules {
                let mut f = first[*l as usize];
                for s in r {
                    match s {
                        T(t) => f = f.or(B::one(*t as usize)),
                        E => f = f.or(err),
                        N(n) => f = f.or(first[*n as usize]),
                    }
                    if !matches!(s, N(n) if nullable[*n as usize]) {
                        break;
                    }
                }
                if f != first[*l as usize] {
                    first[*l as usize] = f;
                    up = true;
                }
            }
            if !up {
                break;
            }
        }
        let first_of = |beta: &[S], la: B| -> B {
            let mut f = B::NONE;
            for s in beta {
                match s {
                    T(t) => return f.or(B::one(*t as usize)),
                    E => return f.or(err),
                    N(n) => {
                        f = f.or(first[*n as usize]);
                        if !nullable[*n as usize] {
                            return f;
                        }
                    }
                }
            }
            f.or(la)
        };
        let aug = g.rules.len() as u32;
        let aug_rhs = vec![N(g.start)];
        let rhs = |r: u32| -> &[S] {
            if r == aug {
                &aug_rhs
            } else {
                &g.rules[r as usize].1
            }
        };
        let mut by_lhs: Vec<Vec<u32>> = vec![vec![]; g.nn];
        for (i, r) in g.rules.iter().enumerate() {
            by_lhs[r.0 as usize].push(i as u32);
        }
        let closure = |kernel: &BTreeMap<(u32, u32), B>| -> BTreeMap<(u32, u32), B> {
            let mut m = kernel.clone();
            let mut q: Vec<(u32, u32)> = m.keys().copied().collect();
            while let Some((r, d)) = q.pop() {
                let la = m[&(r, d)];
                let body = rhs(r);
                if let Some(N(n)) = body.get(d as usize) {
                    let f = first_of(&body[d as usize + 1..], la);
                    if f == B::NONE {
                        continue;
                    }
                    for p in &by_lhs[*n as usize] {
                        let e = m.entry((*p, 0)).or_insert(B::NONE);
                        if e.or(f) != *e {
                            *e = e.or(f);
                            q.push((*p, 0));
                        }
                    }
                }
            }
            m
        };
        let mut ids: HashMap<Vec<((u32, u32), B)>, u32> = HashMap::new();
        let mut kernels: Vec<BTreeMap<(u32, u32), B>> = vec![[((aug, 0), eoi)].into_iter().collect()];
        ids.insert(kernels[0].iter().map(|(k, v)| (*k, *v)).collect(), 0);
        let mut lr = Lr { nt, action: vec![], goto: vec![], error_rules: vec![], conflict_free: true, lalr: true, sr: Default::default(), rr: Default::default(), rr_named: Default::default() };
        let mut i = 0;
        let mut work = 0usize;
        while i < kernels.len() {
            let items = closure(&kernels[i]);
            work += items.values().map(|b| b.count()).sum::<usize>();
            if work > cap {
                return None;
            }
            let mut next: BTreeMap<S, BTreeMap<(u32, u32), B>> = BTreeMap::new();
            let mut cells = vec![Cell::default(); nt + 2];
            let mut er = BTreeSet::new();
            for ((r, d), la) in &items {
                match rhs(*r).get(*d as usize) {
                    Some(s) => {
                        let e = next.entry(*s).or_default().entry((*r, d + 1)).or_insert(B::NONE);
                        *e = e.or(*la);
                        if *s == E {
                            er.insert(*r);
                        }
                    }
                    None if *r == aug => cells[nt + 1].accept = true,
                    None => {
                        for t in 0..nt + 2 {
                            if la.has(t) {
                                cells[t].reduce.push(*r);
                            }
                        }
                    }
                }
            }
            let mut goto = HashMap::new();
            for (s, k) in next {
                let key: Vec<_> = k.iter().map(|(a, b)| (*a, *b)).collect();
                let id = *ids.entry(key).or_insert_with(|| {
                    kernels.push(k);
                    kernels.len() as u32 - 1
                });
                match s {
                    N(n) => {
                        goto.insert(n, id);
                    }
                    T(t) => cells[t as usize].shift = Some(id),
                    E => cells[nt].shift = Some(id),
                }
            }
            for c in cells.iter_mut() {
                c.reduce.sort_unstable();
                if c.shift.is_some() {
                    for r in &c.reduce {
                        lr.sr.insert(*r);
                    }
                }
                let mut all = c.reduce.clone();
                if c.accept {
                    all.push(aug);
                }
                if c.shift.is_none() && all.len() > 1 {
                    lr.rr_named.extend(all.iter().copied());
                }
                for a in &all {
                    for b in &all {
                        if a != b {
                            lr.rr.insert((*a, *b));
                        }
                    }
                }
            }
            lr.action.push(cells);
            lr.goto.push(goto);
            lr.error_rules.push(er);
            i += 1;
        }
        lr.conflict_free = lr.sr.is_empty() && lr.rr.is_empty();
        // merging by core can only add reduce/reduce conflicts
        let mut cores: HashMap<Vec<(u32, u32)>, HashMap<(u32, usize), ()>> = HashMap::new();
        let mut clash = false;
        for (i, k) in kernels.iter().enumerate() {
            let m = cores.entry(k.keys().copied().collect()).or_default();
            for (t, c) in lr.action[i].iter().enumerate() {
                for r in &c.reduce {
                    m.insert((*r, t), ());
                }
            }
        }
        for m in cores.values() {
            let mut seen = HashSet::new();
            clash |= m.keys().any(|(_, t)| !seen.insert(*t));
        }
        lr.lalr = lr.conflict_free && !clash;
        Some(lr)
    }

    pub fn states(&self) -> usize {
        self.action.len()
    }
}

// ---------------------------------------------------------------- what a parse does

#[derive(Clone, Debug, PartialEq)]
pub enum Child {
    /// value returned by call number .0
    N(usize),
    /// input token number .0
    T(usize),
    /// slice of the input
    E(usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub rule: usize,
    pub children: Vec<Child>,
    /// tokens pulled from the source so far
    pub pulled: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    /// value returned by this call
    Ok(usize),
    NoRecovery,
    /// error returned by this call
    Reducer(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub res: Res,
    pub calls: Vec<Call>,
    pub pulled: usize,
}

pub fn show_out(o: &Out) -> String {
    let calls: Vec<String> = o
        .calls
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let ch: Vec<String> = c
                .children
                .iter()
                .map(|c| match c {
                    Child::N(n) => format!("#{}", n),
                    Child::T(t) => format!("@{}", t),
                    Child::E(a, b) => format!("ERROR[{}..{}]", a, b),
                })
                .collect();
            format!("#{}=rule{}({})", i, c.rule, ch.join(" "))
        })
        .collect();
    format!("{:?} after {} tokens read; {}", o.res, o.pulled, calls.join(", "))
}

/// The same calls and result, whatever was read.
pub fn same_values(a: &Out, b: &Out) -> bool {
    a.res == b.res && a.calls.len() == b.calls.len() && a.calls.iter().zip(&b.calls).all(|(x, y)| x.rule == y.rule && x.children == y.children)
}

#[derive(Default, Clone, Debug)]
pub struct Trace {
    pub recoveries: usize,
    pub backtracks: usize,
    pub discards: usize,
    pub continued: usize,
    pub at_end: usize,
    pub used_conflict: bool,
}

enum Val {
    N(usize, usize),
    T(usize),
    E(usize, usize),
}

/// The reference parser. None if it takes more than `limit` steps.
pub fn drive(g: &Grammar, lr: &Lr, w: &[u16], fail_at: Option<usize>, limit: usize) -> (Option<Out>, Trace) {
    let len = w.len();
    let mut tr = Trace::default();
    let mut st = 0u32;
    let mut stack: Vec<(u32, Val)> = Vec::new();
    let mut pos = 0usize;
    let mut pulled = 0usize;
    let mut calls: Vec<Call> = Vec::new();
    let mut rec: BTreeSet<u32> = BTreeSet::new();
    let mut shifted = true;
    for _ in 0..limit {
        if pos < len {
            pulled = pulled.max(pos + 1);
        }
        let eoi = pos == len;
        let la = if eoi { lr.nt + 1 } else { w[pos] as usize };
        let none = Cell::default();
        let cell = if !eoi && la >= lr.nt { &none } else { &lr.action[st as usize][la] };
        if let Some(s) = cell.shift {
            tr.used_conflict |= !cell.reduce.is_empty();
            stack.push((st, Val::T(pos)));
            st = s;
            pos += 1;
            shifted = true;
        } else if cell.accept {
            tr.used_conflict |= !cell.reduce.is_empty();
            let Some((_, Val::N(c, _))) = stack.pop() else { unreachable!() };
            return (Some(Out { res: Res::Ok(c), calls, pulled }), tr);
        } else if let Some(r) = cell.reduce.first() {
            tr.used_conflict |= cell.reduce.len() > 1;
            let n = g.rules[*r as usize].1.len();
            let body = stack.split_off(stack.len() - n);
            if let Some(b) = body.first() {
                st = b.0;
            }
            let first = body
                .iter()
                .find_map(|b| match b.1 {
                    Val::N(_, i) | Val::T(i) => Some(i),
                    Val::E(..) => None,
                })
                .unwrap_or(pos);
            let children = body
                .iter()
                .map(|b| match b.1 {
                    Val::N(c, _) => Child::N(c),
                    Val::T(i) => Child::T(i),
                    Val::E(a, b) => Child::E(a, b),
                })
                .collect();
            let id = calls.len();
            calls.push(Call { rule: *r as usize, children, pulled });
            if fail_at == Some(id) {
                return (Some(Out { res: Res::Reducer(id), calls, pulled }), tr);
            }
            stack.push((st, Val::N(id, first)));
            st = lr.goto[st as usize][&g.rules[*r as usize].0];
            if rec.contains(r) {
                rec.clear();
            }
        } else {
            tr.recoveries += 1;
            if eoi {
                tr.at_end += 1;
            }
            let tail = pos;
            let mut head = tail;
            let mut error_head = tail;
            let mut back = false;
            let after_error = !shifted;
            loop {
                let can = if back { !eoi } else { !after_error };
                let er = &lr.error_rules[st as usize];
                if can && !er.is_empty() {
                    if rec.is_empty() {
                        rec = er.clone();
                        break;
                    }
                    let both: BTreeSet<u32> = rec.intersection(er).copied().collect();
                    if !both.is_empty() {
                        tr.continued += 1;
                        rec = both;
                        break;
                    }
                }
                back = true;
                match stack.pop() {
                    Some((s, v)) => {
                        st = s;
                        match v {
                            Val::N(_, i) | Val::T(i) => {
                                head = i;
                                tr.backtracks += 1;
                            }
                            Val::E(a, _) => error_head = a,
                        }
                    }
                    None => return (Some(Out { res: Res::NoRecovery, calls, pulled }), tr),
                }
            }
            if back {
                tr.discards += 1;
                pos = head + 1;
            }
            let s = lr.action[st as usize][lr.nt].shift.unwrap();
            stack.push((st, Val::E(head.min(error_head), if eoi { tail } else { tail + 1 })));
            st = s;
            shifted = false;
        }
    }
    (None, tr)
}

/// Is the call log a derivation of the whole input (or, with error slices, one in input order),
/// children before parents, left before right, everything used exactly once?
pub fn check_derivation(g: &Grammar, w: &[u16], o: &Out, errors: bool) -> Result<(), String> {
    let Res::Ok(root) = o.res else { return Err("no value".into()) };
    let lhs = |c: usize| g.rules[o.calls[c].rule].0;
    if lhs(root) != g.start {
        return Err(format!("the value returned is of N{}, the start symbol is N{}", lhs(root), g.start));
    }
    let mut used = vec![false; o.calls.len()];
    for (i, c) in o.calls.iter().enumerate() {
        let Some(rule) = g.rules.get(c.rule) else { return Err(format!("reducer {} does not exist", c.rule)) };
        if c.children.len() != rule.1.len() {
            return Err(format!("call #{} of rule {} got {} symbols instead of {}", i, c.rule, c.children.len(), rule.1.len()));
        }
        for (ch, s) in c.children.iter().zip(&rule.1) {
            let ok = match (ch, s) {
                (Child::N(k), N(n)) => {
                    let ok = *k < i && lhs(*k) == *n && !used[*k];
                    if *k < i {
                        used[*k] = true;
                    }
                    ok
                }
                (Child::T(k), T(t)) => w.get(*k) == Some(t),
                (Child::E(a, b), E) => a <= b && *b <= w.len(),
                _ => false,
            };
            if !ok {
                return Err(format!("call #{} of rule {}: child {:?} does not fit symbol {:?} (wrong kind, wrong symbol or used twice)", i, c.rule, ch, s));
            }
        }
    }
    // post-order, left to right, from the root
    let mut order = Vec::new();
    let mut leaves = Vec::new();
    let mut todo = vec![(root, 0usize)];
    while let Some((c, k)) = todo.pop() {
        if let Some(ch) = o.calls[c].children.get(k) {
            todo.push((c, k + 1));
            match ch {
                Child::N(n) => todo.push((*n, 0)),
                Child::T(t) => leaves.push((*t, *t + 1, true)),
                Child::E(a, b) => leaves.push((*a, *b, false)),
            }
        } else {
            order.push(c);
        }
    }
    if !errors {
        if order != (0..o.calls.len()).collect::<Vec<_>>() {
            return Err(format!("reducers did not run once per node, bottom-up and left to right: tree order {:?}", order));
        }
        if leaves.iter().map(|l| l.0).ne(0..w.len()) {
            return Err(format!("the leaves are not the input: {:?} for {} tokens", leaves, w.len()));
        }
    } else {
        if order.windows(2).any(|p| p[0] >= p[1]) {
            return Err(format!("reducers of the result did not run bottom-up and left to right: {:?}", order));
        }
        let toks: Vec<usize> = leaves.iter().filter(|l| l.2).map(|l| l.0).collect();
        if toks.windows(2).any(|p| p[0] >= p[1]) {
            return Err(format!("tokens of the result are out of input order: {:?}", toks));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the parser under test

/// How the grammar is handed over.
#[derive(Clone, Debug)]
pub struct Route {
    pub kind: Vec<u8>,
    pub by_from: bool,
    pub build_raw: bool,
    pub nmap: Vec<usize>,
    pub tmap: Vec<usize>,
    pub salt: usize,
}

impl Route {
    pub fn plain(g: &Grammar) -> Route {
        Route { kind: vec![0], by_from: false, build_raw: false, nmap: (0..g.nn).collect(), tmap: (0..g.nt + 2).collect(), salt: 0 }
    }
    /// Any way of writing the grammar down; by conversion only when the warnings are not asked for.
    pub fn any(g: &Grammar, warnings: bool, src: &mut Src) -> Route {
        let mut r = Route::plain(g);
        if src.chance(1, 2) {
            return r;
        }
        r.kind = (0..src.range(1, 4)).map(|_| src.n(3) as u8).collect();
        r.by_from = !warnings && src.chance(1, 3);
        r.build_raw = src.chance(1, 2);
        r.salt = src.below(1 << 40) as usize;
        if src.chance(1, 2) {
            r.nmap = distinct(g.nn, src);
            r.tmap = distinct(g.nt + 2, src);
        }
        r
    }
    pub fn show(&self) -> String {
        if self.salt == 0 && self.kind == [0] {
            return String::new();
        }
        let short = |v: &[usize]| if v.iter().copied().eq(0..v.len()) { "as numbered".to_string() } else { format!("{:?}", &v[..v.len().min(40)]) };
        format!(" (rules written by {:?} of new/builder/raw, {}, start {}, kinds of non-terminals {}, of terminals {})", self.kind, if self.by_from { "by conversion" } else { "by new" }, if self.build_raw { "raw" } else { "by value" }, short(&self.nmap), short(&self.tmap))
    }
}

/// n different numbers: dense, nearly dense, sparse or huge.
pub fn distinct(n: usize, src: &mut Src) -> Vec<usize> {
    let mut v: Vec<usize> = Vec::new();
    let mut seen = HashSet::new();
    let known = &crate::dict::dict().numbers;
    let style = src.n(if known.is_empty() { 5 } else { 6 });
    while v.len() < n {
        let mut x = match style {
            5 => known[src.n(known.len())].wrapping_add(src.n(3)).wrapping_sub(1),
            4 => [0, 1, usize::MAX, usize::MAX - 1, usize::MAX >> 1, (usize::MAX >> 1) + 1, u32::MAX as usize, u32::MAX as usize + 1, 255, 256, 65535, 65536][src.n(12)],
            0 => src.n(n),
            1 => src.n(2 * n + 3),
            2 => 1000 + src.n(4 * n),
            _ => src.below(u64::MAX - 1) as usize,
        };
        while !seen.insert(x) {
            x = if style == 0 { (x + 1) % n } else { x.wrapping_add(1) };
        }
        v.push(x);
    }
    v
}

#[derive(Debug, PartialEq)]
pub struct Val2 {
    pub kind: usize,
    pub call: usize,
}
impl EnumIndex for Val2 {
    fn enum_index(&self) -> usize {
        self.kind
    }
}
#[derive(Debug, PartialEq)]
pub struct Tok2 {
    pub kind: usize,
    pub id: usize,
}
impl EnumIndex for Tok2 {
    fn enum_index(&self) -> usize {
        self.kind
    }
}

#[derive(Debug, PartialEq)]
pub struct Boom(pub usize);
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "boom in call {}", self.0)
    }
}
impl std::error::Error for Boom {}

#[derive(Default)]
pub struct Log {
    calls: Vec<Call>,
    pulled: usize,
    /// times the source was asked after it had ended
    asked_again: usize,
    fail_at: Option<usize>,
    bad: Option<String>,
}

/// Reducer calls after which a parse counts as endless; the inputs used need fewer than a fifth of it.
const FUEL: usize = 300_000;

pub type Shared = Rc<RefCell<Log>>;

pub struct Sut {
    pub parser: LR1Parser<Val2, Tok2, Boom>,
    pub warnings: Vec<String>,
    log: Shared,
    pub tmap: Vec<usize>,
}

fn reducer(rule: usize, kind: usize, log: Shared) -> impl Fn(&mut [Symbol<&mut Val2, &Tok2, &[Tok2]>]) -> Result<Val2, Boom> + 'static {
    move |list| {
        let mut l = log.borrow_mut();
        let id = l.calls.len();
        let mut children = Vec::with_capacity(list.len());
        for s in list.iter_mut() {
            children.push(match s {
                Symbol::NonTerminal(v) => {
                    // take the value, as reducers usually do
                    let c = v.call;
                    v.call = usize::MAX;
                    Child::N(c)
                }
                Symbol::Terminal(t) => Child::T(t.id),
                Symbol::Error(ts) => {
                    if ts.windows(2).any(|p| p[1].id != p[0].id + 1) {
                        l.bad = Some(format!("call #{}: the error slice is not contiguous: {:?}", id, ts));
                    }
                    match (ts.first(), ts.last()) {
                        (Some(a), Some(b)) => Child::E(a.id, b.id + 1),
                        // an empty slice has no position of its own
                        _ => Child::E(usize::MAX, usize::MAX),
                    }
                }
            });
        }
        let pulled = l.pulled;
        if id > FUEL && l.fail_at.is_none() {
            drop(l);
            panic!("no end: more than {} reducer calls for one input", FUEL);
        }
        l.calls.push(Call { rule, children, pulled });
        if l.fail_at == Some(id) {
            return Err(Boom(id));
        }
        Ok(Val2 { kind, call: id })
    }
}

pub fn make(g: &Grammar, route: &Route) -> Result<Sut, String> {
    let log: Shared = Default::default();
    let (parser, warnings) = sut(|| {
        let mut b = Syntax::<Val2, Tok2, Boom>::builder();
        let mut salt = route.salt;
        let mut next = || {
            salt = salt.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            salt >> 7
        };
        for (i, (l, r)) in g.rules.iter().enumerate() {
            let kind = route.nmap[*l as usize];
            let f = reducer(i, kind, log.clone());
            let rule = match route.kind[i % route.kind.len()] {
                0 => {
                    let ex: Vec<Symbol<Val2, Tok2, ()>> = r
                        .iter()
                        .map(|s| match s {
                            N(n) => Symbol::NonTerminal(Val2 { kind: route.nmap[*n as usize], call: next() }),
                            T(t) => Symbol::Terminal(Tok2 { kind: route.tmap[*t as usize], id: next() }),
                            E => Symbol::Error(()),
                        })
                        .collect();
                    Rule::new(Val2 { kind, call: next() }, &ex, f)
                }
                1 => {
                    let mut rb = Rule::<Val2, Tok2, Boom>::builder(Val2 { kind, call: next() });
                    for s in r {
                        rb = match s {
                            N(n) => rb.non_terminal(Val2 { kind: route.nmap[*n as usize], call: next() }),
                            T(t) => rb.terminal(Tok2 { kind: route.tmap[*t as usize], id: next() }),
                            E => rb.error(),
                        };
                    }
                    rb.build(f)
                }
                _ => {
                    let ex: Vec<Symbol<usize, usize, ()>> = r
                        .iter()
                        .map(|s| match s {
                            N(n) => Symbol::NonTerminal(route.nmap[*n as usize]),
                            T(t) => Symbol::Terminal(route.tmap[*t as usize]),
                            E => Symbol::Error(()),
                        })
                        .collect();
                    Rule::new_raw(kind, &ex, f)
                }
            };
            b = b.rule(rule);
        }
        let start = route.nmap[g.start as usize];
        let syntax = if route.build_raw { b.build_raw(start) } else { b.build(Val2 { kind: start, call: next() }) };
        if route.by_from {
            (LR1Parser::from(syntax), vec![])
        } else {
            let (p, w) = LR1Parser::new(syntax);
            let w = w.iter().map(|w| format!("{:?}", w)).collect();
            (p, w)
        }
    })?;
    Ok(Sut { parser, warnings, log, tmap: route.tmap.clone() })
}

struct Source<'a> {
    w: &'a [u16],
    at: usize,
    log: Shared,
    tmap: &'a [usize],
    /// called once before this token is handed out
    before: Option<(usize, Box<dyn FnOnce() + 'a>)>,
}
impl Iterator for Source<'_> {
    type Item = Tok2;
    fn next(&mut self) -> Option<Tok2> {
        if self.before.as_ref().map_or(false, |b| b.0 == self.at) {
            (self.before.take().unwrap().1)();
        }
        if self.at > self.w.len() {
            self.log.borrow_mut().asked_again += 1;
        }
        let id = self.at;
        self.at = (self.at + 1).min(self.w.len() + 1);
        let t = *self.w.get(id)?;
        self.log.borrow_mut().pulled += 1;
        Some(Tok2 { kind: self.tmap[t as usize], id })
    }
    /// exact for some lengths, unknown for others
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.w.len().saturating_sub(self.at);
        match self.w.len() % 4 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n + 3)),
            _ => (n / 2, Some(n)),
        }
    }
}

impl Sut {
    pub fn run(&self, w: &[u16], fail_at: Option<usize>) -> Result<Out, String> {
        self.run_with(w, fail_at, |_| Ok(()))
    }
    /// A parse in the middle of whose input another one is done with the same parser; both results.
    pub fn run_around(&self, w: &[u16], at: usize, inner: &[u16]) -> Result<(Out, Option<Result<Out, String>>), String> {
        let got = RefCell::new(None);
        let o = self.go(
            w,
            None,
            |_| Ok(()),
            Some((
                at,
                Box::new(|| {
                    let outer = std::mem::take(&mut *self.log.borrow_mut());
                    let r = self.run(inner, None);
                    *self.log.borrow_mut() = outer;
                    *got.borrow_mut() = Some(r);
                }),
            )),
        )?;
        Ok((o, got.into_inner()))
    }
    pub fn run_with(&self, w: &[u16], fail_at: Option<usize>, look: impl FnOnce(&ParseError<Boom>) -> Result<(), String>) -> Result<Out, String> {
        self.go(w, fail_at, look, None)
    }
    fn go<'a>(&'a self, w: &'a [u16], fail_at: Option<usize>, look: impl FnOnce(&ParseError<Boom>) -> Result<(), String>, before: Option<(usize, Box<dyn FnOnce() + 'a>)>) -> Result<Out, String> {
        *self.log.borrow_mut() = Log { fail_at, ..Default::default() };
        let src = Source { w, at: 0, log: self.log.clone(), tmap: &self.tmap, before };
        self.out(sut(|| src.parse(&self.parser))?, look)
    }
    pub fn asked_again(&self) -> usize {
        self.log.borrow().asked_again
    }
    /// Parses any tokens; their ids are to be their positions.
    pub fn run_tokens(&self, tokens: impl Iterator<Item = Tok2>) -> Result<Out, String> {
        *self.log.borrow_mut() = Log::default();
        let log = self.log.clone();
        let counted = tokens.inspect(|_| log.borrow_mut().pulled += 1);
        let r = sut(|| counted.parse(&self.parser))?;
        self.out(r, |_| Ok(()))
    }
    fn out(&self, r: Result<Val2, ParseError<Boom>>, look: impl FnOnce(&ParseError<Boom>) -> Result<(), String>) -> Result<Out, String> {
        if let Err(e) = &r {
            look(e)?;
        }
        let mut l = self.log.borrow_mut();
        if let Some(b) = l.bad.take() {
            return Err(b);
        }
        let calls = std::mem::take(&mut l.calls);
        let res = match r {
            Ok(v) => Res::Ok(v.call),
            Err(ParseError::RecoveryRuleNotFound) => Res::NoRecovery,
            Err(ParseError::ErrorInReducer(b)) => Res::Reducer(b.0),
        };
        if res == Res::Ok(usize::MAX) || matches!(res, Res::Ok(c) if c >= calls.len()) {
            return Err("the value returned is not one a reducer returned and no other reducer took".into());
        }
        Ok(Out { res, calls, pulled: l.pulled })
    }
}

/// Empty error slices carry no position, so the reference's are dropped before comparing.
pub fn normal(mut o: Out) -> Out {
    for c in o.calls.iter_mut() {
        for ch in c.children.iter_mut() {
            if let Child::E(a, b) = ch {
                if a == b {
                    *ch = Child::E(usize::MAX, usize::MAX);
                }
            }
        }
    }
    o
}

// ---------------------------------------------------------------- generating grammars

fn random(src: &mut Src) -> Grammar {
    let nn = src.range(1, 4);
    let nt = src.range(1, 4);
    let mut rules = Vec::new();
    for n in 0..nn {
        for _ in 0..src.range(1, 3) {
            let len = src.weighted(&[2, 5, 5, 3, 1]);
            let body = (0..len).map(|_| if src.chance(2, 5) { N(src.n(nn) as u16) } else { T(src.n(nt) as u16) }).collect();
            rules.push((n as u16, body));
        }
    }
    Grammar { nn, nt, start: src.n(nn) as u16, rules }
}

/// Every alternative starts with a terminal of its own, apart from empty ones.
fn ll(src: &mut Src) -> Grammar {
    let nn = src.range(1, 5);
    let nt = src.range(2, 6);
    let mut rules = Vec::new();
    for n in 0..nn {
        let mut ts: Vec<u16> = (0..nt as u16).collect();
        src.shuffle(&mut ts);
        let k = src.range(1, 3.min(nt));
        for t in &ts[..k] {
            let mut b = vec![T(*t)];
            for _ in 0..src.n(4) {
                b.push(if src.chance(1, 2) { N(src.n(nn) as u16) } else { T(src.n(nt) as u16) });
            }
            rules.push((n as u16, b));
        }
        if src.chance(1, 3) {
            rules.push((n as u16, vec![]));
        }
    }
    Grammar { nn, nt, start: 0, rules }
}

/// Expression ladder: binary levels of either associativity, unary operators, brackets, calls.
fn expr(src: &mut Src) -> Grammar {
    let levels = src.range(1, 4);
    let mut nt = 1u16; // t0 is the atom
    let mut rules = Vec::new();
    let fresh = |nt: &mut u16| {
        *nt += 1;
        *nt - 1
    };
    for l in 0..levels as u16 {
        let (cur, next) = (l, l + 1);
        for _ in 0..src.range(1, 2) {
            let op = fresh(&mut nt);
            match src.n(5) {
                0 | 1 => rules.push((cur, vec![N(cur), T(op), N(next)])),
                2 => rules.push((cur, vec![N(next), T(op), N(cur)])),
                3 => rules.push((cur, vec![T(op), N(cur)])),
                _ => rules.push((cur, vec![N(next), T(op), N(next)])),
            }
        }
        rules.push((cur, vec![N(next)]));
    }
    let atom = levels as u16;
    rules.push((atom, vec![T(0)]));
    let mut nn = levels + 1;
    if src.chance(3, 4) {
        let (a, b) = (fresh(&mut nt), fresh(&mut nt));
        rules.push((atom, vec![T(a), N(0), T(b)]));
        if src.chance(1, 2) {
            let (args, c) = (nn as u16, fresh(&mut nt));
            nn += 1;
            rules.push((atom, vec![T(0), T(a), N(args), T(b)]));
            rules.push((args, vec![N(args), T(c), N(0)]));
            rules.push((args, vec![N(0)]));
        }
    }
    Grammar { nn, nt: nt as usize, start: 0, rules }
}

/// Statement lists, blocks, optional parts, separators.
fn lists(src: &mut Src) -> Grammar {
    // N0 program, N1 statement, N2 item, t0 id, t1 ';', t2 '{', t3 '}', t4 ',', t5 '=', t6 'if'
    let mut r: Vec<(u16, Vec<S>)> = Vec::new();
    match src.n(4) {
        0 => r.extend([(0, vec![N(0), N(1)]), (0, vec![])]),
        1 => r.extend([(0, vec![N(1), N(0)]), (0, vec![])]),
        2 => r.extend([(0, vec![N(0), N(1)]), (0, vec![N(1)])]),
        _ => r.extend([(0, vec![N(0), T(4), N(1)]), (0, vec![N(1)])]),
    }
    r.push((1, vec![T(2), N(0), T(3)]));
    r.push((1, vec![N(2), T(1)]));
    if src.chance(1, 2) {
        r.push((1, vec![T(1)]));
    }
    match src.n(3) {
        0 => r.push((2, vec![T(0)])),
        1 => r.extend([(2, vec![T(0), T(5), N(2)]), (2, vec![T(0)])]),
        _ => r.extend([(2, vec![N(2), T(5), T(0)]), (2, vec![T(0)])]),
    }
    let mut nn = 3;
    if src.chance(1, 2) {
        // optional tail
        r.push((1, vec![T(6), N(2), N(3), T(1)]));
        r.push((3, vec![]));
        r.push((3, vec![T(4), N(2), N(3)]));
        nn = 4;
    }
    Grammar { nn, nt: 7, start: 0, rules: r }
}

/// LR(1) but not LALR(1): the same core is reached with different lookaheads.
fn not_lalr(src: &mut Src) -> Grammar {
    let k = src.range(2, 3); // contexts
    let len = src.range(1, 2);
    let core: Vec<S> = (0..len).map(|i| T(i as u16)).collect();
    // t0.. core, then k openers, then k closers
    let open = |i: usize| T((len + i) as u16);
    let close = |i: usize| T((len + k + i) as u16);
    let mut r = Vec::new();
    for i in 0..k {
        for j in 0..k {
            let inner = 1 + ((i + j) % k) as u16;
            r.push((0, vec![open(i), N(inner), close(j)]));
        }
    }
    for j in 0..k {
        r.push((1 + j as u16, core.clone()));
    }
    let mut nn = 1 + k;
    if src.chance(1, 3) {
        // recursion inside the core
        for j in 0..k as u16 {
            r.push((1 + j, vec![T(0), N(1 + j)]));
        }
    }
    let mut start = 0;
    if src.chance(1, 2) {
        start = nn as u16;
        nn += 1;
        r.push((start, vec![N(start), N(0)]));
        r.push((start, vec![N(0)]));
    }
    Grammar { nn, nt: len + 2 * k, start, rules: r }
}

/// Chains of optional parts and unit productions.
fn chain(src: &mut Src) -> Grammar {
    let k = src.range(2, 7);
    let mut r = Vec::new();
    let mut body = Vec::new();
    for i in 0..k as u16 {
        body.push(N(1 + i));
        if src.chance(1, 4) {
            body.push(T(i));
        }
        match src.n(4) {
            0 => r.extend([(1 + i, vec![T(i)]), (1 + i, vec![])]),
            1 => r.extend([(1 + i, vec![T(i), N(1 + i)]), (1 + i, vec![])]),
            2 => r.extend([(1 + i, vec![N(1 + i), T(i)]), (1 + i, vec![])]),
            _ => r.push((1 + i, vec![T(i)])),
        }
    }
    r.insert(0, (0, body));
    let mut nn = k + 1;
    let mut start = 0;
    // unit chain above
    for _ in 0..src.n(6) {
        r.push((nn as u16, vec![N(start)]));
        start = nn as u16;
        nn += 1;
    }
    if src.chance(1, 3) {
        r.push((0, vec![T(k as u16), N(start), T(k as u16 + 1)]));
    }
    Grammar { nn, nt: k + 2, start, rules: r }
}

/// Many terminals and long right-hand sides.
fn wide(src: &mut Src) -> Grammar {
    let nt = src.range(8, 60);
    let k = src.range(3, 14);
    let mut r: Vec<(u16, Vec<S>)> = Vec::new();
    for i in 0..k {
        let mut b = vec![T(i as u16)];
        let len = if src.chance(1, 6) { src.range(8, 20) } else { src.n(5) };
        for _ in 0..len {
            b.push(if src.chance(1, 4) { N(1) } else { T(src.n(nt) as u16) });
        }
        r.push((1, b));
    }
    r.push((0, vec![N(0), N(1)]));
    r.push((0, if src.chance(1, 2) { vec![] } else { vec![N(1)] }));
    Grammar { nn: 2, nt: nt.max(k), start: 0, rules: r }
}

/// States that go on after many non-terminals and read many tokens.
pub fn fan_out(src: &mut Src) -> Grammar {
    let k = src.range(8, 26) as u16;
    let mut r: Vec<(u16, Vec<S>)> = vec![(0, vec![N(0), N(1)]), (0, if src.chance(1, 2) { vec![] } else { vec![N(1)] })];
    for i in 0..k {
        // N(2+i) begins with token i; tokens k and k+1 end and nest
        r.push((1, if src.chance(2, 3) { vec![N(2 + i), T(k)] } else { vec![N(2 + i)] }));
        r.push((2 + i, match src.n(5) {
            0 => vec![T(i), T(k + 1), N(1)],
            1 => vec![T(i), N(2 + src.n(k as usize) as u16)],
            2 => vec![T(i), T(src.n(k as usize) as u16), T(k + 1)],
            _ => vec![T(i)],
        }));
    }
    if src.chance(1, 3) {
        r.push((1, vec![E, T(k)]));
    }
    if src.chance(1, 2) {
        src.shuffle(&mut r);
    }
    Grammar { nn: 2 + k as usize, nt: k as usize + 2, start: 0, rules: r }
}

/// What can be empty, and what it can begin with, only known a long way down.
pub fn nullable_chain(src: &mut Src) -> Grammar {
    let n = match if src.chance(1, 3) { crate::dict::cheap_size(40, 10, src) } else { None } {
        Some(n) => n.max(2),
        None => src.range(3, 24),
    } as u16;
    // 0 the start, 1 what is decided by what follows, 2.. the chain
    let (mut nn, mut nt) = (n + 3, 4u16);
    let mut rules: Vec<(u16, Vec<S>)> = Vec::new();
    rules.push((0, match src.n(4) {
        0 => vec![N(1), N(2)],
        1 => vec![N(1), N(2), T(0), N(0)],
        _ => vec![N(1), N(2), T(0)],
    }));
    if src.chance(1, 2) {
        rules.push((0, vec![T(1), N(1), T(3)]));
    }
    rules.push((1, vec![T(2)]));
    if src.chance(1, 2) {
        rules.push((1, if src.chance(1, 2) { vec![T(2), T(2)] } else { vec![T(2), N(1)] }));
    }
    for i in 2..n + 2 {
        let mut r = vec![N(i + 1)];
        for _ in 0..2 {
            if src.chance(1, 8) {
                // a part that can be left out beside it
                let k = src.n(r.len() + 1);
                r.insert(k, N(nn));
                rules.push((nn, vec![T(nt)]));
                rules.push((nn, vec![]));
                nn += 1;
                nt += 1;
            }
        }
        rules.push((i, r));
        if src.chance(1, 4) {
            rules.push((i, if src.chance(1, 2) { vec![T(nt)] } else { vec![T(nt), N(2 + src.n(n as usize) as u16)] }));
            nt += 1;
        }
    }
    if !src.chance(1, 6) {
        rules.push((n + 2, vec![]));
    }
    rules.push((n + 2, vec![T(nt)]));
    nt += 1;
    if src.chance(1, 4) {
        rules.reverse();
    }
    Grammar { nn: nn as usize, nt: nt as usize, start: 0, rules }
}

/// Puts one grammar in place of a terminal of another.
fn compose(a: Grammar, b: Grammar, src: &mut Src) -> Grammar {
    let t = src.n(a.nt) as u16;
    let (dn, dt) = (a.nn as u16, a.nt as u16);
    let share = src.chance(1, 3);
    let mut g = a;
    for r in g.rules.iter_mut() {
        for s in r.1.iter_mut() {
            if *s == T(t) {
                *s = N(dn + b.start);
            }
        }
    }
    for (l, r) in &b.rules {
        g.rules.push((
            dn + l,
            r.iter()
                .map(|s| match s {
                    N(n) => N(dn + n),
                    T(t) if share => T(*t),
                    T(t) => T(dt + t),
                    E => E,
                })
                .collect(),
        ));
    }
    g.nn += b.nn;
    g.nt = if share { g.nt.max(b.nt) } else { g.nt + b.nt };
    g
}

fn mutate(g: &mut Grammar, src: &mut Src) {
    for _ in 0..src.range(1, 3) {
        let k = src.n(g.rules.len());
        let (nn, nt) = (g.nn as u16, g.nt as u16);
        let sym = |src: &mut Src| if src.chance(1, 2) { N(src.n(nn as usize) as u16) } else { T(src.n(nt as usize) as u16) };
        match src.n(7) {
            0 if g.rules.len() > 1 => {
                g.rules.remove(k);
            }
            1 => {
                let l = g.rules[k].1.len();
                if l > 0 {
                    let i = src.n(l);
                    g.rules[k].1.remove(i);
                }
            }
            2 => {
                let i = src.n(g.rules[k].1.len() + 1);
                let s = sym(src);
                g.rules[k].1.insert(i, s);
            }
            3 => {
                let l = g.rules[k].1.len();
                if l > 0 {
                    let i = src.n(l);
                    g.rules[k].1[i] = sym(src);
                }
            }
            4 => {
                let mut r = g.rules[k].clone();
                r.0 = src.n(g.nn) as u16;
                g.rules.push(r);
            }
            5 => g.rules.push((src.n(g.nn) as u16, vec![])),
            _ => {
                let s = sym(src);
                g.rules.push((src.n(g.nn) as u16, vec![s]));
            }
        }
    }
}

pub fn alternatives(n: usize, src: &mut Src) -> Grammar {
    let mut rules: Vec<(u16, Vec<S>)> = Vec::new();
    rules.push((0, if src.chance(1, 2) { vec![T(n as u16), N(1)] } else { vec![N(1)] }));
    for i in 0..n as u16 {
        let mut r = vec![T(i)];
        if src.chance(1, 6) {
            r.push(T(src.n(n) as u16));
        }
        rules.push((1, r));
    }
    Grammar { nn: 2, nt: n + 1, start: 0, rules }
}

/// Beyond the usual size in one direction: alternatives, length of a right-hand side, depth of a chain, options in a row.
/// Of a given size, or of a random one.
pub fn huge(size: Option<usize>, src: &mut Src) -> Grammar {
    let mut rules: Vec<(u16, Vec<S>)> = Vec::new();
    let of = |lo: usize, hi: usize, max: usize, src: &mut Src| size.map_or_else(|| src.range(lo, hi), |n| n.clamp(2, max));
    match src.n(5) {
        0 => {
            // very many alternatives, some of them with a second symbol
            let n = of(100, 400, 480, src);
            alternatives(n, src)
        }
        1 => {
            // a very long right-hand side
            let n = of(20, 300, 900, src);
            let mut r = Vec::new();
            for _ in 0..n {
                r.push(if src.chance(1, 5) { N(1 + src.n(3) as u16) } else { T(src.n(5) as u16) });
            }
            rules.push((0, r));
            rules.push((1, vec![T(5)]));
            rules.push((1, vec![T(6), N(1)]));
            rules.push((2, vec![T(7), N(3)]));
            rules.push((3, vec![T(8)]));
            if src.chance(1, 2) {
                rules.push((0, vec![T(9), N(0)]));
            }
            Grammar { nn: 4, nt: 10, start: 0, rules }
        }
        2 => {
            // a long chain of unit productions
            let n = of(30, 200, 300, src);
            for i in 0..n as u16 {
                rules.push((i, vec![N(i + 1)]));
                if src.chance(1, 3) {
                    rules.push((i, vec![T(2 + i), N(src.n(n) as u16)]));
                }
            }
            rules.push((n as u16, vec![T(0)]));
            rules.push((n as u16, vec![T(1), N(0), T(0)]));
            Grammar { nn: n + 1, nt: n + 2, start: 0, rules }
        }
        3 => {
            // optional parts in a row
            let n = of(8, 40, 70, src);
            rules.push((0, (1..=n as u16).map(N).collect()));
            for i in 0..n as u16 {
                rules.push((i + 1, vec![T(i)]));
                rules.push((i + 1, vec![]));
            }
            Grammar { nn: n + 1, nt: n, start: 0, rules }
        }
        _ => {
            // a menu of very many non-terminals, each with its own terminal
            let n = of(60, 200, 230, src);
            for i in 1..=n as u16 {
                rules.push((0, vec![N(i)]));
                let back = if src.chance(1, 8) { vec![T(i), N(i)] } else { vec![T(i), T(0)] };
                rules.push((i, back));
                if src.chance(1, 3) {
                    rules.push((i, vec![T(0), T(i)]));
                } else {
                    rules.push((i, vec![T(n as u16 + i)]));
                }
            }
            Grammar { nn: n + 1, nt: 2 * n + 1, start: 0, rules }
        }
    }
}

/// The same language beside many short sentences of its own: every rule gets a number beyond the usual ones.
fn pad(g: &mut Grammar, src: &mut Src) {
    let n = match if src.chance(1, 2) { crate::dict::cheap_size(600, 60, src) } else { None } {
        Some(n) => n.max(2),
        None => src.range(8, 90),
    };
    let (a, b) = (g.nt as u16, g.nt as u16 + 1);
    let start = g.nn as u16;
    g.nn += 1;
    g.nt += 2;
    let bits = (usize::BITS - n.leading_zeros()) as usize;
    let mut fill: Vec<(u16, Vec<S>)> = (0..n).map(|i| (start, (0..bits).map(|k| T(if i >> k & 1 == 0 { a } else { b })).collect())).collect();
    // one of them leads to the grammar
    if src.chance(1, 2) {
        fill.push((start, vec![N(g.start)]));
    } else {
        let k = src.n(n);
        fill[k].1.push(N(g.start));
    }
    g.start = start;
    match src.n(3) {
        0 => {
            fill.append(&mut g.rules);
            g.rules = fill;
        }
        1 => g.rules.append(&mut fill),
        _ => {
            let mut old = std::mem::take(&mut g.rules).into_iter();
            for r in fill {
                if src.chance(1, 4) {
                    g.rules.extend(old.next());
                }
                g.rules.push(r);
            }
            g.rules.extend(old);
        }
    }
}

/// Longer right-hand sides: a run of terminals somewhere in some rules.
fn stretch(g: &mut Grammar, src: &mut Src) {
    for _ in 0..src.range(1, 3) {
        let k = src.n(g.rules.len());
        let at = src.n(g.rules[k].1.len() + 1);
        let n = match if src.chance(1, 3) { crate::dict::cheap_size(80, 10, src) } else { None } {
            Some(n) => n,
            None => src.range(2, 10),
        };
        let old = src.chance(1, 4);
        if !old {
            g.nt += 1;
        }
        let t = if old { src.n(g.nt) as u16 } else { g.nt as u16 - 1 };
        for _ in 0..n {
            g.rules[k].1.insert(at, T(t));
        }
    }
}

/// A random grammar whose non-terminals all have productions.
pub fn grammar(src: &mut Src) -> Grammar {
    let size = if src.chance(1, 60) { crate::dict::cheap_size(900, 40, src) } else { None };
    if size.is_some() || src.chance(1, 250) {
        let mut g = huge(size, src);
        if src.chance(1, 2) {
            let mut rs = std::mem::take(&mut g.rules);
            src.shuffle(&mut rs);
            g.rules = rs;
        }
        return g;
    }
    for _ in 0..8 {
        let pick = |src: &mut Src| match src.weighted(&[16, 8, 8, 8, 4, 8, 2, 3]) {
            0 => random(src),
            7 => nullable_chain(src),
            1 => ll(src),
            2 => expr(src),
            3 => lists(src),
            4 => not_lalr(src),
            5 => chain(src),
            _ => wide(src),
        };
        let mut g = pick(src);
        if src.chance(1, 8) && g.nt < 30 {
            let b = pick(src);
            if b.nt < 30 && b.rules.len() < 20 {
                g = compose(g, b, src);
            }
        }
        if src.chance(1, 3) {
            mutate(&mut g, src);
        }
        if src.chance(1, 16) {
            stretch(&mut g, src);
        }
        // rule order is arbitrary
        if src.chance(1, 2) {
            let mut rs = std::mem::take(&mut g.rules);
            src.shuffle(&mut rs);
            g.rules = rs;
        }
        // alternatives written twice make an ambiguous grammar; keep some
        if !src.chance(1, 12) {
            let mut seen = HashSet::new();
            g.rules.retain(|r| seen.insert(r.clone()));
        }
        if g.clean() && g.nt <= 120 && g.nn <= 60 {
            if src.chance(1, 40) {
                pad(&mut g, src);
            }
            return g;
        }
    }
    Grammar { nn: 1, nt: 1, start: 0, rules: vec![(0, vec![T(0)])] }
}

/// A conflict-free one with its automaton.
pub fn lr1(src: &mut Src, cap: usize) -> (Grammar, Lr) {
    for _ in 0..12 {
        let g = grammar(src);
        if let Some(lr) = Lr::new(&g, cap) {
            if lr.conflict_free {
                return (g, lr);
            }
        }
    }
    let g = Grammar { nn: 2, nt: 3, start: 0, rules: vec![(0, vec![N(0), T(1), N(1)]), (0, vec![N(1)]), (1, vec![T(0)]), (1, vec![T(2), N(1)])] };
    let lr = Lr::new(&g, 1 << 20).unwrap();
    (g, lr)
}

/// Error alternatives added at random places; returns the rule numbers of the new grammar that are old rules.
pub fn add_errors(g: &Grammar, src: &mut Src) -> (Grammar, Vec<Option<usize>>) {
    let mut rules: Vec<((u16, Vec<S>), Option<usize>)> = g.rules.iter().cloned().enumerate().map(|(i, r)| (r, Some(i))).collect();
    for _ in 0..src.range(1, 3) {
        let l = src.n(g.nn) as u16;
        let t = |src: &mut Src| T(src.n(g.nt) as u16);
        let n = |src: &mut Src| N(src.n(g.nn) as u16);
        let body = match src.weighted(&[6, 5, 4, 2, 2, 2, 2, 1, 1, 2, 3]) {
            0 => vec![E],
            1 => vec![E, t(src)],
            2 => vec![t(src), E, t(src)],
            3 => vec![E, N(l)],
            4 => vec![N(l), E],
            5 => vec![t(src), E],
            6 => vec![E, n(src)],
            7 => vec![E, E],
            8 => vec![E, t(src), E],
            9 => vec![n(src), E, t(src)],
            _ => {
                // a copy of a production with one part replaced by the placeholder
                let r = src.pick(&g.rules).clone();
                let mut b = r.1;
                if b.is_empty() {
                    b.push(E);
                } else {
                    let i = src.n(b.len());
                    b[i] = E;
                }
                if src.chance(1, 2) {
                    let at = src.n(rules.len() + 1);
                    rules.insert(at, ((r.0, b), None));
                    continue;
                }
                b
            }
        };
        let at = src.n(rules.len() + 1);
        rules.insert(at, ((l, body), None));
    }
    let (r, m) = rules.into_iter().unzip();
    (Grammar { rules: r, ..g.clone() }, m)
}

/// Layers that share error alternatives without sharing all of them, so that a recovery begun with some alternatives
/// goes on, or is given up, where only part of them is possible.
fn layers(src: &mut Src) -> (Grammar, Grammar, Vec<Option<usize>>) {
    let (nl, nx) = (src.range(2, 4), src.range(2, 6));
    let mut nt = 0u16;
    let mut fresh = || {
        nt += 1;
        T(nt - 1)
    };
    let layer = |src: &mut Src| N(src.n(nl) as u16);
    let mut rules: Vec<(u16, Vec<S>)> = Vec::new();
    for l in 0..nl as u16 {
        let own: Vec<usize> = (0..nx).filter(|_| src.chance(3, 5)).collect();
        let own = if own.is_empty() { vec![src.n(nx)] } else { own };
        for x in own {
            rules.push((l, vec![N((nl + x) as u16)]));
        }
        for _ in 0..src.n(3) {
            let mut b = vec![fresh(), layer(src)];
            if src.chance(1, 2) {
                b.push(fresh());
            }
            if src.chance(1, 4) {
                b.push(layer(src));
            }
            rules.push((l, b));
        }
    }
    let sep = fresh();
    for x in 0..nx {
        let h = (nl + x) as u16;
        let mut b = vec![fresh()];
        if src.chance(1, 3) {
            b.push(layer(src));
            b.push(fresh());
        }
        rules.push((h, b));
        for _ in 0..src.weighted(&[1, 6, 2]) {
            // most begin with the placeholder, so several are possible in one state
            let mut b = if src.chance(1, 6) { vec![fresh(), E] } else { vec![E] };
            match src.n(6) {
                0 => {}
                1 => b.push(sep),
                _ => b.push(fresh()),
            }
            match src.n(5) {
                0 => b.push(layer(src)),
                1 => {
                    b.push(layer(src));
                    b.push(fresh());
                }
                2 => b.push(E),
                _ => {}
            }
            rules.push((h, b));
        }
    }
    let mut start = 0;
    if src.chance(1, 2) {
        // a list of them, so that what an earlier recovery left behind meets later errors
        start = (nl + nx) as u16;
        let b = if src.chance(1, 2) { vec![N(start), fresh(), N(0)] } else { vec![N(start), N(0), fresh()] };
        rules.push((start, b));
        rules.push((start, if src.chance(1, 2) { vec![N(0)] } else { vec![] }));
    }
    if src.chance(1, 3) {
        src.shuffle(&mut rules);
    }
    let ge = Grammar { nn: nl + nx + (start > 0) as usize, nt: nt as usize, start, rules };
    let mut map = Vec::new();
    let mut plain = Vec::new();
    for r in &ge.rules {
        if r.1.contains(&E) {
            map.push(None);
        } else {
            map.push(Some(plain.len()));
            plain.push(r.clone());
        }
    }
    (Grammar { rules: plain, ..ge.clone() }, ge, map)
}

/// A conflict-free grammar with error alternatives: (base, with errors, map of rules, automaton)
pub fn lr1_errors(src: &mut Src, cap: usize) -> Option<(Grammar, Grammar, Vec<Option<usize>>, Lr)> {
    if src.chance(1, 5) {
        for _ in 0..4 {
            let (g, ge, m) = layers(src);
            if !ge.has_error() {
                continue;
            }
            if let Some(lr) = Lr::new(&ge, cap) {
                if lr.conflict_free {
                    return Some((g, ge, m, lr));
                }
            }
        }
    }
    for _ in 0..6 {
        let (g, _) = lr1(src, cap / 2);
        for _ in 0..6 {
            let (ge, m) = add_errors(&g, src);
            if let Some(lr) = Lr::new(&ge, cap) {
                if lr.conflict_free {
                    return Some((g, ge, m, lr));
                }
            }
        }
    }
    None
}

// ---------------------------------------------------------------- generating inputs

pub struct Sentences<'a> {
    g: &'a Grammar,
    errors: bool,
    min: Vec<usize>,
    by: Vec<Vec<usize>>,
}

impl<'a> Sentences<'a> {
    /// Rules with ERROR are not used.
    pub fn new(g: &'a Grammar) -> Self {
        Self::of(g, false)
    }
    /// With rules with ERROR, which stands for up to three tokens.
    pub fn with_errors(g: &'a Grammar) -> Self {
        Self::of(g, true)
    }
    fn of(g: &'a Grammar, errors: bool) -> Self {
        let mut min = vec![usize::MAX; g.nn];
        loop {
            let mut up = false;
            for (l, r) in &g.rules {
                let c = Self::cost(&min, r, errors);
                if c < min[*l as usize] {
                    min[*l as usize] = c;
                    up = true;
                }
            }
            if !up {
                break;
            }
        }
        let mut by = vec![vec![]; g.nn];
        for (i, (l, r)) in g.rules.iter().enumerate() {
            if Self::cost(&min, r, errors) < usize::MAX {
                by[*l as usize].push(i);
            }
        }
        Sentences { g, errors, min, by }
    }
    fn cost(min: &[usize], r: &[S], errors: bool) -> usize {
        let mut c = 1usize;
        for s in r {
            c = c.saturating_add(match s {
                T(_) => 1,
                E if errors => 1,
                E => usize::MAX,
                N(n) => min[*n as usize],
            });
        }
        c
    }
    pub fn any(&self) -> bool {
        self.min[self.g.start as usize] < usize::MAX
    }
    /// A sentence of about at most `budget` nodes; None if there is none.
    pub fn one(&self, budget: usize, src: &mut Src) -> Option<Vec<u16>> {
        if !self.any() {
            return None;
        }
        let mut out = Vec::new();
        let mut todo = vec![N(self.g.start)];
        let mut steps = 0usize;
        // the same way on and on, now and then: long lists, deep nesting
        let liked = if src.chance(1, 6) { Some((src.n(60), src.range(2, 12))) } else { None };
        while let Some(s) = todo.pop() {
            match s {
                T(t) => out.push(t),
                E => {
                    for _ in 0..src.n(4) {
                        out.push(src.n(self.g.nt.max(1)) as u16);
                    }
                }
                N(n) => {
                    steps += 1;
                    let by = &self.by[n as usize];
                    let pending = todo.len();
                    let r = if steps + pending < budget {
                        match liked {
                            Some((k, often)) if !src.chance(1, often as u64) => by[(k + n as usize) % by.len()],
                            _ => by[src.n(by.len())],
                        }
                    } else {
                        *by.iter().min_by_key(|r| Self::cost(&self.min, &self.g.rules[**r].1, self.errors)).unwrap()
                    };
                    todo.extend(self.g.rules[r].1.iter().rev());
                }
            }
            if steps > 20 * budget + 2000 {
                return None;
            }
        }
        Some(out)
    }
}

pub fn damage(w: &mut Vec<u16>, nt: usize, src: &mut Src) {
    for _ in 0..src.range(1, 3) {
        let t = src.n(nt) as u16;
        if w.is_empty() {
            w.push(t);
            continue;
        }
        let i = src.n(w.len());
        match src.n(7) {
            0 => {
                w.remove(i);
            }
            1 => w.insert(i, t),
            2 => w[i] = t,
            3 => {
                let j = src.n(w.len());
                w.swap(i, j);
            }
            4 => w.truncate(i),
            5 => {
                let j = (i + src.range(1, 3)).min(w.len());
                let part: Vec<u16> = w[i..j].to_vec();
                for (k, x) in part.into_iter().enumerate() {
                    w.insert(i + k, x);
                }
            }
            _ => {
                let j = (i + src.range(1, 4)).min(w.len());
                w.drain(i..j);
            }
        }
    }
}

/// All short strings (as many as fit), sentences, damaged sentences, random strings. One terminal kind
/// beyond the grammar's is used now and then.
pub fn inputs(g: &Grammar, n: usize, src: &mut Src) -> Vec<Vec<u16>> {
    let s = Sentences::new(g);
    let se = if g.has_error() { Some(Sentences::with_errors(g)) } else { None };
    let mut out: Vec<Vec<u16>> = vec![vec![]];
    let mut level: Vec<Vec<u16>> = vec![vec![]];
    if src.chance(1, 3) {
        while level.len() * g.nt + out.len() <= n * 2 && g.nt > 0 && level[0].len() < 6 {
            let mut next = Vec::new();
            for w in &level {
                for t in 0..g.nt as u16 {
                    let mut x = w.clone();
                    x.push(t);
                    next.push(x);
                }
            }
            out.extend(next.iter().cloned());
            level = next;
        }
    }
    for _ in 0..n {
        let sized = if src.chance(1, 60) { crate::dict::cheap_size(1000, 100, src) } else { None };
        let budget = sized.unwrap_or_else(|| if src.chance(1, 40) { 150 } else { [6, 12, 24, 48][src.n(4)] });
        let s = match &se {
            Some(se) if src.chance(1, 3) => se,
            _ => &s,
        };
        let mut w = match s.one(budget, src) {
            Some(w) if w.len() <= 400.max(budget) => w,
            _ => (0..src.n(8)).map(|_| src.n(g.nt.max(1)) as u16).collect(),
        };
        match src.weighted(&[5, 5, 1]) {
            0 => {}
            1 => damage(&mut w, g.nt, src),
            _ => w = (0..src.n(12)).map(|_| src.n(g.nt.max(1)) as u16).collect(),
        }
        if src.chance(1, 40) {
            let i = src.n(w.len() + 1);
            w.insert(i, g.nt as u16 + src.n(2) as u16);
        }
        out.push(w);
    }
    // far more tokens to give up than usual
    if g.has_error() && src.chance(1, 40) {
        let mut w = s.one(30, src).unwrap_or_default();
        let at = src.n(w.len() + 1);
        let n = src.chance(1, 2).then(|| crate::dict::size(2000, src)).flatten().unwrap_or_else(|| src.range(60, 700));
        let few: Vec<u16> = (0..src.range(1, 3)).map(|_| src.n(g.nt + 1) as u16).collect();
        let junk: Vec<u16> = (0..n).map(|_| *src.pick(&few)).collect();
        w.splice(at..at, junk);
        out.push(w);
    }
    out
}
