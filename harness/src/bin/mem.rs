//! C24: memory safety and release of everything. Built with AddressSanitizer (see /verif/check).
use parser::enum_index::EnumIndex;
use parser::{LR1Parser, Parse, Rule, Symbol, Syntax};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;
use tokenizer::{DFATokenizer, Tokenize};
use vh::engine::{dying, sut, used, CountingAlloc, Ctx, Prop, Src, GEN_ONLY};
use vh::gram::{self, drive, Grammar, Lr, Route, S};
use vh::re::{self, Dfa, Gen};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

type R = Result<(), String>;

extern "C" {
    fn __asan_set_death_callback(f: extern "C" fn());
}

#[no_mangle]
pub extern "C" fn __asan_default_options() -> *const libc::c_char {
    c"detect_leaks=0:handle_segv=0:handle_sigbus=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=1".as_ptr()
}

extern "C" fn on_death() {
    dying();
}

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

/// Something on the heap whose number of living copies is known.
struct Thing(Box<u64>);
impl Thing {
    fn new(x: u64) -> Thing {
        LIVE.with(|l| l.set(l.get() + 1));
        Thing(Box::new(x))
    }
}
impl Drop for Thing {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
        *self.0 = u64::MAX;
    }
}

// ---------------------------------------------------------------- tokenizers

struct Item {
    c: char,
    body: Thing,
}

#[derive(Debug)]
enum Use {
    /// all tokens, the tokenizer borrowed
    All,
    /// some tokens, then the iterator is dropped
    Some(usize),
    /// the function that makes tokens panics at this one
    Panic(usize),
    /// the source panics at this item
    SourcePanic(usize),
    /// a second iterator over the same text takes turns
    Two,
}

struct TokCase {
    patterns: Vec<String>,
    uses: Vec<(Vec<char>, Use)>,
    by_value: bool,
}

fn tok_case(src: &mut Src, ctx: &mut Ctx) -> TokCase {
    let mut hirs = Vec::new();
    let mut patterns: Vec<String> = Vec::new();
    let (v, cap) = match src.weighted(&[60, 3, 1]) {
        0 => {
            let fancy = src.chance(1, 10);
            (re::pattern_list(src, 8, fancy), 150)
        }
        1 => {
            let p = re::fan(src);
            let h = re::parse(&p).unwrap();
            (vec![(p, h)], 600)
        }
        _ => (re::scaled(src), 600),
    };
    for (p, h) in v {
        patterns.push(p);
        hirs.push(h);
    }
    // classes of hundreds of ranges in many states, and long rows of optional parts, take seconds under the sanitizer
    let build = |h: &[regex_syntax::hir::Hir]| {
        let n = h.iter().map(re::hir_size).sum::<u64>();
        Dfa::new(h, false, cap).filter(|d| d.trans.iter().map(|t| t.len()).sum::<usize>() < 4000 && n * n * (d.trans.len() as u64) < 20_000_000)
    };
    let mut d = build(&hirs);
    while d.is_none() {
        if hirs.len() == 1 {
            patterns = vec!["[a-c]+d".into()];
            hirs = vec![re::parse("[a-c]+d").unwrap()];
        } else {
            hirs.pop();
            patterns.pop();
        }
        d = build(&hirs);
    }
    let d = d.unwrap();
    if src.chance(1, 8) {
        ctx.label("pattern with an empty sub-expression");
        let th = re::theme(src);
        let (p, h) = Gen::new(th, false, true).good(20, src);
        if !re::has_unsupported(&h) {
            patterns.push(p);
        }
    }
    if src.chance(1, 6) {
        ctx.label("refused pattern");
        let at = src.n(patterns.len() + 1);
        patterns.insert(at, src.pick(&["(", "a{2,1}", "[z-a]", "^a", "a$", "\\bq", "(?-u:\\xff)", "*", "(a|b)+\\b"]).to_string());
    }
    let n = src.range(1, 6);
    let mut uses = Vec::new();
    for t in re::inputs(&hirs, &d, n, src) {
        let u = match src.weighted(&[4, 2, 1, 1, 1]) {
            0 => Use::All,
            1 => Use::Some(src.n(4)),
            2 => Use::Panic(src.n(3)),
            3 => Use::SourcePanic(src.n(t.len() + 1)),
            _ => Use::Two,
        };
        uses.push((t, u));
    }
    TokCase { patterns, uses, by_value: src.chance(1, 3) }
}

/// Builds, uses and drops once; a digest of what was seen.
fn tok_once(c: &TokCase) -> u64 {
    let mut h = 17u64;
    let mut note = |x: u64| h = h.wrapping_mul(0x100000001b3) ^ x;
    let panic_at = Rc::new(Cell::new(usize::MAX));
    let mut b = DFATokenizer::<(usize, usize, Vec<Item>), Item>::builder();
    for (i, p) in c.patterns.iter().enumerate() {
        let own = Thing::new(i as u64);
        let panic_at = panic_at.clone();
        b = b.pattern(p, move |s: &str, v: Vec<Item>| {
            if panic_at.get() == 0 {
                panic!("maker");
            }
            panic_at.set(panic_at.get() - 1);
            (*own.0 as usize, s.len(), v)
        });
    }
    let tk = match b.build() {
        Ok((tk, w)) => {
            note(w.len() as u64);
            drop(w);
            tk
        }
        Err(e) => {
            note(format!("{:?}", e).len() as u64);
            return h;
        }
    };
    let items = |t: &'_ [char], until: usize| {
        let t = t.to_vec();
        t.into_iter().enumerate().map(move |(i, c)| {
            if i == until {
                panic!("source");
            }
            Item { c, body: Thing::new(i as u64) }
        })
    };
    let mut see = |o: &(usize, usize, Vec<Item>)| {
        note(o.0 as u64 * 1000 + o.1 as u64);
        o.2.iter().for_each(|i| note(*i.body.0));
    };
    for (t, u) in &c.uses {
        match u {
            Use::All => items(t, usize::MAX).tokenize_with(&tk, |i: &Item| i.c).take(t.len() + 1).for_each(|o| see(&o)),
            Use::Some(k) => items(t, usize::MAX).tokenize_with(&tk, |i: &Item| i.c).take(*k).for_each(|o| see(&o)),
            Use::Panic(k) => {
                panic_at.set(*k);
                let _ = catch_unwind(AssertUnwindSafe(|| items(t, usize::MAX).tokenize_with(&tk, |i: &Item| i.c).take(t.len() + 1).for_each(|o| see(&o))));
                panic_at.set(usize::MAX);
            }
            Use::SourcePanic(k) => {
                let mut it = items(t, *k).tokenize_with(&tk, |i: &Item| i.c);
                for _ in 0..t.len() + 1 {
                    match catch_unwind(AssertUnwindSafe(|| it.next())) {
                        Ok(Some(o)) => see(&o),
                        Ok(None) => break,
                        Err(_) => see(&(999, 999, vec![])),
                    }
                }
            }
            Use::Two => {
                let mut a = items(t, usize::MAX).tokenize_with(&tk, |i: &Item| i.c);
                let mut b = items(t, usize::MAX).tokenize_with(&tk, |i: &Item| i.c);
                for _ in 0..t.len() + 1 {
                    let (x, y) = (a.next(), b.next());
                    let end = x.is_none() && y.is_none();
                    x.iter().chain(y.iter()).for_each(&mut see);
                    if end {
                        break;
                    }
                }
            }
        }
    }
    if c.by_value {
        let t = &c.uses[0].0;
        items(t, usize::MAX).tokenize_with(tk, |i: &Item| i.c).take(t.len() + 1).for_each(|o| see(&o));
    }
    h
}

// ---------------------------------------------------------------- parsers

struct Value {
    kind: usize,
    body: Thing,
    below: Vec<Value>,
}
impl EnumIndex for Value {
    fn enum_index(&self) -> usize {
        self.kind
    }
}
struct Token {
    kind: usize,
    body: Thing,
}
impl EnumIndex for Token {
    fn enum_index(&self) -> usize {
        self.kind
    }
}

struct ParCase {
    g: Grammar,
    route: Route,
    /// input, call that fails, call that panics, token whose reading panics
    uses: Vec<(Vec<u16>, usize, usize, usize)>,
}

fn par_case(src: &mut Src, ctx: &mut Ctx) -> ParCase {
    let (g, lr) = loop {
        let g = if src.chance(1, 2) {
            let g = gram::grammar(src);
            gram::add_errors(&g, src).0
        } else {
            gram::grammar(src)
        };
        if let Some(lr) = Lr::new(&g, 3000) {
            break (g, lr);
        }
    };
    if g.has_error() {
        ctx.label("error alternatives");
    }
    let route = Route::any(&g, false, src);
    let n = src.range(2, 10);
    let mut uses = Vec::new();
    for w in gram::inputs(&g, n, src).into_iter().take(3 * n) {
        if drive(&g, &lr, &w, None, 3000).0.is_none() {
            continue;
        }
        let f = if src.chance(1, 5) { src.n(6) } else { usize::MAX };
        let p = if src.chance(1, 8) { src.n(6) } else { usize::MAX };
        let s = if src.chance(1, 10) { src.n(w.len() + 1) } else { usize::MAX };
        uses.push((w, f, p, s));
    }
    ParCase { g, route, uses }
}

fn par_once(c: &ParCase) -> u64 {
    let mut h = 29u64;
    let mut note = |x: u64| h = h.wrapping_mul(0x100000001b3) ^ x;
    // call number, failing call, panicking call, digest
    let state: Rc<(Cell<usize>, Cell<usize>, Cell<usize>, Cell<u64>)> = Rc::new((Cell::new(0), Cell::new(usize::MAX), Cell::new(usize::MAX), Cell::new(0)));
    let mut b = Syntax::<Value, Token, Thing>::builder();
    let r = &c.route;
    let n = |i: u16| Value { kind: r.nmap[i as usize], body: Thing::new(1), below: vec![] };
    let t = |i: u16| Token { kind: r.tmap[i as usize], body: Thing::new(2) };
    for (i, (l, rhs)) in c.g.rules.iter().enumerate() {
        let kind = r.nmap[*l as usize];
        let own = Thing::new(i as u64);
        let st = state.clone();
        let f = move |list: &mut [Symbol<&mut Value, &Token, &[Token]>]| -> Result<Value, Thing> {
            let k = st.0.get();
            st.0.set(k + 1);
            let mut d = st.3.get() ^ *own.0;
            let mut below = Vec::new();
            for s in list.iter_mut() {
                d = d.wrapping_mul(0x100000001b3)
                    ^ match s {
                        Symbol::NonTerminal(v) => {
                            let x = *v.body.0;
                            if k % 3 == 0 {
                                below.push(std::mem::replace(*v, Value { kind: 0, body: Thing::new(0), below: vec![] }));
                            } else if k % 3 == 1 {
                                below.append(&mut v.below);
                            }
                            x
                        }
                        Symbol::Terminal(t) => *t.body.0,
                        Symbol::Error(e) => e.iter().fold(7, |a, t| a * 31 + *t.body.0),
                    };
            }
            st.3.set(d);
            if k == st.2.get() {
                panic!("reducer");
            }
            if k == st.1.get() {
                return Err(Thing::new(d));
            }
            below.truncate(4);
            Ok(Value { kind, body: Thing::new(k as u64), below })
        };
        let rule = match r.kind[i % r.kind.len()] {
            0 => {
                let ex: Vec<Symbol<Value, Token, ()>> = rhs
                    .iter()
                    .map(|s| match s {
                        S::N(x) => Symbol::NonTerminal(n(*x)),
                        S::T(x) => Symbol::Terminal(t(*x)),
                        S::E => Symbol::Error(()),
                    })
                    .collect();
                Rule::new(n(*l), &ex, f)
            }
            1 => {
                let mut rb = Rule::<Value, Token, Thing>::builder(n(*l));
                for s in rhs {
                    rb = match s {
                        S::N(x) => rb.non_terminal(n(*x)),
                        S::T(x) => rb.terminal(t(*x)),
                        S::E => rb.error(),
                    };
                }
                rb.build(f)
            }
            _ => {
                let ex: Vec<Symbol<usize, usize, ()>> = rhs
                    .iter()
                    .map(|s| match s {
                        S::N(x) => Symbol::NonTerminal(r.nmap[*x as usize]),
                        S::T(x) => Symbol::Terminal(r.tmap[*x as usize]),
                        S::E => Symbol::Error(()),
                    })
                    .collect();
                Rule::new_raw(kind, &ex, f)
            }
        };
        b = b.rule(rule);
    }
    let syntax = if r.build_raw { b.build_raw(r.nmap[c.g.start as usize]) } else { b.build(n(c.g.start)) };
    let parser = if r.by_from {
        LR1Parser::from(syntax)
    } else {
        let (p, w) = LR1Parser::new(syntax);
        note(w.len().min(1) as u64);
        p
    };
    for (w, fail, panic_, src_panic) in &c.uses {
        state.0.set(0);
        state.1.set(*fail);
        state.2.set(*panic_);
        state.3.set(0);
        let tmap = &r.tmap;
        let mut at = 0;
        let tokens = std::iter::from_fn(|| {
            if at == *src_panic {
                panic!("source");
            }
            let t = Token { kind: tmap[*w.get(at)? as usize], body: Thing::new(at as u64) };
            at += 1;
            Some(t)
        });
        match catch_unwind(AssertUnwindSafe(|| tokens.parse(&parser))) {
            Ok(Ok(v)) => note(*v.body.0),
            Ok(Err(parser::ParseError::ErrorInReducer(e))) => note(*e.0 ^ 5),
            Ok(Err(_)) => note(3),
            Err(_) => note(4),
        }
        note(state.3.get());
    }
    h
}

// ---------------------------------------------------------------- C24

enum Case {
    Tok(TokCase),
    Par(ParCase),
}

fn c24(src: &mut Src, ctx: &mut Ctx) -> R {
    let case = if src.chance(1, 2) { Case::Par(par_case(src, ctx)) } else { Case::Tok(tok_case(src, ctx)) };
    ctx.desc = match &case {
        Case::Tok(c) => format!("patterns {:?}, uses {:?}{}", c.patterns, c.uses.iter().map(|(t, u)| (t.iter().take(80).collect::<String>(), u)).collect::<Vec<_>>(), if c.by_value { ", at last by value" } else { "" }),
        Case::Par(c) => format!("{}{}, (input, failing call, panicking call, panicking token) {:?}", c.g.show(), c.route.show(), c.uses.iter().map(|u| (&u.0[..u.0.len().min(60)], u.1 as isize, u.2 as isize, u.3 as isize)).collect::<Vec<_>>()),
    };
    match &case {
        Case::Tok(c) => {
            ctx.label("tokenizer");
            if c.uses.iter().any(|u| matches!(u.1, Use::Panic(_) | Use::SourcePanic(_))) {
                ctx.label("panics in user code");
            }
            ctx.nontrivial = c.patterns.iter().map(|p| p.len()).sum::<usize>() >= 3 && c.uses.iter().any(|u| u.0.len() >= 2);
        }
        Case::Par(c) => {
            ctx.label("parser");
            if c.uses.iter().any(|u| u.1 != usize::MAX || u.2 != usize::MAX || u.3 != usize::MAX) {
                ctx.label("failures and panics in user code");
            }
            ctx.nontrivial = c.g.rules.len() >= 2 && c.uses.iter().any(|u| u.0.len() >= 2);
        }
    }
    if GEN_ONLY.load(SeqCst) {
        return Ok(());
    }
    let mut grown = [0i64; 3];
    let mut digest = None;
    for (i, g) in grown.iter_mut().enumerate() {
        ctx.evals += 1;
        let before = used();
        LIVE.with(|l| l.set(0));
        let h = sut(|| match &case {
            Case::Tok(c) => tok_once(c),
            Case::Par(c) => par_once(c),
        })?;
        *g = used() - before;
        let live = LIVE.with(|l| l.get());
        if live != 0 {
            return Err(format!("{} values handed over (items, tokens, results, errors, closures) still exist after everything was dropped, in use {}", live, i));
        }
        if *digest.get_or_insert(h) != h {
            return Err(format!("use {} went differently from the first", i));
        }
    }
    if grown[1..].iter().all(|g| *g > 0) {
        return Err(format!("building, using and dropping the same again and again keeps more memory each time: {:?} bytes", grown));
    }
    Ok(())
}

fn main() {
    unsafe { __asan_set_death_callback(on_death) };
    let props = [Prop {
        id: "C24",
        rule: "Half of the cases a random pattern list (C02's, families of many states, empty and refused patterns included) tokenizing random texts, half a random grammar (conflicts and error alternatives included, written in any way) parsing random inputs; items, tokens, values, errors and closures own heap memory and are counted; iterators are dropped early, makers, reducers and sources panic, reducers fail. Each case is built, used and dropped three times under AddressSanitizer, with live bytes and live objects counted. Non-trivial: patterns of 3 characters in all or 2 productions, and an input of two items.",
        assumptions: &["AddressSanitizer sees invalid accesses to heap and stack memory, not violations of Rust's aliasing rules", "tables of at most 600 states, canonical automata of at most 3000 items"],
        quick: 15000,
        thorough: 1000000,
        run: c24,
    }];
    vh::cli::main(&props, |_| (vec![], vec![]))
}
