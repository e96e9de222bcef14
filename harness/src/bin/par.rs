//! C10-C19: parsers built at run time.
use parser::{Rule, Symbol, Syntax};
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::error::Error;
use std::hash::{Hash, Hasher};
use vh::engine::{sut, CountingAlloc, Ctx, Prop, Src};
use vh::gram::*;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

const CAP: usize = 9000;
/// Longest reference run (shifts, reductions and recovery steps) of an input that is given to the code under test:
/// recovery that abandons nested constructs re-parses what follows them, which can double with every level.
const STEPS: usize = 40_000;

fn note(ctx: &mut Ctx, g: &Grammar, lr: &Lr) {
    ctx.max("productions", g.rules.len() as u64);
    ctx.max("states of the canonical automaton", lr.states() as u64);
    if g.rules.iter().any(|r| r.1.is_empty()) {
        ctx.label("empty productions");
    }
    if g.rules.iter().any(|r| r.1.first() == Some(&S::N(r.0))) {
        ctx.label("left recursion");
    }
    if g.rules.iter().any(|r| r.1.len() > 1 && r.1.last() == Some(&S::N(r.0))) {
        ctx.label("right recursion");
    }
    if g.productive().iter().any(|p| !p) {
        ctx.label("unproductive symbols");
    }
}

/// The parser under test, the grammar written in any of the possible ways.
fn written(g: &Grammar, src: &mut Src, ctx: &mut Ctx) -> Result<Sut, String> {
    let r = Route::any(g, false, src);
    ctx.desc.push_str(&r.show());
    make(g, &r)
}

/// A conflict-free grammar without error alternatives, its automaton, the parser under test.
fn plain(src: &mut Src, ctx: &mut Ctx) -> Result<(Grammar, Lr, Sut), String> {
    let (g, lr) = lr1(src, CAP);
    ctx.desc = g.show();
    note(ctx, &g, &lr);
    let s = written(&g, src, ctx)?;
    Ok((g, lr, s))
}

/// False for the recorded finding of C18: with a symbol that derives nothing, a parse may loop; such inputs are left out.
fn ends(g: &Grammar, lr: &Lr, w: &[u16]) -> bool {
    g.productive().iter().all(|p| *p) || drive(g, lr, w, None, STEPS + 100 * w.len()).0.is_some()
}

fn long_input(g: &Grammar, src: &mut Src, out: &mut Vec<Vec<u16>>) -> bool {
    if !src.chance(1, 60) {
        return false;
    }
    let budget = src.chance(1, 2).then(|| vh::dict::size(20_000, src)).flatten().unwrap_or_else(|| src.range(300, 4000));
    if let Some(w) = Sentences::new(g).one(budget, src) {
        if w.len() > 100 {
            out.push(w);
            return true;
        }
    }
    false
}

// ---------------------------------------------------------------- C10

fn c10(src: &mut Src, ctx: &mut Ctx) -> R {
    let (g, lr, s) = plain(src, ctx)?;
    let (mut yes, mut no) = (0, 0);
    let mut ins = inputs(&g, 24, src);
    let long = long_input(&g, src, &mut ins);
    for (k, w) in ins.iter().enumerate() {
        if !ends(&g, &lr, w) {
            ctx.excluded += 1;
            continue;
        }
        ctx.evals += 1;
        ctx.max("longest input", w.len() as u64);
        // Earley decides membership; on the occasional very long sentence the generator itself does
        let member = if long && k + 1 == ins.len() { true } else { earley(&g, w).accepts };
        let o = s.run(w, None)?;
        if member {
            yes += 1;
            ensure!(matches!(o.res, Res::Ok(_)), "{}\ninput {:?} is a sentence, but parsing gives {:?}", g.show(), w, o.res);
        } else {
            no += 1;
            ensure!(o.res == Res::NoRecovery, "{}\ninput {:?} is not a sentence, but parsing gives {:?}", g.show(), w, o.res);
        }
    }
    if long {
        ctx.label("long sentence");
    }
    if !lr.lalr {
        ctx.label("merging states with equal cores would conflict");
    }
    ctx.nontrivial = yes > 1 && no > 0 && lr.states() >= 5;
    Ok(())
}

// ---------------------------------------------------------------- C11

fn c11(src: &mut Src, ctx: &mut Ctx) -> R {
    let (g, lr, s) = plain(src, ctx)?;
    let sent = Sentences::new(&g);
    let mut big = 0;
    let mut ins = Vec::new();
    for _ in 0..16 {
        let budget = [6, 12, 24, 60][src.n(4)];
        if let Some(w) = sent.one(budget, src) {
            ins.push(w);
        }
    }
    if long_input(&g, src, &mut ins) {
        ctx.label("long sentence");
    }
    for w in &ins {
        if !ends(&g, &lr, w) {
            ctx.excluded += 1;
            continue;
        }
        ctx.evals += 1;
        ctx.max("longest input", w.len() as u64);
        let o = s.run(w, None)?;
        // the input is a sentence by construction
        ensure!(matches!(o.res, Res::Ok(_)), "{}\ninput {:?} is a sentence, but parsing gives {:?}", g.show(), w, o.res);
        check_derivation(&g, w, &o, false).map_err(|e| format!("{}\ninput {:?}: {}\n{}", g.show(), w, e, show_out(&o)))?;
        big = big.max(o.calls.len());
    }
    ctx.max("reducer calls", big as u64);
    ctx.nontrivial = big >= 4;
    Ok(())
}

// ---------------------------------------------------------------- C12

fn numbers_after(s: &str, key: &str) -> Option<Vec<u32>> {
    let at = s.rfind(key)? + key.len();
    let rest = &s[at..];
    let end = rest.find(|c: char| !(c.is_ascii_digit() || " ,[:".contains(c))).unwrap_or(rest.len());
    Some(rest[..end].split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect())
}

fn c12(src: &mut Src, ctx: &mut Ctx) -> R {
    let (mut g, lr);
    let mut tries = 0;
    loop {
        g = grammar(src);
        if src.chance(1, 4) {
            g = add_errors(&g, src).0;
        }
        if let Some(l) = Lr::new(&g, CAP) {
            lr = l;
            break;
        }
        tries += 1;
        if tries > 6 {
            return Ok(());
        }
    }
    ctx.desc = g.show();
    note(ctx, &g, &lr);
    ctx.evals += 1;
    if lr.conflict_free {
        ctx.label("LR(1)");
        if !lr.lalr {
            ctx.label("LR(1) but not LALR(1)");
        }
    } else {
        ctx.label("conflicts");
    }
    let r = Route::any(&g, true, src);
    ctx.desc.push_str(&r.show());
    let s = make(&g, &r)?;
    ensure!(s.warnings.is_empty() == lr.conflict_free, "{}\nthe grammar is {}LR(1) (shift/reduce {:?}, reduce/reduce {:?}) but construction returned {} warnings: {:?}", g.show(), if lr.conflict_free { "" } else { "not " }, lr.sr, lr.rr, s.warnings.len(), s.warnings.first());
    // what the warnings name, as far as they can be read
    let (mut sr, mut rr, mut readable) = (BTreeSet::new(), BTreeSet::new(), true);
    let len = |r: u32| g.rules.get(r as usize).map_or(1, |r| r.1.len() as u32);
    for w in &s.warnings {
        let state = w.find("state: ").map_or("", |i| &w[i..]);
        let state = &state[..state.find(", shift: ").or(state.rfind(", actions: ")).unwrap_or(0)];
        let complete = |r: u32| !state.contains("rule: ") || state.contains(&format!("rule: {}, position: {},", r, len(r)));
        match (w.starts_with("ShiftReduce"), w.starts_with("ReduceReduce"), numbers_after(w, "reduce: ").as_deref(), numbers_after(w, "actions: ").as_deref()) {
            (true, _, Some([r]), _) => {
                ctx.label("shift/reduce warning");
                ensure!(lr.sr.contains(r), "{}\nwarning names a shift/reduce conflict of rule {}, which has none: {}", g.show(), r, w);
                ensure!(complete(*r), "{}\nwarning names a state that does not reduce by rule {}: {}", g.show(), r, w);
                sr.insert(*r);
            }
            (_, true, _, Some([a, b])) => {
                ctx.label("reduce/reduce warning");
                ensure!(lr.rr.contains(&(*a, *b)), "{}\nwarning names a conflict between rules {} and {}, which never compete: {}", g.show(), a, b, w);
                ensure!(complete(*a) && complete(*b), "{}\nwarning names a state that does not reduce by rules {} and {}: {}", g.show(), a, b, w);
                rr.insert(*a);
                rr.insert(*b);
            }
            _ => readable = false,
        }
    }
    if readable {
        ensure!(sr.is_superset(&lr.sr), "{}\nrules {:?} have shift/reduce conflicts, the warnings name {:?}", g.show(), lr.sr, sr);
        ensure!(rr.is_superset(&lr.rr_named), "{}\nrules {:?} have reduce/reduce conflicts (after the last one comes acceptance), the warnings name {:?}", g.show(), lr.rr_named, rr);
    }
    ctx.nontrivial = lr.states() >= 4;
    Ok(())
}

// ---------------------------------------------------------------- C13

fn c13(src: &mut Src, ctx: &mut Ctx) -> R {
    for _ in 0..10 {
        let mut g = grammar(src);
        if src.chance(1, 5) {
            g = add_errors(&g, src).0;
        }
        let Some(lr) = Lr::new(&g, CAP) else { continue };
        if lr.conflict_free {
            continue;
        }
        ctx.desc = g.show();
        note(ctx, &g, &lr);
        let s = written(&g, src, ctx)?;
        for w in inputs(&g, 24, src) {
            let (want, tr) = drive(&g, &lr, &w, None, 2000 + 50 * w.len());
            let Some(want) = want else {
                ctx.label("an input on which the conflicting grammar loops, not run");
                continue;
            };
            ctx.evals += 1;
            if tr.used_conflict {
                ctx.label("a conflict was resolved on the way");
                ctx.nontrivial = true;
            }
            let want = normal(want);
            let got = s.run(&w, None)?;
            ensure!(same_values(&got, &want), "{}\ninput {:?}\nexpected {}\ngot      {}", g.show(), w, show_out(&want), show_out(&got));
        }
        if !lr.sr.is_empty() {
            ctx.label("shift/reduce");
        }
        if !lr.rr.is_empty() {
            ctx.label("reduce/reduce");
        }
        if lr.rr.iter().any(|p| p.0 as usize == g.rules.len()) {
            ctx.label("accept/reduce");
        }
        return Ok(());
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn c14(src: &mut Src, ctx: &mut Ctx) -> R {
    let (g, lr) = if src.chance(1, 3) {
        match lr1_errors(src, CAP) {
            Some((_, g, _, lr)) => {
                ctx.label("with error alternatives");
                (g, lr)
            }
            None => lr1(src, CAP),
        }
    } else {
        lr1(src, CAP)
    };
    ctx.desc = g.show();
    note(ctx, &g, &lr);
    let s = written(&g, src, ctx)?;
    for w in inputs(&g, 10, src) {
        let (Some(free), _) = drive(&g, &lr, &w, None, STEPS) else { continue };
        let free = normal(free);
        ctx.evals += 1;
        let mut bare = true;
        let got = s.run_with(&w, None, |e| {
            bare = matches!(e, parser::ParseError::ErrorInReducer(_)) || (e.source().is_none() && !e.to_string().is_empty());
            Ok(())
        })?;
        ensure!(!matches!(got.res, Res::Reducer(_)), "{}\ninput {:?}: no reducer failed, yet parse returned a reducer error", g.show(), w);
        ensure!(got.res != Res::NoRecovery || bare, "{}\ninput {:?}: the recovery-rule-not-found error is displayed as nothing or has a source", g.show(), w);
        if free.calls.is_empty() {
            continue;
        }
        for _ in 0..3 {
            ctx.evals += 1;
            let k = src.n(free.calls.len());
            let got = s.run_with(&w, Some(k), |e| {
                let want = format!("boom in call {}", k);
                if let parser::ParseError::ErrorInReducer(b) = e {
                    ensure!(*b == Boom(k), "{}\ninput {:?}: call {} failed, parse returned {:?}", g.show(), w, k, e);
                    ensure!(e.to_string() == want, "{}\ndisplaying the error of call {} shows {:?}", g.show(), k, e.to_string());
                    let src = e.source().map(|s| s.to_string());
                    ensure!(src.as_deref() == Some(&want[..]), "{}\nthe source of the error of call {} is {:?}", g.show(), k, src);
                }
                Ok(())
            })?;
            ensure!(got.res == Res::Reducer(k), "{}\ninput {:?}: call {} failed, parse gives {:?}", g.show(), w, k, got.res);
            ensure!(got.calls.len() == k + 1, "{}\ninput {:?}: call {} failed, but {} calls were made", g.show(), w, k, got.calls.len());
            ensure!(got.pulled <= free.calls[k].pulled && got.pulled == got.calls[k].pulled, "{}\ninput {:?}: call {} failed after {} tokens, but {} were read", g.show(), w, k, free.calls[k].pulled, got.pulled);
            if k + 1 < free.calls.len() {
                ctx.nontrivial = true;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut found = None;
    for _ in 0..8 {
        let (g, lr) = lr1(src, CAP);
        if g.productive().iter().all(|p| *p) {
            found = Some((g, lr));
            break;
        }
    }
    let Some((g, lr)) = found else { return Ok(()) };
    ctx.desc = g.show();
    note(ctx, &g, &lr);
    let s = written(&g, src, ctx)?;
    let mut deep = 0;
    for w in inputs(&g, 24, src) {
        ctx.evals += 1;
        let e = earley(&g, &w);
        let got = s.run(&w, None)?;
        ensure!(s.asked_again() == 0, "{}\ninput {:?}: the source was asked again after it had ended", g.show(), w);
        let (want, _) = drive(&g, &lr, &w, None, 10_000 + 100 * w.len());
        let Some(want) = want else { return Err(format!("{}\ninput {:?}: reference did not end", g.show(), w)) };
        if let Some(k) = e.dead {
            ensure!(got.res == Res::NoRecovery, "{}\ninput {:?} cannot continue at token {}, but parsing gives {:?}", g.show(), w, k, got.res);
            ensure!(got.pulled == k + 1, "{}\ninput {:?}: token {} is the first impossible one, but {} tokens were read", g.show(), w, k, got.pulled);
            // the calls are those made for the viable part only
            for (i, c) in got.calls.iter().enumerate() {
                ensure!(c.pulled <= k, "{}\ninput {:?}: token {} is impossible, but call #{} (rule {}) was made after reading it", g.show(), w, k, i, c.rule);
            }
            deep = deep.max(k);
            ctx.label("impossible token");
            // the same from a source that never ends
            if src.chance(1, 4) {
                let endless = (0usize..).map(|id| {
                    assert!(id < w.len() + 1000, "the parser goes on reading an endless source");
                    Tok2 { kind: s.tmap[w[id.min(w.len() - 1)] as usize], id }
                });
                let got2 = s.run_tokens(endless)?;
                ensure!(got2 == got, "{}\ninput {:?}, the last token repeated for ever: {:?} differs from that of the finite input, {:?}", g.show(), w, got2, got);
                ctx.label("from a source without end");
            }
        } else if !e.accepts {
            ensure!(got.res == Res::NoRecovery && got.pulled == w.len(), "{}\ninput {:?} ends too early: result {:?} after {} tokens", g.show(), w, got.res, got.pulled);
            ctx.label("premature end");
        }
        // reading on demand: never ahead of the canonical parser, which holds one token of lookahead
        for (i, c) in got.calls.iter().enumerate() {
            let Some(r) = want.calls.get(i) else { break };
            ensure!(c.pulled <= r.pulled, "{}\ninput {:?}: call #{} should run after {} tokens, {} were read", g.show(), w, i, r.pulled, c.pulled);
        }
        ensure!(got.calls.len() <= want.calls.len() || e.accepts, "{}\ninput {:?}: {} reducer calls before the error, the viable prefix justifies {}", g.show(), w, got.calls.len(), want.calls.len());
    }
    ctx.nontrivial = deep >= 2;
    Ok(())
}

// ---------------------------------------------------------------- C16

fn c16(src: &mut Src, ctx: &mut Ctx) -> R {
    let Some((g, ge, map, lr)) = lr1_errors(src, CAP) else { return Ok(()) };
    ctx.desc = ge.show();
    note(ctx, &ge, &lr);
    let a = make(&g, &Route::plain(&g))?;
    let b = written(&ge, src, ctx)?;
    let sent = Sentences::new(&g);
    for _ in 0..20 {
        let budget = [6, 12, 24, 60][src.n(4)];
        let Some(w) = sent.one(budget, src) else { break };
        if !ends(&ge, &lr, &w) {
            ctx.excluded += 1;
            continue;
        }
        ctx.evals += 1;
        let x = a.run(&w, None)?;
        let mut y = b.run(&w, None)?;
        for c in y.calls.iter_mut() {
            match map.get(c.rule) {
                Some(Some(r)) => c.rule = *r,
                _ => return Err(format!("{}\ninput {:?} is a sentence without errors, but the error alternative {} was used", ge.show(), w, c.rule)),
            }
        }
        ensure!(matches!(x.res, Res::Ok(_)), "{}\ninput {:?} is a sentence, but parsing gives {:?}", g.show(), w, x.res);
        ensure!(same_values(&x, &y) && x.pulled == y.pulled, "{}\ninput {:?}\nwithout error alternatives {}\nwith them                  {}", ge.show(), w, show_out(&x), show_out(&y));
        // an error alternative was within reach
        ctx.nontrivial |= w.len() >= 2 && lr.error_rules.iter().filter(|e| !e.is_empty()).count() >= 1;
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn c17(src: &mut Src, ctx: &mut Ctx) -> R {
    let Some((_, g, _, lr)) = lr1_errors(src, CAP) else { return Ok(()) };
    ctx.desc = g.show();
    note(ctx, &g, &lr);
    let s = written(&g, src, ctx)?;
    for w in inputs(&g, 40, src) {
        let (want, tr) = drive(&g, &lr, &w, None, STEPS);
        let Some(want) = want else {
            ctx.label("recovery re-parses for more than 40000 steps, input left out");
            continue;
        };
        let want = normal(want);
        ctx.evals += 1;
        let got = s.run(&w, None)?;
        ensure!(same_values(&got, &want), "{}\ninput {:?}\nexpected {}\ngot      {}", g.show(), w, show_out(&want), show_out(&got));
        ensure!(got.pulled <= want.pulled, "{}\ninput {:?}: {} tokens read where {} are needed", g.show(), w, got.pulled, want.pulled);
        if matches!(got.res, Res::Ok(_)) {
            let o = fix_positions(&got, w.len());
            check_derivation(&g, &w, &o, true).map_err(|e| format!("{}\ninput {:?}: {}\n{}", g.show(), w, e, show_out(&got)))?;
        }
        if tr.recoveries > 0 {
            ctx.label("recovery attempted");
            if matches!(got.res, Res::Ok(_)) {
                ctx.label("recovered to a value");
                ctx.nontrivial = true;
            } else {
                ctx.label("no way to recover");
            }
        }
        if tr.backtracks > 0 && matches!(got.res, Res::Ok(_)) {
            ctx.label("constructs abandoned, then a value");
        }
        if tr.discards > 1 {
            ctx.label("several tokens discarded");
        }
        if tr.continued > 0 {
            ctx.label("unfinished recovery resumed");
        }
        if tr.at_end > 0 {
            ctx.label("error at the end of input");
            if matches!(got.res, Res::Ok(_)) {
                ctx.label("recovered at the end of input");
            }
        }
    }
    Ok(())
}

fn fix_positions(o: &Out, len: usize) -> Out {
    let mut o = o.clone();
    for c in o.calls.iter_mut() {
        for ch in c.children.iter_mut() {
            if *ch == Child::E(usize::MAX, usize::MAX) {
                *ch = Child::E(len, len);
            }
        }
    }
    o
}

// ---------------------------------------------------------------- C18

/// VH_EXPLORE=1 (not part of any check): look for inputs on which the recovery policy itself never ends.
fn explore() -> bool {
    static E: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *E.get_or_init(|| std::env::var_os("VH_EXPLORE").is_some())
}

fn c18(src: &mut Src, ctx: &mut Ctx) -> R {
    // any grammar must build; conflict-free ones must also parse everything
    let mut g = grammar(src);
    for _ in 0..src.weighted(&[1, 4, 3, 1]) {
        g = add_errors(&g, src).0;
    }
    let Some(lr) = Lr::new(&g, CAP) else { return Ok(()) };
    ctx.desc = g.show();
    note(ctx, &g, &lr);
    let s = written(&g, src, ctx)?;
    ctx.evals += 1;
    if !lr.conflict_free {
        ctx.label("construction only (conflicts)");
        return Ok(());
    }
    let mut ins = inputs(&g, 24, src);
    if src.chance(1, 60) {
        ctx.label("long random input");
        let n = src.range(200, 1500);
        ins.push((0..n).map(|_| src.n(g.nt.max(1)) as u16).collect());
        if let Some(mut w) = Sentences::new(&g).one(2000, src) {
            damage(&mut w, g.nt, src);
            ins.push(w);
        }
    }
    for w in ins {
        match drive(&g, &lr, &w, None, STEPS) {
            (Some(_), tr) => {
                if tr.recoveries > 0 {
                    ctx.label("recovery attempted");
                }
            }
            (None, _) => {
                ctx.label("recovery re-parses for more than 40000 steps, input left out");
                if explore() && w.len() <= 24 && drive(&g, &lr, &w, None, 8_000_000).0.is_none() {
                    return Err(format!("{}\ninput {:?}: the model does not end in 8,000,000 steps", g.show(), w));
                }
                continue;
            }
        }
        ctx.evals += 1;
        ctx.max("longest input", w.len() as u64);
        let o = s.run(&w, None).map_err(|e| format!("{}\ninput {:?}: {}", g.show(), w, e))?;
        ensure!(!matches!(o.res, Res::Reducer(_)), "{}\ninput {:?}: a reducer error out of nowhere", g.show(), w);
    }
    ctx.label(if g.has_error() { "conflict-free with error alternatives" } else { "conflict-free" });
    ctx.nontrivial = g.has_error() && lr.states() >= 4;
    Ok(())
}

// ---------------------------------------------------------------- C19

fn c19(src: &mut Src, ctx: &mut Ctx) -> R {
    let (g, lr) = match src.n(3) {
        0 => lr1(src, CAP),
        1 => match lr1_errors(src, CAP) {
            Some((_, g, _, lr)) => (g, lr),
            None => lr1(src, CAP),
        },
        _ => {
            let g = grammar(src);
            match Lr::new(&g, CAP) {
                Some(lr) => (g, lr),
                None => return Ok(()),
            }
        }
    };
    ctx.desc = g.show();
    note(ctx, &g, &lr);
    let mut ins = inputs(&g, 12, src);
    ins.retain(|w| drive(&g, &lr, w, None, STEPS).0.is_some());
    if ins.is_empty() {
        return Ok(());
    }
    let a = make(&g, &Route::plain(&g))?;
    let mut refs = Vec::new();
    for w in &ins {
        refs.push(a.run(w, None)?);
    }
    // reuse, in another order, with failing parses in between
    for _ in 0..ins.len() {
        let k = src.n(ins.len());
        ctx.evals += 1;
        if src.chance(1, 4) && !refs[k].calls.is_empty() {
            let f = src.n(refs[k].calls.len());
            a.run(&ins[k], Some(f))?;
        }
        let o = a.run(&ins[k], None)?;
        ensure!(o == refs[k], "{}\ninput {:?}: parsed again, the result changes\nfrom {}\nto   {}", g.show(), ins[k], show_out(&refs[k]), show_out(&o));
    }
    // very many parses with one parser
    if src.chance(1, 150) {
        ctx.label("hundreds of parses with one parser");
        let n = vh::dict::size(4000, src).map_or(400, |n| n.max(400));
        for i in 0..n {
            let k = i % ins.len();
            if ins[k].len() > 60 {
                continue;
            }
            ctx.evals += 1;
            let o = a.run(&ins[k], None)?;
            ensure!(o == refs[k], "{}\ninput {:?}: parsed again for the {}th time, the result changes\nfrom {}\nto   {}", g.show(), ins[k], i / ins.len() + 2, show_out(&refs[k]), show_out(&o));
        }
    }
    // one parse in the middle of another
    for _ in 0..3 {
        let (k, l) = (src.n(ins.len()), src.n(ins.len()));
        let at = src.n(ins[k].len() + 1);
        ctx.evals += 1;
        let (o, i) = a.run_around(&ins[k], at, &ins[l])?;
        ensure!(o == refs[k], "{}\ninput {:?}: with {:?} parsed before its token {}, the result changes\nfrom {}\nto   {}", g.show(), ins[k], ins[l], at, show_out(&refs[k]), show_out(&o));
        if let Some(i) = i {
            ctx.label("a parse within a parse");
            let i = i?;
            ensure!(i == refs[l], "{}\ninput {:?}: parsed while {:?} is being parsed (before its token {}), the result changes\nfrom {}\nto   {}", g.show(), ins[l], ins[k], at, show_out(&refs[l]), show_out(&i));
        }
    }
    // other ways of writing the same grammar
    for _ in 0..2 {
        let mut r = Route::plain(&g);
        r.kind = (0..src.range(1, 4)).map(|_| src.n(3) as u8).collect();
        r.by_from = src.chance(1, 3);
        r.build_raw = src.chance(1, 2);
        r.salt = src.below(1 << 40) as usize;
        let renumber = src.chance(2, 3);
        if renumber {
            ctx.label("renumbered");
            r.nmap = distinct(g.nn, src);
            r.tmap = distinct(g.nt + 2, src);
        }
        if r.by_from {
            ctx.label("by conversion");
        }
        let b = make(&g, &r)?;
        if !r.by_from {
            ensure!(a.warnings.is_empty() == b.warnings.is_empty(), "{}\nwritten another way ({:?}) the warnings change from {} to {}", g.show(), r, a.warnings.len(), b.warnings.len());
        }
        for (w, x) in ins.iter().zip(&refs) {
            ctx.evals += 1;
            let y = b.run(w, None)?;
            ensure!(*x == y, "{}\ninput {:?}: written another way ({:?}) the result changes\nfrom {}\nto   {}", g.show(), w, r, show_out(x), show_out(&y));
        }
    }
    ctx.nontrivial = lr.states() >= 4 && refs.iter().any(|r| r.calls.len() >= 2);
    Ok(())
}

// ---------------------------------------------------------------- C25

fn rule_of(l: u16, r: &[S], kind: u8, route: &Route, src: &mut Src) -> Rule<Val2, Tok2, Boom> {
    let ret = src.n(3);
    let f = move |_: &mut [Symbol<&mut Val2, &Tok2, &[Tok2]>]| if ret == 0 { Err(Boom(1)) } else { Ok(Val2 { kind: 0, call: ret }) };
    let n = |x: u16, src: &mut Src| Val2 { kind: route.nmap[x as usize], call: src.n(1000) };
    let t = |x: u16, src: &mut Src| Tok2 { kind: route.tmap[x as usize], id: src.n(1000) };
    match kind {
        0 => {
            let ex: Vec<Symbol<Val2, Tok2, ()>> = r
                .iter()
                .map(|s| match s {
                    S::N(x) => Symbol::NonTerminal(n(*x, src)),
                    S::T(x) => Symbol::Terminal(t(*x, src)),
                    S::E => Symbol::Error(()),
                })
                .collect();
            Rule::new(n(l, src), &ex, f)
        }
        1 => {
            let mut b = Rule::<Val2, Tok2, Boom>::builder(n(l, src));
            for s in r {
                b = match s {
                    S::N(x) => b.non_terminal(n(*x, src)),
                    S::T(x) => b.terminal(t(*x, src)),
                    S::E => b.error(),
                };
            }
            b.build(f)
        }
        _ => {
            let ex: Vec<Symbol<usize, usize, ()>> = r
                .iter()
                .map(|s| match s {
                    S::N(x) => Symbol::NonTerminal(route.nmap[*x as usize]),
                    S::T(x) => Symbol::Terminal(route.tmap[*x as usize]),
                    S::E => Symbol::Error(()),
                })
                .collect();
            Rule::new_raw(route.nmap[l as usize], &ex, f)
        }
    }
}

fn hash_of<X: Hash>(x: &X) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn c25(src: &mut Src, ctx: &mut Ctx) -> R {
    let g = grammar(src);
    let g = if src.chance(1, 2) { add_errors(&g, src).0 } else { g };
    let mut route = Route::plain(&g);
    if src.chance(1, 2) {
        route.nmap = distinct(g.nn, src);
        route.tmap = distinct(g.nt + 2, src);
    }
    // productions of the grammar, again, and changed in one place
    let n = src.range(2, 12);
    let mut ps: Vec<(u16, Vec<S>)> = Vec::new();
    while ps.len() < n {
        let from = if !ps.is_empty() && src.chance(2, 3) { ps[src.n(ps.len())].clone() } else { g.rules[src.n(g.rules.len())].clone() };
        let (mut l, mut r) = from;
        r.truncate(40);
        match src.n(7) {
            0 => l = src.n(g.nn) as u16,
            1 if !r.is_empty() => {
                r.pop();
            }
            2 => r.push(S::T(src.n(g.nt) as u16)),
            3 if !r.is_empty() => {
                let k = src.n(r.len());
                r[k] = match src.n(3) {
                    0 => S::N(src.n(g.nn) as u16),
                    1 => S::T(src.n(g.nt) as u16),
                    _ => S::E,
                };
            }
            4 if r.len() > 1 => {
                let k = src.n(r.len() - 1);
                r.swap(k, k + 1);
            }
            5 => {
                let k = src.n(r.len() + 1);
                r.insert(k, S::E);
            }
            _ => {}
        }
        ps.push((l, r));
    }
    ctx.desc = format!("productions {:?}{}", ps, route.show());
    let kinds: Vec<u8> = (0..n).map(|_| src.n(3) as u8).collect();
    let rules: Vec<Rule<Val2, Tok2, Boom>> = ps.iter().zip(&kinds).map(|((l, r), k)| sut(|| rule_of(*l, r, *k, &route, src))).collect::<Result<_, _>>()?;
    let mut less = vec![vec![false; n]; n];
    for i in 0..n {
        for j in 0..n {
            ctx.evals += 1;
            let (a, b) = (&rules[i], &rules[j]);
            let same = ps[i] == ps[j];
            let what = || format!("rules {:?} and {:?} (written by route {} and {})", ps[i], ps[j], kinds[i], kinds[j]);
            let (eq, ne, ord, part, ha, hb) = sut(|| (a == b, a != b, a.cmp(b), a.partial_cmp(b), hash_of(a), hash_of(b)))?;
            ensure!(eq == same && ne != same, "{}: == says {}", what(), eq);
            ensure!((ord == Ordering::Equal) == same, "{}: compare {:?}", what(), ord);
            ensure!(part == Some(ord), "{}: cmp gives {:?}, partial_cmp {:?}", what(), ord, part);
            ensure!(b.cmp(a) == ord.reverse(), "{}: compare {:?}, and the other way round {:?}", what(), ord, b.cmp(a));
            ensure!(!same || ha == hb, "{}: equal, with different hashes", what());
            less[i][j] = ord == Ordering::Less;
        }
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                ensure!(!(less[i][j] && less[j][k]) || less[i][k], "not transitive: {:?} < {:?} < {:?}", ps[i], ps[j], ps[k]);
            }
        }
    }
    let distinct_rules = ps.iter().collect::<std::collections::HashSet<_>>().len();
    ensure!(rules.iter().collect::<std::collections::HashSet<_>>().len() == distinct_rules, "a hash set of the rules does not hold {} of them", distinct_rules);
    ensure!(rules.iter().collect::<std::collections::BTreeSet<_>>().len() == distinct_rules, "an ordered set of the rules does not hold {} of them", distinct_rules);
    // syntaxes: the same rules in the same order and the same start
    let start = ps[0].0;
    let make = |ps: &[(u16, Vec<S>)], start: u16, src: &mut Src| {
        let mut b = Syntax::<Val2, Tok2, Boom>::builder();
        for (l, r) in ps {
            let k = src.n(3) as u8;
            b = b.rule(rule_of(*l, r, k, &route, src));
        }
        if src.chance(1, 2) {
            b.build_raw(route.nmap[start as usize])
        } else {
            b.build(Val2 { kind: route.nmap[start as usize], call: src.n(1000) })
        }
    };
    let a = make(&ps, start, src);
    let mut other = ps.clone();
    let mut other_start = start;
    match src.n(4) {
        0 => other.swap(0, n - 1),
        1 => {
            other.pop();
        }
        2 => other_start = src.n(g.nn) as u16,
        _ => {}
    }
    let b = make(&other, other_start, src);
    let same = ps == other && start == other_start;
    let (eq, rev) = sut(|| (a == b, b == a))?;
    ensure!(eq == same && rev == same, "syntaxes of {:?} from N{} and {:?} from N{}: == says {} and {}", ps, start, other, other_start, eq, rev);
    let back = sut(|| a.into_rules())?;
    ensure!(back.len() == n && back.iter().zip(&rules).all(|(x, y)| x == y), "into_rules of {:?} gives {:?}", ps, back);
    if same {
        ctx.label("equal syntaxes");
    }
    ctx.nontrivial = distinct_rules < n && distinct_rules > 1;
    Ok(())
}

const TRUST: &[&str] = &["grammars whose non-terminals all have productions; canonical automata of at most 9000 items", "at most 120 terminal kinds and 60 non-terminals, now and then 400 and 200"];

fn main() {
    let props = [
        Prop { id: "C10", rule: "A random conflict-free grammar (random, LL-style, expression ladders, statement lists, LR(1)-not-LALR(1) families, nullable and unit chains, wide ones, compositions, mutations; rules in any order) and about 25-70 inputs: all short strings, sentences, damaged sentences, random strings, tokens of kinds the grammar does not know; membership decided by an Earley recogniser. Non-trivial: at least 5 LR states, two sentences and a non-sentence.", assumptions: TRUST, quick: 100000, thorough: 2500000, run: c10 },
        Prop { id: "C11", rule: "Conflict-free grammars as in C10 and 16 sentences each; every reducer logs what it was given; the log must be the post-order, left-to-right traversal of a derivation tree of the start symbol whose leaves are the input. Non-trivial: at least 4 reducer calls.", assumptions: TRUST, quick: 100000, thorough: 2500000, run: c11 },
        Prop { id: "C12", rule: "Any random grammar (a quarter with error alternatives) against an independent canonical LR(1) construction with complete conflict sets. Non-trivial: at least 4 LR states.", assumptions: TRUST, quick: 100000, thorough: 2500000, run: c12 },
        Prop { id: "C13", rule: "Grammars with conflicts and about 25-70 inputs each, against the canonical LR(1) automaton with conflicts resolved to shift, accept, earliest rule; inputs on which such a grammar loops are left out. Non-trivial: a conflict was resolved during some parse.", assumptions: TRUST, quick: 70000, thorough: 1750000, run: c13 },
        Prop { id: "C14", rule: "Conflict-free grammars, a third with error alternatives; each input is parsed without failure and with the k-th reducer call failing for 3 random k. Non-trivial: a failure before the last call.", assumptions: TRUST, quick: 100000, thorough: 2500000, run: c14 },
        Prop { id: "C15", rule: "Conflict-free grammars whose symbols are all productive; the first impossible token is found by the Earley recogniser, the calls justified before it by the reference automaton. Non-trivial: an impossible token after at least two possible ones.", assumptions: TRUST, quick: 100000, thorough: 2500000, run: c15 },
        Prop { id: "C16", rule: "A conflict-free grammar and the same with 1-3 error alternatives inserted anywhere (still conflict-free); 20 sentences parsed by both. Non-trivial: a sentence of two tokens or more and a state where an error alternative is possible.", assumptions: TRUST, quick: 80000, thorough: 2000000, run: c16 },
        Prop { id: "C17", rule: "Conflict-free grammars with 1-3 error alternatives of 11 shapes and 40-120 inputs, most of them damaged sentences; the complete log of reducer calls (rules, tokens, error slices, order) and the result compared with a reference model of the recovery policy. Non-trivial: a recovery that led to a value.", assumptions: TRUST, quick: 100000, thorough: 2500000, run: c17 },
        Prop { id: "C18", rule: "Random grammars with up to 9 error alternatives: construction must return for all, and for conflict-free ones every input (damaged sentences, random and empty strings, long random ones) must be parsed to a value or error without panic, within 25 s of CPU and 1 GiB. Non-trivial: conflict-free, has error alternatives, at least 4 LR states.", assumptions: TRUST, quick: 70000, thorough: 1750000, run: c18 },
        Prop { id: "C19", rule: "Grammars of all kinds (conflict-free, with error alternatives, with conflicts): repeated parses with one parser (now and then hundreds), interleaved with failing ones and one within another, and parsers written through the other construction routes with other example payloads and injectively renumbered kinds (dense, sparse, huge), on 12-40 inputs. Non-trivial: at least 4 LR states and an input with two reducer calls.", assumptions: TRUST, quick: 50000, thorough: 1250000, run: c19 },
        Prop { id: "C25", rule: "2-12 productions of a random grammar, repeated and changed in one place, written by random routes with random payloads and reducers; all pairs and triples compared, hashed and put into sets, and syntaxes of them compared. Non-trivial: some equal and some different rules.", assumptions: &["right-hand sides of at most 46 symbols"], quick: 500000, thorough: 10000000, run: c25 },
    ];
    vh::cli::main(&props, vh::known::known)
}
