//! C08, C23, C27: the public tables of built tokenizers and parsers, and the keys in them.
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use parser::{Action, Symbol, TerminalSymbol};
use tokenizer::CharRange;
use vh::engine::{sut, CountingAlloc, Ctx, Prop, Src};
use vh::re::{self, Dfa};
use vh::gram::{self, add_errors, grammar, make, Lr, Route};
use vh::sut::build_ok;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

fn c08(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let fan = src.chance(1, 12);
    let mut cap = 260;
    let pats = if fan {
        ctx.label("ranges that share their start");
        let p = re::fan(src);
        let h = re::parse(&p).unwrap();
        vec![(p, h)]
    } else if src.chance(1, 80) {
        ctx.label("large in one direction");
        cap = 2000;
        re::scaled(src)
    } else if let Some(v) = src.chance(1, 60).then(|| re::sized(src)).flatten() {
        ctx.label("as large as a number of the code");
        cap = 2000;
        v
    } else if src.chance(1, 12) {
        ctx.label("empty sub-expressions");
        let th = re::theme(src);
        let mut g = re::Gen::new(th, false, true);
        (0..src.range(1, 3)).map(|_| g.good(40, src)).collect()
    } else {
        let fancy = src.chance(1, 4);
        re::pattern_list(src, 16, fancy)
    };
    let (mut p, mut h): (Vec<_>, Vec<_>) = pats.into_iter().unzip();
    while Dfa::new(&h, true, cap).is_none() {
        p.pop();
        h.pop();
    }
    if src.chance(1, 60) {
        p.clear();
        ctx.label("no patterns");
    }
    ctx.desc = format!("patterns {:?}", p);
    for round in 0..if fan { 3 } else { 1 } {
        ctx.evals += 1;
        let (tk, _) = build_ok::<char, _>(&p)?;
        let n = tk.goto.len();
        ctx.max("states", n as u64);
        ensure!(tk.begin < n, "patterns {:?}: start state {} of {} states", p, tk.begin, n);
        for (s, e) in &tk.end {
            ensure!(*s < n, "patterns {:?}: accepting state {} of {} states", p, s, n);
            ensure!(*e < p.len(), "patterns {:?}: state {} accepts pattern {} of {}", p, s, e, p.len());
        }
        let mut cuts = BTreeSet::new();
        for (s, m) in tk.goto.iter().enumerate() {
            let mut last = 0;
            for (r, t) in m {
                let r = &r.range;
                ensure!(r.start < r.end && r.end <= 0x110000, "patterns {:?}: state {} has the range {:?}", p, s, r);
                ensure!(r.start >= last, "patterns {:?}: ranges of state {} overlap or are out of order at {:?}", p, s, r);
                ensure!(*t < n, "patterns {:?}: state {} leads to {} of {} states", p, s, t, n);
                last = r.end;
                cuts.insert(r.start);
                cuts.insert(r.end);
            }
        }
        // every state is reachable
        let mut seen = vec![false; n];
        let mut q = vec![tk.begin];
        while let Some(s) = q.pop() {
            if !std::mem::replace(&mut seen[s], true) {
                q.extend(tk.goto[s].values());
            }
        }
        if let Some(s) = seen.iter().position(|x| !x) {
            return Err(format!("patterns {:?}: state {} cannot be reached", p, s));
        }
        // no two states are equivalent: Moore refinement, ranges coalesced by block
        let mut block: Vec<usize> = (0..n).map(|s| tk.end.get(&s).map_or(0, |e| e + 1)).collect();
        let mut count = block.iter().collect::<BTreeSet<_>>().len();
        loop {
            let mut ids: HashMap<(usize, Vec<(u32, u32, usize)>), usize> = HashMap::new();
            let mut next = Vec::with_capacity(n);
            for s in 0..n {
                let mut runs: Vec<(u32, u32, usize)> = Vec::new();
                for (r, t) in &tk.goto[s] {
                    match runs.last_mut() {
                        Some(l) if l.1 == r.range.start && l.2 == block[*t] => l.1 = r.range.end,
                        _ => runs.push((r.range.start, r.range.end, block[*t])),
                    }
                }
                let k = ids.len();
                next.push(*ids.entry((block[s], runs)).or_insert(k));
            }
            block = next;
            if ids.len() == count {
                break;
            }
            count = ids.len();
        }
        if count != n {
            let (a, b) = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).find(|(a, b)| block[*a] == block[*b]).unwrap();
            return Err(format!("patterns {:?} (build {}): states {} and {} behave identically; {} states where {} do", p, round, a, b, n, count));
        }
        // no state that can never lead to a token
        if n >= 3 {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

fn c23(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut g = grammar(src);
    if src.chance(1, 2) {
        g = add_errors(&g, src).0;
    }
    let Some(lr) = Lr::new(&g, 9000) else {
        ctx.label("automaton over the size bound, skipped");
        return Ok(());
    };
    let r = Route::any(&g, false, src);
    ctx.desc = format!("{}{}", g.show(), r.show());
    let sut = make(&g, &r)?;
    let t = &sut.parser;
    let n = g.rules.len();
    let mut nt_of: HashMap<usize, usize> = HashMap::new();
    for (i, k) in r.tmap.iter().enumerate() {
        nt_of.insert(*k, i);
    }
    let no_row = Default::default();
    let no_rules = Default::default();
    // corresponding states, from the start on
    let mut pairs: BTreeSet<(usize, u32)> = BTreeSet::new();
    let mut reached: BTreeSet<usize> = BTreeSet::new();
    let mut q = vec![(t.start, 0u32)];
    let mut conflicts = false;
    while let Some((a, b)) = q.pop() {
        if !pairs.insert((a, b)) {
            continue;
        }
        reached.insert(a);
        ctx.evals += 1;
        let Some(row) = t.action_table.get(&a) else { return Err(format!("{}\nstate {} is led to but has no actions", g.show(), a)) };
        for k in row.keys() {
            if let TerminalSymbol::Symbol(s) = k {
                ensure!(nt_of.get(s).map_or(false, |i| *i < g.nt), "{}\nstate {} has an action on the terminal {}, which the grammar does not have", g.show(), a, s);
            }
        }
        for i in 0..g.nt + 2 {
            let key = if i < g.nt {
                TerminalSymbol::Symbol(r.tmap[i])
            } else if i == g.nt {
                TerminalSymbol::Error(())
            } else {
                TerminalSymbol::EOI
            };
            let c = &lr.action[b as usize][i];
            conflicts |= c.shift.is_some() as usize + c.accept as usize + c.reduce.len() > 1;
            let got = row.get(&key);
            if let Some(Action::Reduce(k)) = got {
                ensure!(*k < n, "{}\nstate {} reduces by production {} of {}", g.show(), a, k, n);
            }
            let ok = match (got, c.shift, c.accept, c.reduce.first()) {
                (Some(Action::Shift(to)), Some(want), _, _) => {
                    q.push((*to, want));
                    true
                }
                (Some(Action::Accept), None, true, _) => true,
                (Some(Action::Reduce(k)), None, false, Some(want)) => *k == *want as usize,
                (None, None, false, None) => true,
                _ => false,
            };
            ensure!(ok, "{}\nstate {} on {:?} does {:?}; the canonical automaton has {:?} there", g.show(), a, key, got, c);
        }
        let row = t.goto_table.get(&a).unwrap_or(&no_row);
        for (i, want) in &lr.goto[b as usize] {
            let Some(to) = row.get(&r.nmap[*i as usize]) else { return Err(format!("{}\nstate {} does not know where to go after N{}", g.show(), a, i)) };
            q.push((*to, *want));
        }
        ensure!(row.len() == lr.goto[b as usize].len(), "{}\nstate {} goes on after {} non-terminals instead of {}", g.show(), a, row.len(), lr.goto[b as usize].len());
        let er: BTreeSet<u32> = t.error_rules.get(&a).unwrap_or(&no_rules).iter().map(|x| *x as u32).collect();
        ensure!(er == lr.error_rules[b as usize], "{}\nstate {}: error alternatives {:?} where {:?} are possible", g.show(), a, er, lr.error_rules[b as usize]);
    }
    for s in t.action_table.keys().chain(t.goto_table.keys()).chain(t.error_rules.keys()) {
        ensure!(reached.contains(s), "{}\nstate {} cannot be reached", g.show(), s);
    }
    ctx.max("states", reached.len() as u64);
    if conflicts {
        ctx.label("with conflicts");
    }
    if g.has_error() {
        ctx.label("with error alternatives");
    }
    ctx.nontrivial = reached.len() >= 5;
    Ok(())
}

// ---------------------------------------------------------------- C27

fn hash_of<X: Hash + ?Sized>(x: &X) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Equality, order and hash of these values fit together.
fn lawful<X: Ord + Hash + std::fmt::Debug>(v: &[X]) -> Result<(), String> {
    for a in v {
        ensure!(a == a && a.cmp(a) == Ordering::Equal, "{:?} differs from itself", a);
        for b in v {
            ensure!((a == b) == (b == a), "{:?} and {:?} are equal one way only", a, b);
            ensure!((a == b) != (a != b), "{:?} and {:?} are both equal and different", a, b);
            ensure!((a == b) == (a.cmp(b) == Ordering::Equal), "{:?} and {:?}: equality is {}, the order says {:?}", a, b, a == b, a.cmp(b));
            ensure!(a.cmp(b) == b.cmp(a).reverse(), "{:?} and {:?}: {:?} one way, {:?} the other", a, b, a.cmp(b), b.cmp(a));
            ensure!(a.partial_cmp(b) == Some(a.cmp(b)), "{:?} and {:?}: cmp {:?}, partial_cmp {:?}", a, b, a.cmp(b), a.partial_cmp(b));
            ensure!(a != b || hash_of(a) == hash_of(b), "{:?} and {:?} are equal, their hashes are not", a, b);
            for c in v {
                ensure!(a.cmp(b) != b.cmp(c) || a.cmp(c) == a.cmp(b), "{:?}, {:?}, {:?}: the order is not transitive", a, b, c);
            }
        }
    }
    let ordered: BTreeSet<&X> = v.iter().collect();
    let hashed: std::collections::HashSet<&X> = v.iter().collect();
    ensure!(ordered.len() == hashed.len(), "{:?}: {} different by order, {} by hash", v, ordered.len(), hashed.len());
    Ok(())
}

/// A clone is the value it was made from.
fn cloned<X: Ord + Hash + Clone + std::fmt::Debug>(v: &[X]) -> Result<(), String> {
    for a in v {
        let b = a.clone();
        ensure!(*a == b && a.cmp(&b) == Ordering::Equal && hash_of(a) == hash_of(&b), "{:?} and its clone differ", a);
    }
    lawful(v)
}

fn c27(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    ctx.evals += 1;
    match src.n(3) {
        0 => {
            // ranges, many of them touching or sharing an end
            let mut pool: Vec<u32> = vec![0, 0x61, 0x62, 0x63, 0xD800, 0xE000, 0x10FFFF, 0x110000];
            for _ in 0..3 {
                pool.push(src.below(0x110001) as u32);
            }
            let v: Vec<CharRange> = (0..src.range(2, 9))
                .map(|_| {
                    let (a, b) = (*src.pick(&pool), *src.pick(&pool));
                    let (a, b) = (a.min(b), a.max(b));
                    CharRange { range: a.min(0x10FFFF)..b.max(a.min(0x10FFFF) + 1) }
                })
                .collect();
            ctx.desc = format!("ranges {:?}", v.iter().map(|r| &r.range).collect::<Vec<_>>());
            sut(|| cloned(&v))??;
            // a key borrowed as a number behaves as that number
            for a in &v {
                let x: &u32 = a.borrow();
                ensure!(hash_of(a) == hash_of(x), "{:?} and the number it is borrowed as, {}, have different hashes", a, x);
                for b in &v {
                    let y: &u32 = b.borrow();
                    ensure!((a == b) == (x == y) && a.cmp(b) == x.cmp(y), "{:?} and {:?} compare unlike the numbers they are borrowed as, {} and {}", a, b, x, y);
                }
            }
            ctx.nontrivial = v.iter().any(|a| v.iter().any(|b| a.range.start == b.range.start && a.range.end != b.range.end));
            ctx.label("ranges");
        }
        1 => {
            // the rows of a real table, kept in other maps and asked by code point
            let p = re::pattern_list(src, 8, false);
            ctx.desc = format!("patterns {:?}", p.iter().map(|p| &p.0).collect::<Vec<_>>());
            let (tk, _) = build_ok::<char, _>(&p.iter().map(|p| p.0.clone()).collect::<Vec<_>>())?;
            for (s, row) in tk.goto.iter().enumerate() {
                let mut list: Vec<(CharRange, usize)> = row.iter().map(|(k, v)| (k.clone(), *v)).collect();
                src.shuffle(&mut list);
                let tree: BTreeMap<CharRange, usize> = list.iter().cloned().collect();
                let hash: HashMap<CharRange, usize> = list.iter().cloned().collect();
                ensure!(tree.len() == row.len() && hash.len() == row.len(), "patterns {:?}: state {}: {} ranges, {} in a tree, {} in a hash map", p, s, row.len(), tree.len(), hash.len());
                for (k, to) in &list {
                    for c in [k.range.start, k.range.end - 1] {
                        let found = tree.range(..=c).next_back().filter(|(r, _)| c < r.range.end).map(|x| *x.1);
                        ensure!(found == Some(*to), "patterns {:?}: state {}: code point {} leads to {:?} instead of {}", p, s, c, found, to);
                    }
                    ensure!(hash.get(k) == Some(to) && hash.get(&k.range.start) == Some(to) && tree.get(&k.range.start) == Some(to), "patterns {:?}: state {}: {:?} is not found in a map of the same keys", p, s, k);
                }
                ctx.nontrivial |= row.len() >= 2;
            }
            ctx.label("rows of a tokenizer's table");
        }
        _ => {
            let k: Vec<usize> = gram::distinct(3, src);
            let v: Vec<TerminalSymbol<usize, ()>> = (0..src.range(2, 7)).map(|_| match src.n(5) {
                0 => TerminalSymbol::EOI,
                1 => TerminalSymbol::Error(()),
                _ => TerminalSymbol::Symbol(k[src.n(3)]),
            }).collect();
            ctx.desc = format!("{:?}", v);
            sut(|| cloned(&v))??;
            let v: Vec<Symbol<usize, usize, ()>> = (0..src.range(2, 7)).map(|_| match src.n(5) {
                0 => Symbol::Error(()),
                1 | 2 => Symbol::NonTerminal(k[src.n(3)]),
                _ => Symbol::Terminal(k[src.n(3)]),
            }).collect();
            ctx.desc = format!("{}, {:?}", ctx.desc, v);
            sut(|| cloned(&v))??;
            ctx.nontrivial = v.len() >= 3;
            ctx.label("symbols");
        }
    }
    Ok(())
}

fn main() {
    let props = [
        Prop {
            id: "C27",
            rule: "Sets of ranges that touch, overlap or share an end, symbols over a few kinds, rows of real tokenizers' tables; laws over all pairs and triples, and lookups in trees and hash maps of the same keys. Non-trivial: two ranges of equal start and different end, a row of two ranges, three symbols.",
            assumptions: &["hashes are compared under the standard library's hasher"],
            quick: 400000,
            thorough: 10000000,
            run: c27,
        },
        Prop {
            id: "C23",
            rule: "Any random grammar (half with error alternatives, conflicts included), written in any of the possible ways; its public action, goto and error tables are walked from the start state in step with the reference canonical LR(1) automaton and compared entry by entry. Non-trivial: at least 5 states.",
            assumptions: &["grammars whose non-terminals all have productions; canonical automata of at most 9000 items", "at most 120 terminal kinds and 60 non-terminals, now and then 400 and 200"],
            quick: 100000,
            thorough: 2500000,
            run: c23,
        },
        Prop {
        id: "C08",
        rule: "Pattern lists as in C02 plus families of many states whose ranges share only their start, built and their public tables examined completely: well-formedness, reachability, and minimality by partition refinement over all code points. Non-trivial: at least 3 states.",
        assumptions: &["code points are compared as numbers, surrogates included: two states that differ only on surrogates count as different", "reference automata of at most 260 states, 2000 in one case of a hundred"],
        quick: 50000,
        thorough: 400000,
        run: c08,
    }];
    vh::cli::main(&props, |_| (vec![], vec![]))
}
