//! C26: characters to tokens to values.
use std::cell::Cell;
use tokenizer::{DFATokenizer, Tokenize};
use vh::engine::{sut, CountingAlloc, Ctx, Prop, Src};
use vh::gram::*;
use vh::re::{self, Dfa};
use vh::sut::show;

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// What a pattern stands for: a terminal, or nothing (layout).
type Kind = Option<u16>;

fn c26(src: &mut Src, ctx: &mut Ctx) -> R {
    let (g, lr) = if src.chance(1, 2) {
        match lr1_errors(src, 4000) {
            Some((_, ge, _, lr)) => (ge, lr),
            None => lr1(src, 4000),
        }
    } else {
        lr1(src, 4000)
    };
    if g.productive().iter().any(|p| !p) {
        ctx.label("unproductive symbols, skipped");
        return Ok(());
    }
    // one or more patterns for every terminal
    let mut pats: Vec<(String, Kind)> = Vec::new();
    if src.chance(2, 3) {
        ctx.label("words and signs");
        for t in 0..g.nt.min(40) as u16 {
            let p = match src.n(8) {
                0 => "[0-9]+".to_string(),
                1 => "[a-z_][a-z0-9_]*".to_string(),
                2 => "\"[^\"]*\"".to_string(),
                3 => ["\\+", "\\*", "\\(", "\\)", "==", "=", "<=", "<", ";", ",", "->", "-"][src.n(12)].to_string(),
                4 => format!("{}|[A-Z]{}", ["if", "else", "let", "in", "do"][src.n(5)], t),
                _ => format!("{}{}", ["k", "if", "x", "#"][src.n(4)], t),
            };
            pats.push((p, Some(t)));
        }
        if src.chance(3, 4) {
            pats.push((src.pick(&["[ \\t\\n]+", " ", "\\s", "//[^\\n]*|[ \\n]+"]).to_string(), None));
        }
        src.shuffle(&mut pats);
    } else {
        let fancy = src.chance(1, 6);
        for (p, _) in re::pattern_list(src, 8, fancy) {
            let k = if src.chance(1, 6) { None } else { Some(src.n(g.nt) as u16) };
            pats.push((p, k));
        }
    }
    if src.chance(1, 12) {
        // a kind the grammar does not know
        let at = src.n(pats.len() + 1);
        pats.insert(at, ("[a-z]".into(), Some(g.nt as u16)));
    }
    pats.truncate(24);
    let mut hirs = Vec::new();
    let mut d = None;
    while !pats.is_empty() {
        hirs = pats.iter().map(|p| re::parse(&p.0).unwrap()).collect::<Vec<_>>();
        match Dfa::new(&hirs, false, 400) {
            // a pattern that matches nothing at all gives tokens without end
            Some(x) if x.accept[0].is_empty() => {
                d = Some(x);
                break;
            }
            Some(x) => {
                pats.remove(x.accept[0][0] as usize);
            }
            None => {
                pats.pop();
            }
        }
    }
    let Some(d) = d else { return Ok(()) };
    let kinds: Vec<Kind> = pats.iter().map(|p| p.1).collect();
    ctx.desc = format!("{}\npatterns {:?}", g.show(), pats);
    ctx.max("states of the canonical automaton", lr.states() as u64);
    ctx.max("patterns", pats.len() as u64);

    let route = Route::any(&g, false, src);
    ctx.desc.push_str(&route.show());
    let sut_parser = make(&g, &route)?;
    let build = || {
        sut(|| {
            let mut b = DFATokenizer::<(String, usize), char>::builder();
            for (i, (p, _)) in pats.iter().enumerate() {
                b = b.pattern(p, move |s: &str, _| (s.to_string(), i));
            }
            b.build().map(|x| x.0).map_err(|e| format!("{:?}", e))
        })?
    };
    let tk = build()?;

    let by_kind = |k: u16| (0..pats.len()).filter(|i| kinds[*i] == Some(k)).collect::<Vec<_>>();
    let skips: Vec<usize> = (0..pats.len()).filter(|i| kinds[*i].is_none()).collect();
    let n = src.range(3, 12);
    let ins = inputs(&g, n, src);
    let mut interesting = false;
    for w in ins.iter().take(4 * n) {
        let mut text: Vec<char> = Vec::new();
        for t in w.iter().take(60) {
            let c = by_kind(*t);
            if !c.is_empty() {
                re::sample(&hirs[*src.pick(&c)], src, &mut text);
            }
            if !skips.is_empty() && src.chance(3, 4) {
                re::sample(&hirs[*src.pick(&skips)], src, &mut text);
            }
        }
        if src.chance(1, 6) {
            let pool = ['a', '0', ' ', '\n', '?', '\u{e000}'];
            re::damage(&mut text, &pool, src);
        }
        text.truncate(400);
        // the reference: tokens up to the first place where no pattern matches
        let mut at = 0;
        let mut read = 0;
        let mut toks: Vec<(u16, String)> = Vec::new();
        let mut read_after: Vec<usize> = Vec::new();
        let mut last;
        loop {
            let (m, seen) = d.longest(&text[at..]);
            read = read.max(at + seen);
            let Some((len, p)) = m else {
                last = read;
                break;
            };
            if let Some(k) = kinds[p as usize] {
                toks.push((k, text[at..at + len].iter().collect()));
                read_after.push(read);
            }
            at += len;
        }
        last = last.max(read);
        let kinds_in: Vec<u16> = toks.iter().map(|t| t.0).collect();
        let (Some(want), _) = drive(&g, &lr, &kinds_in, None, 40_000) else {
            ctx.label("a very long recovery, skipped");
            continue;
        };
        let want = normal(want);
        ctx.evals += 1;
        let seen = Cell::new(0usize);
        let chars = || {
            seen.set(0);
            text.iter().copied().inspect(|_| seen.set(seen.get() + 1))
        };
        let texts: std::cell::RefCell<Vec<String>> = Default::default();
        let by_value = src.chance(1, 10);
        let with = src.chance(1, 3);
        let mut id = 0;
        let mut kind = |(s, p): (String, usize)| {
            let k = kinds[p]?;
            texts.borrow_mut().push(s);
            id += 1;
            Some(Tok2 { kind: route.tmap[k as usize], id: id - 1 })
        };
        let made: Box<dyn Iterator<Item = (String, usize)>> = match (by_value, with) {
            (true, true) => Box::new(chars().tokenize_with(build()?, |c: &char| *c)),
            (true, false) => Box::new(chars().tokenize(build()?)),
            (false, true) => Box::new(chars().tokenize_with(&tk, |c: &char| *c)),
            (false, false) => Box::new(chars().tokenize(&tk)),
        };
        // adaptors that change what is known of the number of tokens and no token
        let n = toks.len();
        let got = match src.n(4) {
            0 => sut_parser.run_tokens(made.fuse().filter_map(&mut kind)),
            1 => sut_parser.run_tokens(made.filter_map(&mut kind).take(n + src.n(8))),
            2 => sut_parser.run_tokens(made.take(text.len() + src.n(3)).filter_map(&mut kind)),
            _ => sut_parser.run_tokens(made.filter_map(&mut kind)),
        }
        .map_err(|e| format!("{}\ntext {}: {}", ctx.desc, show(&text), e))?;
        ensure!(got == want, "{}\ntext {} is the tokens {:?}\nparsed to {}\ninstead of {}", ctx.desc, show(&text), toks, show_out(&got), show_out(&want));
        let texts = texts.into_inner();
        ensure!(texts.len() == got.pulled && texts.iter().zip(&toks).all(|(a, b)| *a == b.1), "{}\ntext {}: the parser was given {:?} instead of {:?}", ctx.desc, show(&text), texts, toks);
        let bound = if got.pulled == toks.len() {
            last
        } else if got.pulled == 0 {
            0
        } else {
            read_after[got.pulled - 1]
        };
        ensure!(seen.get() <= bound, "{}\ntext {}: {} characters were read for {} tokens; {} decide", ctx.desc, show(&text), seen.get(), got.pulled, bound);
        interesting |= got.calls.len() >= 2 && toks.len() >= 2;
        if matches!(got.res, Res::Ok(_)) {
            ctx.label("parsed to a value");
        }
        if matches!(got.res, Res::NoRecovery) && got.pulled < toks.len() {
            ctx.label("ended before the text");
        }
    }
    ctx.nontrivial = interesting;
    Ok(())
}

fn main() {
    let props = [Prop {
        id: "C26",
        rule: "A random conflict-free grammar (half with error alternatives), random patterns for its terminals and for layout, and 3-48 texts made of samples of the patterns along sentences and damaged sentences; the text is tokenized, layout filtered out and parsed in one chain of iterators, and the reducer calls, token texts, result and characters read compared with the reference tokenizer followed by the reference parser. Non-trivial: two tokens and two reducer calls.",
        assumptions: &["no pattern matches the empty string", "reference automata of at most 400 states, canonical automata of at most 4000 items"],
        quick: 80000,
        thorough: 1500000,
        run: c26,
    }];
    vh::cli::main(&props, |_| (vec![], vec![]))
}
