//! C01-C06, C09: tokenizers built at run time.
use std::cell::Cell;
use std::rc::Rc;
use tokenizer::Tokenize;
use vh::engine::{sut, CountingAlloc, Ctx, Prop, Src};
use vh::re::{self, inputs, Dfa, Gen};
use vh::sut::{all, all_by_value, build, build_ok, first, show, Built, Item};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

const CAP: usize = 260;
const BIG_CAP: usize = 2000;

/// A list of patterns with its reference automaton.
fn list(src: &mut Src, ctx: &mut Ctx, max: usize) -> (Vec<String>, Vec<regex_syntax::hir::Hir>, Dfa) {
    let mut cap = CAP;
    let pats = if src.chance(1, 250) {
        ctx.label("no patterns");
        Vec::new()
    } else if src.chance(1, 40) {
        ctx.label("ranges that share their start");
        let p = re::fan(src);
        let h = re::parse(&p).unwrap();
        vec![(p, h)]
    } else if src.chance(1, 120) {
        ctx.label("large in one direction");
        cap = BIG_CAP;
        re::scaled(src)
    } else if let Some(v) = src.chance(1, 60).then(|| re::sized(src)).flatten() {
        ctx.label("as large as a number of the code");
        cap = BIG_CAP;
        v
    } else {
        let fancy = src.chance(2, 5);
        re::pattern_list(src, max, fancy)
    };
    let (mut p, mut h): (Vec<_>, Vec<_>) = pats.into_iter().unzip();
    loop {
        if let Some(d) = Dfa::new(&h, false, cap) {
            ctx.max("states of a reference automaton", d.trans.len() as u64);
            ctx.max("patterns of one tokenizer", p.len() as u64);
            return (p, h, d);
        }
        ctx.label("dropped a pattern to bound the automaton");
        if p.len() > 1 {
            p.pop();
            h.pop();
        } else {
            p = vec!["[a-c]+d".into()];
            h = vec![re::parse("[a-c]+d").unwrap()];
        }
    }
}

// ---------------------------------------------------------------- C01

fn c01(src: &mut Src, ctx: &mut Ctx) -> R {
    let empties = src.chance(1, 12);
    let mut cap = CAP;
    let (p, h) = if src.chance(1, 40) {
        ctx.label("ranges that share their start");
        let p = re::fan(src);
        let h = re::parse(&p).unwrap();
        (p, h)
    } else if src.chance(1, 150) {
        ctx.label("large in one direction");
        cap = BIG_CAP;
        let mut v = re::scaled(src);
        let k = src.n(v.len());
        v.swap_remove(k)
    } else if let Some(mut v) = src.chance(1, 60).then(|| re::sized(src)).flatten() {
        ctx.label("as large as a number of the code");
        cap = BIG_CAP;
        let k = src.n(v.len());
        v.swap_remove(k)
    } else {
        let th = re::theme(src);
        let fancy = src.chance(1, 3);
        let big = src.chance(1, 30);
        Gen::new(th, fancy, empties).good(if big { 300 } else { 90 }, src)
    };
    let Some(d) = Dfa::new(std::slice::from_ref(&h), false, cap) else {
        ctx.label("automaton over the size bound, skipped");
        return Ok(());
    };
    let has_empty = re::has_empty(&h);
    let alt = if has_empty {
        match Dfa::new(std::slice::from_ref(&h), true, CAP) {
            Some(d) => Some(d),
            None => return Ok(()),
        }
    } else {
        None
    };
    ctx.desc = format!("pattern {:?}", p);
    ctx.max("states of a reference automaton", d.trans.len() as u64);
    ctx.max("longest pattern", p.len() as u64);
    if p.contains("?") || p.contains("*") || p.contains("+") || p.contains("{") {
        ctx.label("has repetition");
    }
    if p.contains("(?i") || p.contains("(?s") || p.contains("(?x") {
        ctx.label("has flags");
    }
    if !p.is_ascii() || p.contains("\\u") || p.contains("\\U") {
        ctx.label("beyond ASCII");
    }
    let (tk, _) = build_ok::<char, _>(&[&p])?;
    let mut strings = d.strings(70, src);
    if src.chance(1, 12) {
        strings.extend(re::sized_text(std::slice::from_ref(&h), &d, src));
    }
    if src.chance(1, 20) {
        let n = src.range(100, 5000);
        strings.push(d.long_text(n, src));
    }
    for _ in 0..12 {
        let mut v = Vec::new();
        re::sample(&h, src, &mut v);
        if src.chance(1, 2) {
            let pool: Vec<char> = strings.iter().flatten().take(20).copied().chain("ab01\n".chars()).collect();
            re::damage(&mut v, &pool, src);
        }
        strings.push(v);
    }
    if let Some(alt) = &alt {
        strings.extend(alt.strings(20, src));
    }
    let (mut yes, mut no) = (false, false);
    let (mut as_spec, mut as_known) = (true, true);
    let mut msg = String::new();
    for s in &strings {
        ctx.evals += 1;
        let got = first(&tk, s)?.map(|t| (t.1.chars().count(), t.1, t.2));
        let want = d.longest(s).0;
        match want {
            Some(_) => yes = true,
            None => no = true,
        }
        if let Some((n, text, items)) = &got {
            ensure!(items.len() == *n && text.chars().eq(s[..*n].iter().copied()) && items[..] == s[..*n], "pattern {:?} on {}: token {:?} is not a prefix of the input", p, show(s), text);
        }
        let got = got.map(|g| g.0);
        if got != want.map(|w| w.0) {
            as_spec = false;
            if msg.is_empty() {
                msg = format!("pattern {:?} on {}: the longest matching prefix has length {:?}, the first token has length {:?}", p, show(s), want.map(|w| w.0), got);
            }
        }
        match &alt {
            Some(alt) => as_known &= got == alt.longest(s).0.map(|w| w.0),
            None => as_known = false,
        }
        if !as_spec && !as_known {
            return Err(msg);
        }
    }
    // the other way of using a tokenizer: by value
    if !has_empty {
        let s = &strings[src.n(strings.len())];
        let got = all_by_value(tk, s, 1)?.0.first().map(|t| t.1.chars().count());
        let want = d.longest(s).0.map(|w| w.0);
        ensure!(got == want, "pattern {:?} on {}, by value: the longest matching prefix has length {:?}, the first token has length {:?}", p, show(s), want, got);
    }
    if has_empty {
        ctx.label("has an empty sub-expression (known finding tolerated)");
        if !as_spec {
            ctx.excluded += 1;
        }
    }
    ctx.nontrivial = d.trans.len() >= 3 && yes && no;
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02(src: &mut Src, ctx: &mut Ctx) -> R {
    let (p, h, d) = list(src, ctx, 24);
    ctx.desc = format!("patterns {:?}", p);
    let (tk, _) = build_ok::<char, _>(&p)?;
    let (mut tie, mut back) = (false, false);
    let mut tk = Some(tk);
    let mut ins = inputs(&h, &d, 14, src);
    if src.chance(1, 30) {
        ctx.label("long text");
        let n = src.range(300, 6000);
        ins.push(d.long_text(n, src));
        let k = src.n(ins.len());
        let at = ins.len() - 1;
        ins.swap(k, at);
    }
    let last = ins.len() - 1;
    for (k, s) in ins.into_iter().enumerate() {
        ctx.evals += 1;
        // the last text is tokenized by value
        let (got, ended) = if k == last { all_by_value(tk.take().unwrap(), &s, 10000)? } else { all(tk.as_ref().unwrap(), &s, 10000)? };
        let mut at = 0;
        for t in &got {
            let (want, decided) = d.longest(&s[at..]);
            let Some((n, pat)) = want else {
                return Err(format!("patterns {:?} on {}: a token of pattern {} ({:?}) at {} where nothing matches", p, show(&s), t.0, t.1, at));
            };
            tie |= d.matches(&s[at..at + n]).len() > 1;
            back |= n > 0 && decided > n + 1;
            ensure!(
                t.0 == pat as usize && t.1.chars().eq(s[at..at + n].iter().copied()),
                "patterns {:?} on {} at {}: expected pattern {} with {}, got pattern {} with {:?}",
                p,
                show(&s),
                at,
                pat,
                show(&s[at..at + n]),
                t.0,
                t.1
            );
            if n == 0 {
                ctx.label("zero-length token");
            }
            at += n;
        }
        if ended {
            ensure!(d.longest(&s[at..]).0.is_none(), "patterns {:?} on {}: no token at {} although pattern {:?} matches there", p, show(&s), at, d.longest(&s[at..]).0);
        }
    }
    if tie {
        ctx.label("several patterns match the same longest prefix");
    }
    if back {
        ctx.label("scan went past the longest match and came back");
    }
    ctx.nontrivial = tie || back;
    Ok(())
}

// ---------------------------------------------------------------- C03

fn c03(src: &mut Src, ctx: &mut Ctx) -> R {
    let (p, h, d) = list(src, ctx, 8);
    ctx.desc = format!("patterns {:?}", p);
    let (tk, _) = build_ok::<Item, _>(&p)?;
    let mut ins = inputs(&h, &d, 8, src);
    if src.chance(1, 25) && !h.is_empty() {
        ctx.label("long input");
        let n = src.range(2000, 20000);
        let mut v = Vec::new();
        let mut w = Vec::new();
        while v.len() < n {
            w.clear();
            re::sample(&h[src.n(h.len())], src, &mut w);
            if w.is_empty() {
                w.push('a');
            }
            v.extend(w.iter());
        }
        ins.push(v);
    }
    if src.chance(1, 40) {
        ctx.label("long tokens");
        let n = src.range(300, 9000);
        ins.push(d.long_text(n, src));
    }
    // characters as items, by value
    if src.chance(1, 3) {
        let s = &ins[src.n(ins.len())];
        let (tkc, _) = build_ok::<char, _>(&p)?;
        let (toks, ended) = all_by_value(tkc, s, s.len() + 3)?;
        let mut at = 0;
        for (k, t) in toks.iter().enumerate() {
            ensure!(s[at..].starts_with(&t.2), "patterns {:?} on {}: token {} carries {} where the items at {} were due", p, show(s), k, show(&t.2), at);
            ensure!(t.1.chars().eq(t.2.iter().copied()), "patterns {:?} on {}: text {:?} of token {} is not the characters of its items", p, show(s), t.1, k);
            at += t.2.len();
        }
        ensure!(!ended || d.longest(&s[at..]).0.is_none(), "patterns {:?} on {}: stopped at {} although something matches there", p, show(s), at);
    }
    for s in ins {
        ctx.evals += 1;
        let (toks, ended) = sut(|| {
            let mut it = s.iter().enumerate().map(|(id, c)| Item { c: *c, id }).tokenize_with(&tk, |i: &Item| i.c);
            let mut out = Vec::new();
            let mut zero = 0;
            loop {
                match it.next() {
                    Some(t) => {
                        zero = if t.2.is_empty() { zero + 1 } else { 0 };
                        out.push(t);
                        if zero == 3 || out.len() > s.len() + 3 {
                            return (out, false);
                        }
                    }
                    None => return (out, true),
                }
            }
        })?;
        let mut at = 0;
        let mut reread = false;
        for (k, t) in toks.iter().enumerate() {
            for i in &t.2 {
                ensure!(i.id == at, "patterns {:?} on {}: token {} carries item {} where item {} was due (items lost, repeated or reordered)", p, show(&s), k, i.id, at);
                ensure!(s.get(at) == Some(&i.c), "patterns {:?} on {}: item {} changed", p, show(&s), at);
                at += 1;
            }
            ensure!(t.1.chars().eq(t.2.iter().map(|i| i.c)), "patterns {:?} on {}: text {:?} of token {} is not the characters of its items", p, show(&s), t.1, k);
            reread |= d.longest(&s[at - t.2.len()..]).1 > t.2.len() + 1;
        }
        if ended {
            ensure!(d.longest(&s[at..]).0.is_none(), "patterns {:?} on {}: stopped at {} although something matches there", p, show(&s), at);
            if at == s.len() {
                ctx.label("input consumed completely");
            } else {
                ctx.label("stopped at an unmatched position");
            }
        } else {
            // zero-length tokens for ever are what a nullable pattern means once nothing longer matches
            ensure!(matches!(d.longest(&s[at..]).0, Some((0, _))), "patterns {:?} on {}: tokens keep coming without input at {}", p, show(&s), at);
        }
        if reread {
            ctx.label("buffered items were read again");
        }
        ctx.nontrivial |= toks.len() >= 2 && reread;
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

#[derive(Default)]
struct Seen {
    pulled: Cell<usize>,
    limit: Cell<usize>,
    over: Cell<bool>,
    /// the source never ends: its last character comes again and again
    endless: Cell<bool>,
}
struct Source {
    s: Vec<char>,
    seen: Rc<Seen>,
}
impl Iterator for Source {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        let i = self.seen.pulled.get();
        if i >= self.seen.limit.get() {
            // an interactive source would block here for ever
            self.seen.over.set(true);
            return None;
        }
        if i >= self.s.len() && !self.seen.endless.get() {
            return None;
        }
        self.seen.pulled.set(i + 1);
        Some(Item { c: self.s[i.min(self.s.len() - 1)], id: i })
    }
    /// exact for some lengths, unknown for others
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.seen.endless.get() {
            return (usize::MAX, None);
        }
        let n = self.s.len().saturating_sub(self.seen.pulled.get());
        match self.s.len() % 4 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n + 3)),
            _ => (n / 2, Some(n)),
        }
    }
}

fn c04(src: &mut Src, ctx: &mut Ctx) -> R {
    let (p, h, d) = list(src, ctx, 8);
    ctx.desc = format!("patterns {:?}", p);
    let (tk, _) = build_ok::<Item, _>(&p)?;
    let mut ins = inputs(&h, &d, 8, src);
    if src.chance(1, 40) {
        ctx.label("long text");
        let n = src.range(200, 3000);
        ins.push(d.long_text(n, src));
    }
    for s in &ins {
        reads(&p, &d, s, !s.is_empty() && src.chance(1, 4), ctx, |source| Box::new(source.tokenize_with(&tk, |i: &Item| i.c).map(|t| t.2.len())))?;
    }
    // the other entry point and the other kind of tokenizer
    let k = src.n(ins.len());
    if src.chance(1, 2) {
        let (tkc, _) = build_ok::<char, _>(&p)?;
        for _ in 0..3 {
            let k = src.n(ins.len());
            reads(&p, &d, &ins[k], false, ctx, |source| Box::new(source.map(|i| i.c).tokenize(&tkc).map(|t| t.2.len())))?;
        }
        reads(&p, &d, &ins[k], false, ctx, |source| Box::new(source.map(|i| i.c).tokenize(tkc).map(|t| t.2.len())))
    } else {
        reads(&p, &d, &ins[k], false, ctx, |source| Box::new(source.tokenize_with(tk, |i: &Item| i.c).map(|t| t.2.len())))
    }
}

fn reads<'a>(p: &[String], d: &Dfa, s: &'a [char], endless: bool, ctx: &mut Ctx, make: impl FnOnce(Source) -> Box<dyn Iterator<Item = usize> + 'a>) -> R {
    ctx.evals += 1;
    let seen = Rc::new(Seen::default());
    seen.endless.set(endless);
    if endless {
        ctx.label("source without end");
    }
    let source = Source { s: s.to_vec(), seen: seen.clone() };
    let mut it = sut(|| make(source))?;
    ensure!(!seen.over.get() && seen.pulled.get() == 0, "patterns {:?}: creating the iterator reads the source", p);
    let mut at = 0;
    let mut zero = 0;
    loop {
        let (want, decided) = d.longest(&s[at..]);
        // the end of the source may be looked at only when the scan is still undecided there
        let undecided = at + decided >= s.len() && {
            let mut st = Some(0);
            for c in &s[at..] {
                st = st.and_then(|x| d.step(x, *c));
            }
            st.is_some()
        };
        if endless && undecided {
            break;
        }
        let pulled = seen.pulled.get();
        seen.limit.set(if undecided { usize::MAX } else { (at + decided).max(pulled) });
        if pulled > at && pulled < at + decided {
            ctx.label("continues from buffered items into new ones");
            ctx.nontrivial = true;
        }
        if at + decided < pulled {
            ctx.label("decided within the buffered items");
            ctx.nontrivial = true;
        }
        let t = sut(|| it.next())?;
        ensure!(!seen.over.get(), "patterns {:?} on {}: token at {} is decided by item {}, but the source was asked for more", p, show(s), at, (at + decided).saturating_sub(1));
        match (t, want) {
            (Some(len), Some((n, _))) => {
                ensure!(len == n, "patterns {:?} on {} at {}: expected a token of {} items, got {}", p, show(s), at, n, len);
                at += n;
                zero = if n == 0 { zero + 1 } else { 0 };
                if zero == 2 {
                    break;
                }
            }
            (None, None) => break,
            (t, w) => return Err(format!("patterns {:?} on {} at {}: expected {:?}, got a token of {:?} items", p, show(s), at, w, t)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn c05(src: &mut Src, ctx: &mut Ctx) -> R {
    let (p, h, d) = list(src, ctx, 16);
    ctx.desc = format!("patterns {:?}", p);
    let n = p.len();
    let mut shared = vec![vec![false; n]; n];
    for a in &d.accept {
        for i in a {
            for j in a {
                if i != j {
                    shared[*i as usize][*j as usize] = true;
                }
            }
        }
    }
    let ambiguous: Vec<usize> = (0..n).filter(|i| shared[*i].iter().any(|x| *x)).collect();
    let (tk, w) = build_ok::<char, _>(&p)?;
    ensure!(w.is_empty() == ambiguous.is_empty(), "patterns {:?}: patterns {:?} share strings, warnings: {:?}", p, ambiguous, w);
    let mut named = vec![false; n];
    let mut readable = true;
    for w in &w {
        let nums: Vec<usize> = w.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        match nums[..] {
            [a, b] => {
                ensure!(a < n && b < n && a != b && shared[a][b], "patterns {:?}: warning {} names two patterns that share no string", p, w);
                named[a] = true;
                named[b] = true;
            }
            _ => readable = false,
        }
    }
    if readable {
        for i in &ambiguous {
            ensure!(named[*i], "patterns {:?}: pattern {} shares a string with another one but no warning names it: {:?}", p, i, w);
        }
    }
    // the warnings go with the tokenizer that is built: it still resolves by order
    for s in inputs(&h, &d, 3, src) {
        ctx.evals += 1;
        let got = first(&tk, &s)?.map(|t| (t.1.chars().count(), t.0 as u32));
        ensure!(got == d.longest(&s).0, "patterns {:?} on {}: expected {:?}, got {:?}", p, show(&s), d.longest(&s).0, got);
    }
    if ambiguous.is_empty() {
        ctx.label("unambiguous");
    } else {
        ctx.label("ambiguous");
    }
    if ambiguous.len() > 2 {
        ctx.label("three or more patterns share strings");
    }
    // near misses: patterns that are reached together but never accept together
    ctx.nontrivial = n >= 2;
    Ok(())
}

// ---------------------------------------------------------------- C06

fn c06(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut pats: Vec<String> = Vec::new();
    let n = if src.chance(1, 60) { 0 } else { src.chance(1, 60).then(|| vh::dict::cheap_size(300, 40, src)).flatten().unwrap_or_else(|| src.range(1, 4)) };
    const BAD: &[&str] = &["^", "$", "\\A", "\\z", "\\b", "\\B", "(?m:^)", "(?m:$)", "(?-u:\\b)", "(?-u:\\B)", "(?-u:[a-z])", "(?-u:\\d)", "(?-u:\\w+)", "(?-u:[a\\x00])", "(?-u:\\x7f)", "(?-u:.)", "(?-u:\\xff)", "(?-u:[^a])", "(?-u:a)", "(?m)^", "(?i-u:k)"];
    for _ in 0..n {
        let th = re::theme(src);
        let mut g = Gen::new(th, src.chance(1, 2), src.chance(1, 6));
        let good = |src: &mut Src, g: &mut Gen| g.good(40, src).0;
        let w = if n > 4 && pats.len() + 2 < n { [1, 0, 0, 0, 0, 0] } else { [6, 6, 3, 2, 1, 1] };
        let p = match src.weighted(&w) {
            0 => good(src, &mut g),
            1 => {
                // an unsupported construct somewhere inside
                let bad = src.pick(BAD).to_string();
                let mut s = bad;
                for _ in 0..src.range(0, 4) {
                    let o = good(src, &mut g);
                    s = match src.n(9) {
                        0 => format!("{}(?:{})", s, o),
                        1 => format!("(?:{})(?:{})", o, s),
                        2 => format!("(?:{})|(?:{})", o, s),
                        3 => format!("(?:{})|(?:{})", s, o),
                        4 => format!("(?:{})*", s),
                        5 => format!("({})?", s),
                        6 => format!("(?:{}){{{}}}", s, src.n(3)),
                        7 => format!("(?:{}){{0,{}}}", s, src.n(3)),
                        _ => format!("(?:{})+(?:{})", o, s),
                    };
                }
                s
            }
            2 => {
                // damaged syntax
                let mut v: Vec<char> = good(src, &mut g).chars().collect();
                re::damage(&mut v, &['(', ')', '[', ']', '{', '}', '*', '+', '?', '\\', '|', '-', '^', '$', ',', '1', 'p'], src);
                v.into_iter().collect()
            }
            3 => {
                let k = src.range(0, 10);
                (0..k).map(|_| *src.pick(&['(', ')', '[', ']', '{', '}', '*', '+', '?', '\\', '|', '-', '^', '$', ',', '1', 'p', 'a', ':', 'u', 'x', '&', 'b', 'z', '.'])).collect()
            }
            4 => {
                let k = src.chance(1, 2).then(|| vh::dict::size(300, src)).flatten().unwrap_or_else(|| src.range(1, 300));
                format!("{}a{}", "(".repeat(k), ")".repeat(k))
            }
            _ => {
                // long as a text, small as an expression
                let k = src.chance(1, 2).then(|| vh::dict::size(12000, src)).flatten().unwrap_or_else(|| src.range(50, 6000));
                let fill = match src.n(3) {
                    0 => format!("(?x)a{}# {}\n", " ".repeat(k), "x".repeat(k / 2)),
                    1 => format!("[{}]", "abc".repeat(k)),
                    _ => format!("(?:{})", "|".repeat(k / 20)),
                };
                let (tail, o) = (src.pick(&["", "b+", "$", ")", "[", "*", "\\b", "(?-u:\\xff)", "\\"]), good(src, &mut g));
                format!("{}(?:{}){}", fill, o, tail)
            }
        };
        pats.push(p);
    }
    ctx.desc = format!("patterns {:?}", pats);
    let hirs: Vec<_> = pats.iter().map(|p| re::parse(p)).collect();
    let malformed = hirs.iter().any(|h| h.is_none());
    let unsupported = hirs.iter().flatten().any(re::has_unsupported);
    if hirs.iter().flatten().any(|h| re::hir_size(h) > 1500) {
        ctx.label("over the size bound, skipped");
        return Ok(());
    }
    if !malformed && !unsupported {
        let h: Vec<_> = hirs.iter().flatten().cloned().collect();
        if Dfa::new(&h, true, 600).is_none() {
            ctx.label("over the size bound, skipped");
            return Ok(());
        }
    }
    ctx.evals += 1;
    let got = build::<char, _>(&pats)?;
    let refused = matches!(got, Built::Refused(_));
    ctx.label(match (malformed, unsupported) {
        (true, _) => "malformed",
        (_, true) => "unsupported",
        _ => "supported",
    });
    ctx.nontrivial = malformed || unsupported;
    if malformed || unsupported {
        ensure!(refused, "patterns {:?}: built although {}", pats, if malformed { "one is malformed" } else { "one uses an unsupported construct" });
    } else if let Built::Refused(e) = got {
        return Err(format!("patterns {:?}: refused although all are valid and supported: {}", pats, e));
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

fn c09(src: &mut Src, ctx: &mut Ctx) -> R {
    let (p, h, d) = list(src, ctx, 12);
    ctx.desc = format!("patterns {:?}", p);
    let (tk, w) = build_ok::<char, _>(&p)?;
    let (tki, _) = build_ok::<Item, _>(&p)?;
    let ins = inputs(&h, &d, 5, src);
    type T = (usize, String);
    let mut refs: Vec<Vec<T>> = Vec::new();
    for s in &ins {
        refs.push(all(&tk, s, 200)?.0.into_iter().map(|t| (t.0, t.1)).collect());
    }
    let more = if p.first().map_or(0, |x| x.len()) > 200 { 5 } else { 2 };
    for round in 0..more {
        let (tk2, w2) = build_ok::<char, _>(&p)?;
        let sorted = |w: &[String]| {
            let mut w = w.to_vec();
            w.sort();
            w.dedup();
            w
        };
        ensure!(sorted(&w).is_empty() == sorted(&w2).is_empty(), "patterns {:?}: building again changes the warnings", p);
        for (s, r) in ins.iter().zip(&refs) {
            ctx.evals += 1;
            let g: Vec<T> = all(&tk2, s, 200)?.0.into_iter().map(|t| (t.0, t.1)).collect();
            ensure!(&g == r, "patterns {:?} on {}: built again (round {}), the tokens change from {:?} to {:?}", p, show(s), round, r, g);
        }
        // by value
        if round == 0 {
            let k = src.n(ins.len());
            let s = &ins[k];
            let g: Vec<T> = sut(|| s.iter().copied().tokenize(tk2).take(refs[k].len()).map(|t| (t.0, t.1)).collect())?;
            ensure!(g == refs[k], "patterns {:?} on {}: by value the tokens change from {:?} to {:?}", p, show(s), refs[k], g);
        }
    }
    // tokenize_with on other item types
    for (s, r) in ins.iter().zip(&refs) {
        ctx.evals += 1;
        let g: Vec<T> = sut(|| s.iter().enumerate().map(|(id, c)| Item { c: *c, id }).tokenize_with(&tki, |i: &Item| i.c).take(r.len()).map(|t| (t.0, t.1)).collect())?;
        ensure!(&g == r, "patterns {:?} on {}: tokenize_with changes the tokens from {:?} to {:?}", p, show(s), r, g);
        let g: Vec<T> = sut(|| s.iter().copied().tokenize_with(&tk, |c: &char| *c).take(r.len()).map(|t| (t.0, t.1)).collect())?;
        ensure!(&g == r, "patterns {:?} on {}: tokenize_with on characters changes the tokens from {:?} to {:?}", p, show(s), r, g);
    }
    // several iterators over one tokenizer, interleaved at random
    let mut its: Vec<_> = ins.iter().map(|s| s.iter().copied().tokenize(&tk)).collect();
    let mut got: Vec<Vec<T>> = vec![vec![]; ins.len()];
    let mut open: Vec<usize> = (0..ins.len()).filter(|k| !refs[*k].is_empty()).collect();
    while !open.is_empty() {
        let o = src.n(open.len());
        let k = open[o];
        match sut(|| its[k].next())? {
            Some(t) => got[k].push((t.0, t.1)),
            None => return Err(format!("patterns {:?} on {}: interleaved with other inputs the tokens end after {:?} instead of {:?}", p, show(&ins[k]), got[k], refs[k])),
        }
        if got[k].len() == refs[k].len() {
            open.swap_remove(o);
        }
    }
    for k in 0..ins.len() {
        ctx.evals += 1;
        ensure!(got[k] == refs[k], "patterns {:?} on {}: interleaved with other inputs the tokens change from {:?} to {:?}", p, show(&ins[k]), refs[k], got[k]);
    }
    // another tokenizer, used in turn with the first
    {
        let (p2, h2, d2) = list(src, ctx, 4);
        let (other, _) = build_ok::<char, _>(&p2)?;
        let ins2 = if src.chance(1, 2) { ins.clone() } else { inputs(&h2, &d2, 5, src) };
        for s in &ins2 {
            let k = src.n(ins.len());
            ctx.evals += 1;
            let (mut a, mut b) = (ins[k].iter().copied().tokenize(&tk), s.iter().copied().tokenize(&other));
            let mut at = 0;
            let mut b_open = true;
            for (i, want) in refs[k].iter().enumerate() {
                while b_open && src.chance(1, 2) {
                    let got = sut(|| b.next())?.map(|t| (t.1.chars().count(), t.0 as u32));
                    let want = d2.longest(&s[at..]).0;
                    ensure!(got == want, "patterns {:?} on {}, in turn with patterns {:?} on {}: at {} expected {:?}, got {:?}", p2, show(s), p, show(&ins[k]), at, want, got);
                    at += want.map_or(0, |w| w.0);
                    b_open = want.is_some();
                }
                let got = sut(|| a.next())?.map(|t| (t.0, t.1));
                ensure!(got.as_ref() == Some(want), "patterns {:?} on {}, in turn with patterns {:?} on {}: token {} changes from {:?} to {:?}", p, show(&ins[k]), p2, show(s), i, want, got);
            }
        }
    }
    // very many uses of one tokenizer
    if src.chance(1, 100) {
        ctx.label("hundreds of uses of one tokenizer");
        for i in 0..400 {
            let k = i % ins.len();
            if ins[k].len() > 60 {
                continue;
            }
            ctx.evals += 1;
            let g: Vec<T> = all(&tk, &ins[k], 200)?.0.into_iter().map(|t| (t.0, t.1)).collect();
            ensure!(g == refs[k], "patterns {:?} on {}: used again, the tokens change from {:?} to {:?}", p, show(&ins[k]), refs[k], g);
        }
    }
    ctx.nontrivial = d.trans.len() >= 3 && refs.iter().filter(|r| r.len() >= 2).count() >= 2;
    Ok(())
}

const TRUST: &[&str] = &[
    "regex-syntax 0.6 (the parser the tokenizer itself depends on) defines which strings are patterns and what their syntax trees are; the automata of the reference are built independently of the tokenizer",
    "automata of at most 260 reference states (2000 in one case of a hundred), patterns of at most a few hundred Thompson nodes",
];

fn main() {
    let props = [
        Prop { id: "C01", rule: "A random pattern (literals, classes, dot, groups, flags, all repetition forms, nested to depth 4, over themed alphabets covering all of Unicode) and about 80 strings from its reference automaton: each (state, range) pair at and next to the range's ends, samples of the syntax tree and damaged samples. Non-trivial: at least 3 automaton states and strings both with and without a matching prefix.", assumptions: TRUST, quick: 120000, thorough: 1500000, run: c01 },
        Prop { id: "C02", rule: "A list of 1-24 related patterns (keywords, duplicates, identifiers, compositions) and 14 texts made of samples, damaged samples and transition-cover strings, tokenized to the end against the reference longest match. Non-trivial: some token was matched by several patterns, or the scan went past the longest match and came back.", assumptions: TRUST, quick: 45000, thorough: 500000, run: c02 },
        Prop { id: "C03", rule: "Pattern lists as in C02 over numbered non-copyable items, 8 texts each, some of up to 20000 items. Non-trivial: at least two tokens and items that were read ahead and re-read.", assumptions: TRUST, quick: 40000, thorough: 625000, run: c03 },
        Prop { id: "C04", rule: "Pattern lists over a source that records every pull and the first pull beyond the item that decides the token (computed by the reference automaton). Non-trivial: some token started from buffered items.", assumptions: TRUST, quick: 45000, thorough: 450000, run: c04 },
        Prop { id: "C05", rule: "Lists of up to 16 patterns; the complete reference automaton tells exactly which pairs of patterns share a string. Non-trivial: two or more patterns.", assumptions: TRUST, quick: 60000, thorough: 600000, run: c05 },
        Prop { id: "C06", rule: "Lists of 1-4 pattern strings: supported ones, ones with an anchor, boundary or byte construct buried at a random place, damaged and random ones, deep nesting. Non-trivial: the list must be refused.", assumptions: TRUST, quick: 110000, thorough: 2000000, run: c06 },
        Prop { id: "C09", rule: "Pattern lists built several times; every text tokenized by reference, by value, through both entry points and by several iterators advanced in a random interleaving, in turn with a second tokenizer of other patterns, and now and then hundreds of times. Non-trivial: at least 3 automaton states and two texts with at least two tokens.", assumptions: TRUST, quick: 14000, thorough: 225000, run: c09 },
    ];
    vh::cli::main(&props, vh::known::known)
}
