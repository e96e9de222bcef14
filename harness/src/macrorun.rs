//! Linked into the generated programs: compares what a macro made with its run-time twin.
use crate::engine::Src;
use crate::gram::{self, drive, Grammar, Lr};
use crate::re::{self, Dfa};
use std::cell::Cell;
use std::fmt::Debug;
use tokenizer::{DFATokenizer, Tokenize};

/// Comparisons made and whether the case exercised anything.
pub struct Done {
    pub evals: u64,
    pub nontrivial: bool,
}
pub type R = Result<Done, String>;

/// Runs the cases of one program; the driver reads the lines.
pub fn main(cases: &[(usize, fn() -> R)]) {
    let cases = cases.to_vec();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            for (i, f) in cases {
                println!("START {}", i);
                let r = std::panic::catch_unwind(f).unwrap_or_else(|p| {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    Err(format!("panicked: {}", m))
                });
                match r {
                    Ok(d) => println!("PASS {} {} {}", i, d.evals, d.nontrivial as u8),
                    Err(m) => println!("FAIL {} {}", i, m.replace('\\', "\\\\").replace('\n', "\\n")),
                }
            }
        })
        .unwrap()
        .join()
        .unwrap();
    println!("END");
}

// ---------------------------------------------------------------- tokenizers

pub type Tok<T> = (usize, String, Vec<T>);

fn tokens<T: Debug + 'static>(tk: &DFATokenizer<Tok<T>, T>, items: Vec<T>, read: fn(&T) -> char) -> Result<Vec<String>, String> {
    let limit = items.len() * 2 + 8;
    let mut it = items.into_iter().tokenize_with(tk, read);
    let mut out = Vec::new();
    let mut zero = 0;
    while out.len() < limit {
        match it.next() {
            Some(t) => {
                zero = if t.2.is_empty() { zero + 1 } else { 0 };
                out.push(format!("{:?}", t));
                if zero == 2 {
                    break;
                }
            }
            None => {
                out.push("end".into());
                break;
            }
        }
    }
    Ok(out)
}

pub fn tok_case<T: Debug + 'static>(seed: u64, pats: &[&str], made: DFATokenizer<Tok<T>, T>, twin: DFATokenizer<Tok<T>, T>, item: fn(char, usize) -> T, read: fn(&T) -> char) -> R {
    let hirs: Vec<_> = pats.iter().map(|p| re::parse(p).expect("pattern")).collect();
    let mut src = Src::random(seed);
    let mut texts: Vec<Vec<char>> = vec![vec![]];
    if !hirs.is_empty() {
        let dfa = Dfa::new(&hirs, false, 4000).expect("small automaton");
        texts.extend(dfa.strings(400, &mut src));
        texts.extend(re::inputs(&hirs, &dfa, 60, &mut src));
    }
    texts.push("abc 123".chars().collect());
    let mut many = 0;
    let mut evals = 0;
    for w in &texts {
        let items = || w.iter().enumerate().map(|(i, c)| item(*c, i)).collect::<Vec<T>>();
        let a = tokens(&made, items(), read)?;
        let b = tokens(&twin, items(), read)?;
        evals += 1;
        if a != b {
            return Err(format!("patterns {:?}\ninput {:?}\nbuilt at run time: {}\nby the macro:      {}", pats, w.iter().collect::<String>(), b.join(", "), a.join(", ")));
        }
        many = many.max(b.len());
    }
    Ok(Done { evals, nontrivial: many >= 3 })
}

// ---------------------------------------------------------------- parsers

thread_local! {
    static CALLS: Cell<usize> = const { Cell::new(0) };
    static FAIL: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// The error of generated reducers.
#[derive(Debug, PartialEq)]
pub struct Bang(pub usize);
impl std::fmt::Display for Bang {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bang {}", self.0)
    }
}
impl std::error::Error for Bang {}
impl From<Bang> for String {
    fn from(b: Bang) -> String {
        format!("{}", b)
    }
}
impl From<Bang> for () {
    fn from(_: Bang) {}
}

/// Counts a reducer call and joins what it was given.
pub fn reduce<E: From<Bang>>(rule: usize, parts: &[String]) -> Result<String, E> {
    let n = CALLS.with(|c| c.replace(c.get() + 1));
    if n > 100_000 {
        panic!("no end: more than 100000 reducer calls for one input");
    }
    if FAIL.with(|f| f.get()) == n {
        return Err(Bang(n).into());
    }
    Ok(format!("{}({})", rule, parts.join(" ")))
}

pub fn par_case(seed: u64, g: Grammar, made: &dyn Fn(&[(u16, usize)]) -> String, twin: &dyn Fn(&[(u16, usize)]) -> String) -> R {
    let mut src = Src::random(seed);
    let lr = Lr::new(&g, 1 << 20).expect("small automaton");
    let mut evals = 0;
    let (mut yes, mut no) = (0, 0);
    let mut ins = gram::inputs(&g, 60, &mut src);
    let long = gram::Sentences::new(&g).one(200, &mut src);
    ins.extend(long);
    for w in ins {
        let (Some(free), _) = drive(&g, &lr, &w, None, 20_000) else { continue };
        let toks: Vec<(u16, usize)> = w.iter().enumerate().map(|(i, t)| (*t, i)).collect();
        for k in 0..2 {
            let fail = if k == 0 {
                usize::MAX
            } else if free.calls.is_empty() {
                break;
            } else {
                src.n(free.calls.len())
            };
            let go = |f: &dyn Fn(&[(u16, usize)]) -> String| {
                CALLS.with(|c| c.set(0));
                FAIL.with(|c| c.set(fail));
                let r = f(&toks);
                (r, CALLS.with(|c| c.get()))
            };
            let b = go(twin);
            let a = go(made);
            evals += 1;
            if a != b {
                return Err(format!("grammar {}\ninput {:?}{}\nbuilt at run time: {} ({} reducer calls)\nby the macro:      {} ({} reducer calls)", g.show(), w, if k == 1 { format!(" with reducer call {} failing", fail) } else { String::new() }, b.0, b.1, a.0, a.1));
            }
        }
        match free.res {
            gram::Res::Ok(_) => yes += 1,
            _ => no += 1,
        }
    }
    Ok(Done { evals, nontrivial: yes > 1 && no > 0 })
}
