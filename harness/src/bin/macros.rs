//! C07, C20, C21, C28: what the compile-time macros make, decided by compiling generated programs.
//!
//! A batch of generated cases becomes one cargo package under /verif/work with a few programs, each of many modules.
//! C07 and C20: every module holds a macro invocation and a run-time twin and compares them on generated inputs.
//! C21: every module holds an ill-formed invocation and must be refused; the same module without the mistake must compile.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vh::engine::{case_seed, read_replay, write_evidence, write_replay, Ctx, RunInfo, Src, Stats};
use vh::macrogen::{bad_case, conflicts, par_case, told_case, tok_case, Bad, Case, Told};

const WORK: &str = "/verif/work/macros";
const TARGET: &str = "/verif/target/repo-dependent/macros";

fn die(m: &str) -> ! {
    eprintln!("check error: {}", m);
    std::process::exit(3)
}

const CARGO: &str = r#"[package]
name = "cases"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
tokenizer = { path = "/repo/tokenizer" }
parser = { path = "/repo/parser" }
tokenizer_generator = { path = "/repo/tokenizer_generator" }
parser_generator = { path = "/repo/parser_generator" }
vh = { path = "/verif/harness" }

[profile.dev]
opt-level = 0
debug = 0
incremental = false

[profile.dev.package."*"]
opt-level = 1
debug-assertions = true

[profile.dev.build-override]
opt-level = 1
"#;

/// One module: its number and text.
type Module = (usize, String);

/// Writes the package: programs of several modules each. `run`: they have a `run` function to call.
fn lay(programs: &[Vec<Module>], run: bool) {
    let _ = std::fs::remove_dir_all(format!("{}/src", WORK));
    std::fs::create_dir_all(format!("{}/src/bin", WORK)).unwrap_or_else(|e| die(&format!("cannot write {}: {}", WORK, e)));
    std::fs::write(format!("{}/Cargo.toml", WORK), CARGO).unwrap();
    std::fs::copy("/verif/harness/macros.lock", format!("{}/Cargo.lock", WORK)).unwrap_or_else(|e| die(&format!("no lock file: {}", e)));
    for (b, ms) in programs.iter().enumerate() {
        let dir = format!("{}/src/bin/b{}", WORK, b);
        std::fs::create_dir_all(&dir).unwrap();
        let mut main = String::from("#![allow(unused)]\n");
        for (i, text) in ms {
            main.push_str(&format!("mod c{};\n", i));
            std::fs::write(format!("{}/c{}.rs", dir, i), text).unwrap();
        }
        if run {
            main.push_str(&format!("fn main() {{\n    vh::macrorun::main(&[{}])\n}}\n", ms.iter().map(|(i, _)| format!("({}, c{}::run)", i, i)).collect::<Vec<_>>().join(", ")));
        } else {
            main.push_str("fn main() {}\n");
        }
        std::fs::write(format!("{}/main.rs", dir), main).unwrap();
    }
}

struct Built {
    /// errors by module
    errors: BTreeMap<usize, String>,
    /// programs with errors
    broken: BTreeSet<usize>,
}

/// Builds or checks the package.
fn cargo(verb: &str) -> Built {
    let out = Command::new("cargo")
        .args([verb, "--offline", "--bins", "--keep-going", "--message-format=json"])
        .current_dir(WORK)
        .env("CARGO_TARGET_DIR", TARGET)
        .stdin(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .unwrap_or_else(|e| die(&format!("cargo: {}", e)));
    let mut b = Built { errors: BTreeMap::new(), broken: BTreeSet::new() };
    let text = String::from_utf8_lossy(&out.stdout);
    let mut own = 0;
    for line in text.lines() {
        if !line.contains("\"reason\":\"compiler-message\"") || !line.contains("\"level\":\"error\"") {
            continue;
        }
        if !line.contains("/work/macros#") && !line.contains("\"name\":\"b") {
            continue;
        }
        own += 1;
        // spans name files as src/bin/bN/cM.rs
        let mut at = 0;
        let rendered = line.find("\"rendered\":\"").map(|p| line[p + 12..].chars().take(700).collect::<String>()).unwrap_or_default();
        while let Some(p) = line[at..].find("src/bin/b") {
            at += p + 9;
            let rest = &line[at..];
            let prog: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
            let Ok(prog) = prog.parse::<usize>() else { continue };
            b.broken.insert(prog);
            if let Some(r) = rest[prog.to_string().len()..].strip_prefix("/c") {
                let m: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(m) = m.parse::<usize>() {
                    b.errors.entry(m).or_insert_with(|| rendered.clone());
                }
            }
        }
    }
    if !out.status.success() && own == 0 {
        eprintln!("{}", String::from_utf8_lossy(&out.stderr).lines().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("\n"));
        eprintln!("check error: the crates of /repo or the harness do not build");
        std::process::exit(2);
    }
    b
}

#[derive(Clone, Debug)]
enum Outcome {
    Pass(u64, bool),
    Fail(String),
}

/// Runs the programs; the modules not reported are those of programs that were not built.
fn execute(programs: usize) -> BTreeMap<usize, Outcome> {
    let mut out = BTreeMap::new();
    let hs: Vec<_> = (0..programs)
        .map(|b| {
            std::thread::spawn(move || {
                let exe = format!("{}/debug/b{}", TARGET, b);
                let mut c = Command::new("setpriv");
                c.args(["--pdeathsig", "KILL", &exe]);
                let mut c = if std::path::Path::new("/usr/bin/setpriv").exists() { c } else { Command::new(&exe) };
                c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
                let Ok(mut child) = c.spawn() else { return (b, String::new(), false) };
                let mut so = child.stdout.take().unwrap();
                let reader = std::thread::spawn(move || {
                    let mut s = Vec::new();
                    let _ = so.read_to_end(&mut s);
                    String::from_utf8_lossy(&s).into_owned()
                });
                let started = Instant::now();
                let mut late = false;
                loop {
                    match child.try_wait() {
                        Ok(Some(_)) => break,
                        Ok(None) if started.elapsed() > Duration::from_secs(240) => {
                            late = true;
                            let _ = child.kill();
                            let _ = child.wait();
                            break;
                        }
                        _ => std::thread::sleep(Duration::from_millis(20)),
                    }
                }
                (b, reader.join().unwrap_or_default(), late)
            })
        })
        .collect();
    for h in hs {
        let (_, text, late) = h.join().unwrap();
        let mut open = None;
        for l in text.lines() {
            let mut w = l.splitn(3, ' ');
            match (w.next(), w.next().and_then(|x| x.parse::<usize>().ok())) {
                (Some("START"), Some(i)) => open = Some(i),
                (Some("PASS"), Some(i)) => {
                    let rest = w.next().unwrap_or("");
                    let mut r = rest.split(' ');
                    let n = r.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    out.insert(i, Outcome::Pass(n, r.next() == Some("1")));
                    open = None;
                }
                (Some("FAIL"), Some(i)) => {
                    out.insert(i, Outcome::Fail(w.next().unwrap_or("").replace("\\n", "\n").replace("\\\\", "\\")));
                    open = None;
                }
                _ => {}
            }
        }
        if let Some(i) = open {
            out.insert(i, Outcome::Fail(if late { "the program did not end in 240 s".into() } else { "the program was ended by a signal or abort".into() }));
        }
    }
    out
}

/// Splits modules over programs, round robin.
fn spread(ms: Vec<Module>, programs: usize) -> Vec<Vec<Module>> {
    let n = programs.min(ms.len()).max(1);
    let mut v: Vec<Vec<Module>> = vec![Vec::new(); n];
    for (k, m) in ms.into_iter().enumerate() {
        v[k % n].push(m);
    }
    v
}

const PROGRAMS: usize = 16;

/// Outcome of every case of a batch of C07 or C20.
fn decide(cases: &[Case]) -> Vec<Outcome> {
    let programs = spread(cases.iter().enumerate().map(|(i, c)| (i, c.with_macro.clone())).collect(), PROGRAMS);
    lay(&programs, true);
    let built = cargo("build");
    let mut out: Vec<Option<Outcome>> = vec![None; cases.len()];
    let good: Vec<usize> = (0..programs.len()).filter(|b| !built.broken.contains(b)).collect();
    for (i, o) in execute(programs.len()) {
        if good.iter().any(|b| programs[*b].iter().any(|m| m.0 == i)) {
            out[i] = Some(o);
        }
    }
    if !built.broken.is_empty() {
        // which case, and is it the macro? each suspect alone, with the macro and without
        let suspects: Vec<usize> = built.errors.keys().copied().take(12).collect();
        if suspects.is_empty() {
            die("a generated program does not compile, and no case is to blame");
        }
        let mut p: Vec<Vec<Module>> = Vec::new();
        for s in &suspects {
            p.push(vec![(*s, cases[*s].with_macro.clone())]);
            p.push(vec![(*s, cases[*s].without.clone())]);
        }
        lay(&p, true);
        let again = cargo("build");
        for (k, s) in suspects.iter().enumerate() {
            if again.broken.contains(&(2 * k + 1)) {
                die(&format!("the run-time twin does not compile either:\n{}\n{}", cases[*s].desc, again.errors.get(s).cloned().unwrap_or_default()));
            }
            if again.broken.contains(&(2 * k)) {
                out[*s] = Some(Outcome::Fail(format!("the macro's output does not compile although its run-time twin does: {}", built.errors[s].replace("\\n", "\n"))));
            }
        }
    }
    // the rest were in a program that failed for another reason
    out.into_iter().map(|o| o.unwrap_or(Outcome::Pass(0, false))).collect()
}

/// Outcome of every case of a batch of C21.
fn decide_bad(cases: &[Bad]) -> Vec<Outcome> {
    let n = cases.len();
    let wrong: Vec<Module> = cases.iter().enumerate().map(|(i, c)| (i, c.wrong.clone())).collect();
    // the twins without the mistake: distinct ones only, as modules n..
    let right: Vec<Module> = cases.iter().enumerate().map(|(i, c)| (n + i, c.right.clone())).collect();
    let mut programs = spread(wrong, PROGRAMS / 2);
    let first_right = programs.len();
    programs.extend(spread(right, PROGRAMS / 2));
    lay(&programs, false);
    let b = cargo("check");
    let mut out: Vec<Outcome> = (0..n).map(|_| Outcome::Pass(2, true)).collect();
    // an error in a right module, or none in a wrong one: decide each alone
    let accepted: Vec<usize> = (0..n).filter(|i| !b.errors.contains_key(i)).collect();
    let refused: Vec<usize> = (0..n).filter(|i| b.errors.contains_key(&(n + i))).collect();
    if b.broken.iter().any(|p| *p >= first_right) && refused.is_empty() {
        die("a correct program does not compile, and no case is to blame");
    }
    let accepted = &accepted[..accepted.len().min(24)];
    let refused = &refused[..refused.len().min(12)];
    if accepted.is_empty() && refused.is_empty() {
        return out;
    }
    let mut p: Vec<Vec<Module>> = Vec::new();
    for i in accepted {
        p.push(vec![(*i, cases[*i].wrong.clone())]);
    }
    for i in refused {
        p.push(vec![(*i, cases[*i].right.clone())]);
    }
    lay(&p, false);
    let again = cargo("check");
    for (k, i) in accepted.iter().enumerate() {
        if !again.broken.contains(&k) {
            out[*i] = Outcome::Fail("the ill-formed invocation compiles".into());
        }
    }
    for (k, i) in refused.iter().enumerate() {
        if again.broken.contains(&(accepted.len() + k)) {
            out[*i] = Outcome::Fail(format!("the invocation without the mistake does not compile: {}", again.errors.get(i).cloned().unwrap_or_default().replace("\\n", "\n")));
        }
    }
    out
}

/// Where cargo put the crates that modules use: `name=path`.
fn externs() -> Vec<String> {
    lay(&[vec![(0, "pub fn run() {}\n".into())]], false);
    let out = Command::new("cargo")
        .args(["check", "--offline", "--bins", "--verbose"])
        .current_dir(WORK)
        .env("CARGO_TARGET_DIR", TARGET)
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| die(&format!("cargo: {}", e)));
    if !out.status.success() {
        eprintln!("{}", String::from_utf8_lossy(&out.stderr));
        eprintln!("check error: the crates of /repo or the harness do not build");
        std::process::exit(2);
    }
    // the compiler's command line for the one program
    let text = String::from_utf8_lossy(&out.stderr);
    let line = text.lines().find(|l| l.contains("--crate-name b0 ")).unwrap_or_else(|| die("cargo does not show how it compiles"));
    let words: Vec<&str> = line.split_whitespace().collect();
    words.windows(2).filter(|w| w[0] == "--extern").map(|w| w[1].trim_matches(|c| c == '\'' || c == '`').to_string()).collect()
}

/// Outcome of every case of a batch of C28: each module is compiled alone, and what the compiler prints is looked at.
fn decide_told(cases: &[Told]) -> Vec<Outcome> {
    static EXTERNS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let externs = EXTERNS.get_or_init(externs);
    let dir = format!("{}/alone", WORK);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("cannot write {}: {}", dir, e)));
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Vec<std::sync::Mutex<Option<Outcome>>> = cases.iter().map(|_| Default::default()).collect();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(c) = cases.get(i) else { return };
                let compile = |text: &str| {
                    let file = format!("{}/c{}.rs", dir, i);
                    std::fs::write(&file, text).unwrap();
                    let root = format!("{}/root{}.rs", dir, i);
                    std::fs::write(&root, format!("#![allow(unused)]\n#[path = \"c{}.rs\"]\npub mod c;\n", i)).unwrap();
                    let mut cmd = Command::new("rustc");
                    cmd.args(["--edition", "2021", "--crate-type", "lib", "--crate-name", &format!("c{}", i), "--emit", "metadata", "--cap-lints", "allow", "--out-dir", &dir, "-L", &format!("dependency={}/debug/deps", TARGET)]);
                    for e in externs {
                        cmd.args(["--extern", e]);
                    }
                    let r = cmd.arg(&root).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).output().unwrap_or_else(|e| die(&format!("rustc: {}", e)));
                    (r.status.success(), format!("{}\n{}", String::from_utf8_lossy(&r.stdout), String::from_utf8_lossy(&r.stderr)))
                };
                let (compiles, said) = compile(&c.module);
                let o = if !compiles {
                    let (twin, said_of_twin) = compile(&c.without);
                    if !twin {
                        die(&format!("the run-time twin does not compile either:\n{}\n{}", c.desc, said_of_twin));
                    }
                    Outcome::Fail(format!("the invocation does not compile: {}", said.chars().take(1500).collect::<String>()))
                } else {
                    let told = conflicts(&said);
                    // in some other wording, all the numbers have to be there
                    let words = said.to_lowercase();
                    let reworded = told.is_empty() && (words.contains("conflict") || words.contains("warning")) && c.conflicts.iter().flat_map(|x| x.split(|d: char| !d.is_ascii_digit())).all(|n| said.contains(n));
                    if told == c.conflicts || reworded && !c.conflicts.is_empty() {
                        Outcome::Pass(1, !c.conflicts.is_empty())
                    } else {
                        Outcome::Fail(format!("the builder reports {:?}\nthe compiler's output names {:?}:\n{}", c.conflicts, told, said.chars().take(1500).collect::<String>()))
                    }
                };
                *out[i].lock().unwrap() = Some(o);
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    out.into_iter().map(|o| o.into_inner().unwrap().unwrap()).collect()
}

struct One {
    tape: Vec<u64>,
    desc: String,
    labels: Vec<&'static str>,
    outcome: Outcome,
}

fn batch(id: &str, srcs: Vec<Src>) -> Vec<One> {
    if id == "C21" {
        let mut v = Vec::new();
        let mut cases = Vec::new();
        for mut s in srcs {
            if let Some(c) = bad_case(&mut s) {
                v.push((s.rec, c.desc.clone(), vec![c.mistake]));
                cases.push(c);
            }
        }
        if cases.is_empty() {
            return vec![];
        }
        let o = decide_bad(&cases);
        v.into_iter().zip(o).map(|((tape, desc, labels), outcome)| One { tape, desc, labels, outcome }).collect()
    } else if id == "C28" {
        let mut v = Vec::new();
        let mut cases = Vec::new();
        for mut s in srcs {
            let c = told_case(&mut s);
            v.push((s.rec, c.desc.clone(), c.labels.clone()));
            cases.push(c);
        }
        let o = decide_told(&cases);
        v.into_iter().zip(o).map(|((tape, desc, labels), outcome)| One { tape, desc, labels, outcome }).collect()
    } else {
        let mut v = Vec::new();
        let mut cases = Vec::new();
        for mut s in srcs {
            let c = if id == "C07" { tok_case(&mut s) } else { par_case(&mut s) };
            v.push((s.rec, c.desc.clone(), c.labels.clone()));
            cases.push(c);
        }
        let o = decide(&cases);
        v.into_iter().zip(o).map(|((tape, desc, labels), outcome)| One { tape, desc, labels, outcome }).collect()
    }
}

/// Shrinks by batches: all deletions and zeroings of a given size at once, the smallest failing one wins.
fn shrink(id: &str, one: One, until: Instant) -> One {
    let mut best = one;
    let mut size = (best.tape.len() / 2).max(1);
    while Instant::now() < until {
        let mut cand: Vec<Vec<u64>> = Vec::new();
        let mut i = 0;
        while i < best.tape.len() {
            let e = (i + size).min(best.tape.len());
            let mut t = best.tape.clone();
            t.drain(i..e);
            cand.push(t);
            if best.tape[i..e].iter().any(|x| *x != 0) {
                let mut t = best.tape.clone();
                t[i..e].iter_mut().for_each(|x| *x = 0);
                cand.push(t);
            }
            i += size;
        }
        let step = cand.len().div_ceil(48).max(1);
        let cand: Vec<Src> = cand.into_iter().step_by(step).map(Src::replay).collect();
        let mut better: Option<One> = None;
        for o in batch(id, cand) {
            if matches!(o.outcome, Outcome::Fail(_)) {
                let mut t = o.tape.clone();
                while t.last() == Some(&0) {
                    t.pop();
                }
                let o = One { tape: t, ..o };
                if (o.desc.len(), o.tape.len()) < better.as_ref().map_or((best.desc.len(), best.tape.len()), |b| (b.desc.len(), b.tape.len())) {
                    better = Some(o);
                }
            }
        }
        match better {
            Some(b) => {
                best = b;
                size = size.min((best.tape.len() / 2).max(1));
            }
            None if size == 1 => break,
            None => size = (size / 2).max(1),
        }
    }
    best
}

const C07: &str = "Random pattern lists (1-9 patterns, automata of at most 160, sometimes 900 transitions), five item types, raw and escaped literals, closures, blocks and function paths as actions, every visibility: a compiled tokenizer! invocation against the builder on about 460 inputs each (transition cover of the reference automaton, samples, damaged samples). Non-trivial: some input gives at least two tokens.";
const C20: &str = "Random grammars (conflict-free, with ERROR alternatives, with conflicts; up to 90 LR states), token and symbol enums of random order, shapes and payloads with variants the grammar does not use, identifier and quoted names (keywords of the macro, the same text both ways), declarations in any order, | alternatives, four styles of reducer patterns, five error types: a compiled parser! invocation against the run-time builder on 60-200 inputs each, also with a reducer call failing. Non-trivial: at least two sentences and one error.";
const C21: &str = "Random valid invocations of both macros, each with one mistake of 18 kinds put in; the compiler must refuse the one and accept the other. Patterns are ill-formed when the run-time builder refuses them. Non-trivial: every case.";

const C28: &str = "Random valid invocations of both macros, with and without conflicts, each compiled alone: the conflicts named in what the compiler prints (pairs of patterns, rules that lose to a shift, pairs of rules) are those the run-time builder reports. Non-trivial: there are conflicts.";

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let mut thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut cases = None;
    let mut file = None;
    let mut id = String::new();
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--seed" => {
                i += 1;
                seed = args[i].parse().unwrap();
            }
            "--thorough" => thorough = true,
            "--cases" => {
                i += 1;
                cases = Some(args[i].parse::<u64>().unwrap());
            }
            "--replay" => {
                i += 1;
                file = Some(args[i].clone());
            }
            x => id = x.to_string(),
        }
        i += 1;
    }
    vh::engine::install();
    let (id, rule, quick) = match id.as_str() {
        "C07" => ("C07", C07, 1536u64),
        "C20" => ("C20", C20, 800),
        "C21" => ("C21", C21, 1600),
        "C28" => ("C28", C28, 1000),
        _ => die("unknown property"),
    };
    if let Some(f) = file {
        let r = batch(id, vec![read_replay(id, &f)]);
        let Some(o) = r.into_iter().next() else { die("empty case") };
        println!("{}", o.desc);
        match o.outcome {
            Outcome::Fail(m) => {
                println!("{}\nVIOLATION property={} replay={}", m, id, f);
                std::process::exit(1);
            }
            _ => {
                println!("replay: property {} holds on this case", id);
                std::process::exit(0);
            }
        }
    }
    let started = Instant::now();
    let info = RunInfo { id, seed, tier: if thorough { "thorough" } else { "quick" }, rule, started, out_dir: std::env::var("VH_OUT").unwrap_or_else(|_| "/verif".into()) };
    let total = cases.unwrap_or(if thorough { quick * 40 } else { quick });
    let per = 400;
    let mut stats = Stats::default();
    let mut code = 0;
    let mut from = 0;
    while from < total && code == 0 {
        let to = (from + per).min(total);
        let ones = batch(id, (from..to).map(|k| Src::random(case_seed(id, seed, k))).collect());
        let mut fail = None;
        for (k, o) in ones.into_iter().enumerate() {
            let mut ctx = Ctx { desc: o.desc.clone(), labels: o.labels.clone(), ..Default::default() };
            match &o.outcome {
                Outcome::Pass(e, n) => {
                    ctx.evals = *e;
                    ctx.nontrivial = *n;
                }
                Outcome::Fail(_) => {
                    if fail.is_none() {
                        fail = Some((from + k as u64, o));
                    }
                }
            }
            stats.absorb(&ctx, from + k as u64);
        }
        if let Some((k, o)) = fail {
            let o = shrink(id, o, Instant::now() + Duration::from_secs(100));
            let Outcome::Fail(m) = &o.outcome else { unreachable!() };
            stats.violations = 1;
            let path = write_replay(&info, k, Some(&o.tape), m, &o.desc);
            println!("case {} (shrunk):\n{}\n{}", k, o.desc, m);
            println!("VIOLATION property={} replay={}", id, path);
            code = 1;
        }
        from = to;
    }
    stats.samples.sort_by_key(|s| s.0);
    stats.samples.truncate(3);
    write_evidence(&info, &stats, &["rustc and cargo report errors with the file they belong to", "declared names denote distinct kinds"]);
    println!("{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s", id, stats.cases, stats.evals, stats.nontrivial.len(), started.elapsed().as_secs_f64());
    std::process::exit(code)
}
