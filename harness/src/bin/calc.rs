//! C22: the example calculator, run as a program on generated sessions.
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use vh::engine::{CountingAlloc, Ctx, Prop, Src};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

const WORK: &str = "/verif/work/calc";
const TARGET: &str = "/verif/target/repo-dependent/calc";

fn exe() -> &'static str {
    static E: OnceLock<String> = OnceLock::new();
    E.get_or_init(|| {
        let toml = r#"[package]
name = "calc"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "calc"
path = "/repo/example/src/main.rs"

[dependencies]
tokenizer = { path = "/repo/tokenizer" }
parser = { path = "/repo/parser" }

[profile.release]
debug-assertions = true
overflow-checks = true
"#;
        std::fs::create_dir_all(WORK).unwrap();
        std::fs::write(format!("{}/Cargo.toml", WORK), toml).unwrap();
        std::fs::copy("/verif/harness/calc.lock", format!("{}/Cargo.lock", WORK)).unwrap();
        let o = Command::new("cargo").args(["build", "--release", "--offline", "--quiet"]).current_dir(WORK).env("CARGO_TARGET_DIR", TARGET).stdin(Stdio::null()).output().unwrap();
        if !o.status.success() {
            eprintln!("{}\ncheck error: the example does not build", String::from_utf8_lossy(&o.stderr));
            std::process::exit(2);
        }
        format!("{}/release/calc", TARGET)
    })
}

// ---------------------------------------------------------------- reference

#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    Num(f64),
    Op(char),
    Sqrt,
}

fn digits(c: &[char], mut i: usize) -> usize {
    while i < c.len() && c[i].is_ascii_digit() {
        i += 1;
    }
    i
}

/// Longest literal at i: digits with an optional point and more digits on at least one side, and an optional complete exponent.
fn literal(c: &[char], i: usize) -> Option<usize> {
    let a = digits(c, i);
    let mut end = a;
    if a < c.len() && c[a] == '.' {
        let b = digits(c, a + 1);
        if a > i || b > a + 1 {
            end = b;
        }
    }
    if end == i {
        return None;
    }
    if end < c.len() && (c[end] == 'e' || c[end] == 'E') {
        let mut k = end + 1;
        if k < c.len() && (c[k] == '+' || c[k] == '-') {
            k += 1;
        }
        let d = digits(c, k);
        if d > k {
            end = d;
        }
    }
    Some(end)
}

fn lex(line: &str) -> Vec<T> {
    let c: Vec<char> = line.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    while i < c.len() {
        if let Some(e) = literal(&c, i) {
            out.push(T::Num(c[i..e].iter().collect::<String>().parse().unwrap()));
            i = e;
        } else if "+-*/()".contains(c[i]) {
            out.push(T::Op(c[i]));
            i += 1;
        } else if c[i..].starts_with(&['s', 'q', 'r', 't']) {
            out.push(T::Sqrt);
            i += 4;
        } else {
            i += 1;
        }
    }
    out
}

struct P<'a> {
    t: &'a [T],
    i: usize,
}
impl P<'_> {
    fn op(&mut self, c: char) -> bool {
        let y = self.t.get(self.i) == Some(&T::Op(c));
        self.i += y as usize;
        y
    }
    fn num(&mut self) -> Option<f64> {
        match self.t.get(self.i) {
            Some(T::Num(x)) => {
                self.i += 1;
                Some(*x)
            }
            _ => None,
        }
    }
    fn sum(&mut self) -> Option<f64> {
        let mut a = self.product()?;
        loop {
            if self.op('+') {
                a += self.product()?;
            } else if self.op('-') {
                a -= self.product()?;
            } else {
                return Some(a);
            }
        }
    }
    fn product(&mut self) -> Option<f64> {
        let mut a = self.block()?;
        loop {
            if self.op('*') {
                a *= self.block()?;
            } else if self.op('/') {
                a /= self.block()?;
            } else {
                return Some(a);
            }
        }
    }
    fn block(&mut self) -> Option<f64> {
        if self.op('(') {
            let v = self.sum()?;
            return if self.op(')') { Some(v) } else { None };
        }
        if self.op('+') {
            return self.num();
        }
        if self.op('-') {
            return self.num().map(|x| -x);
        }
        if self.t.get(self.i) == Some(&T::Sqrt) {
            self.i += 1;
            return self.block().map(f64::sqrt);
        }
        self.num()
    }
}

fn eval(line: &str) -> Option<f64> {
    let t = lex(line);
    let mut p = P { t: &t, i: 0 };
    let v = p.sum()?;
    if p.i == t.len() {
        Some(v)
    } else {
        None
    }
}

// ---------------------------------------------------------------- generator

fn number(src: &mut Src) -> String {
    let d = |src: &mut Src, n: usize| (0..n).map(|_| (b'0' + src.n(10) as u8) as char).collect::<String>();
    let a = [1, 1, 2, 3, 17][src.n(5)];
    let mut s = match src.weighted(&[5, 2, 2, 2]) {
        0 => d(src, a),
        1 => format!("{}.", d(src, a)),
        2 => {
            let k = src.range(1, 4);
            let f = d(src, k);
            format!(".{}", f)
        }
        _ => {
            let i = d(src, a);
            let k = src.range(1, 5);
            format!("{}.{}", i, d(src, k))
        }
    };
    if src.chance(1, 5) {
        let e = src.range(1, 3);
        s = format!("{}{}{}{}", s, src.pick(&["e", "E"]), src.pick(&["", "+", "-"]), d(src, e));
    }
    s
}

fn expr(depth: usize, src: &mut Src, out: &mut Vec<String>) {
    // sum
    for k in 0..[1, 1, 2, 3][src.n(4)] {
        if k > 0 {
            out.push(src.pick(&["+", "-"]).to_string());
        }
        for k in 0..[1, 1, 2, 3][src.n(4)] {
            if k > 0 {
                out.push(src.pick(&["*", "/"]).to_string());
            }
            let mut w = if depth == 0 { 0 } else { src.weighted(&[5, 4]) };
            while src.chance(1, 8) {
                out.push("sqrt".into());
                w = w.max(src.n(2) * depth.min(1));
            }
            if w == 0 {
                if src.chance(1, 4) {
                    out.push(src.pick(&["+", "-"]).to_string());
                }
                out.push(number(src));
            } else {
                out.push("(".into());
                expr(depth - 1, src, out);
                out.push(")".into());
            }
        }
    }
}

fn line(src: &mut Src, ctx: &mut Ctx) -> String {
    let mut v = Vec::new();
    match src.weighted(&[10, 1, 1]) {
        0 => {
            let d = src.weighted(&[2, 4, 4, 2]);
            expr(d, src, &mut v)
        }
        1 => {
            // a long flat one
            ctx.label("long expression");
            for k in 0..src.range(20, 200) {
                if k > 0 {
                    v.push(src.pick(&["+", "-", "*", "/"]).to_string());
                }
                v.push(number(src));
            }
        }
        _ => {
            // deeply nested
            ctx.label("deep nesting");
            let n = src.range(5, 300);
            for _ in 0..n {
                if src.chance(1, 5) {
                    v.push("sqrt".into());
                }
                v.push("(".into());
                if src.chance(1, 4) {
                    v.push(number(src));
                    v.push(src.pick(&["+", "-", "*", "/"]).to_string());
                }
            }
            v.push(number(src));
            for _ in 0..n {
                v.push(")".into());
            }
        }
    }
    // damage
    if src.chance(1, 3) {
        for _ in 0..src.range(1, 2) {
            let i = src.n(v.len() + 1);
            match src.n(4) {
                0 if i < v.len() => {
                    v.remove(i);
                }
                1 if i < v.len() => {
                    let x = v[i].clone();
                    v.insert(i, x);
                }
                2 if v.len() > 1 => {
                    let j = src.n(v.len());
                    let i = i.min(v.len() - 1);
                    v.swap(i, j);
                }
                _ => v.insert(i, src.pick(&["+", "-", "*", "/", "(", ")", "sqrt", "1", ".", "e", "1e", "e5", "sqr", "sqrtsqrt", "qrt"]).to_string()),
            }
        }
    }
    let mut s = String::new();
    let junk = src.weighted(&[4, 3, 2]);
    for x in v {
        let gap = match junk {
            0 => src.n(2),
            1 => src.n(4),
            _ => src.n(6),
        };
        for _ in 0..gap.saturating_sub(if junk == 0 { 0 } else { 1 }) {
            if junk < 2 {
                s.push(' ');
            } else {
                s.push(*src.pick(&[' ', '\t', 'x', '=', '_', 'e', 's', '.', ',', '日', '\u{0}', '\u{85}', '\u{2028}', 'é', '٣', '\u{1f600}', '\r', 'E', 't', '^', '%', '²', '−', '×', '\u{10ffff}', '\u{7f}']));
            }
        }
        s.push_str(&x);
    }
    if src.chance(1, 25) {
        s = (0..src.n(12)).map(|_| *src.pick(&['1', '0', '.', 'e', 'E', '+', '-', '*', '/', '(', ')', 's', 'q', 'r', 't', ' ', '9'])).collect();
    }
    s.replace('\n', " ")
}

/// What the known finding prints for ever after the end of input.
const EOF_ANSWER: &str = "RecoveryRuleNotFound";
static ENDLESS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn known(_: &str) -> (Vec<String>, Vec<(String, String)>) {
    let v: Vec<String> = if ENDLESS.load(std::sync::atomic::Ordering::SeqCst) { vec!["endless-at-end-of-input: once its input ends the example calculator prints RecoveryRuleNotFound for ever instead of ending".into()] } else { vec![] };
    let shown = format!("[{}]", v.iter().map(|o| vh::engine::jstr(o)).collect::<Vec<_>>().join(", "));
    (v, vec![("known_findings_shown".into(), shown)])
}

fn c22(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = src.range(0, 24);
    let lines: Vec<String> = (0..n).map(|_| line(src, ctx)).collect();
    let mut text = lines.join("\n");
    // the last line may lack its newline, but an empty one without it is no line
    if n > 0 && !(src.chance(1, 4) && !lines[n - 1].is_empty()) {
        text.push('\n');
    } else if n > 0 {
        ctx.label("no newline at the end");
    }
    ctx.desc = text.clone();
    let mut c = Command::new(exe());
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            let r = libc::rlimit { rlim_cur: 20, rlim_max: 25 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let r = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(|e| format!("cannot start the calculator: {}", e)).unwrap();
    let mut si = child.stdin.take().unwrap();
    let mut so = child.stdout.take().unwrap();
    let bytes = text.clone().into_bytes();
    let writer = std::thread::spawn(move || {
        let _ = si.write_all(&bytes);
    });
    // the answers, and a little more to see whether the program ends with its input
    let limit = (600 + 400 * n + text.len()) as u64;
    let mut got = Vec::new();
    let _ = so.by_ref().take(limit).read_to_end(&mut got);
    let flooded = got.len() as u64 == limit;
    if flooded {
        let _ = child.kill();
    }
    drop(so);
    let started = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            _ if started.elapsed() > Duration::from_secs(60) => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    let _ = writer.join();
    let got = String::from_utf8_lossy(&got).into_owned();
    let show = |got: &str| got.chars().take(600).collect::<String>();
    let mut out: Vec<&str> = got.lines().collect();
    if out.first().map_or(false, |l| l.starts_with("construct ")) {
        out.remove(0);
    }
    if flooded {
        // known finding: the end of input is answered for ever as if it were empty lines; any other flood is a violation
        out.pop();
        let tail = out.split_off(n.min(out.len()));
        if tail.is_empty() || tail.iter().any(|l| *l != EOF_ANSWER) {
            return Err(format!("the calculator does not stop printing:\n{}", show(&got)));
        }
        ENDLESS.store(true, std::sync::atomic::Ordering::SeqCst);
    } else if !status.map_or(false, |s| s.success()) {
        return Err(format!("the calculator ended with {:?} after printing:\n{}", status, show(&got)));
    }
    let mut values = 0;
    for (i, l) in lines.iter().enumerate() {
        ctx.evals += 1;
        let want = eval(l);
        let Some(o) = out.get(i) else { return Err(format!("{} answers for {} lines:\n{}", out.len(), n, show(&got))) };
        match want {
            Some(v) => {
                values += 1;
                ctx.label(if v.is_nan() { "value NaN" } else if v.is_infinite() { "value infinite" } else { "finite value" });
                if *o != format!("= {}", v) {
                    return Err(format!("line {:?}: expected \"= {}\", got {:?}", l, v, o));
                }
            }
            None => {
                ctx.label("error line");
                if o.starts_with('=') || o.is_empty() {
                    return Err(format!("line {:?} is not an expression, got {:?}", l, o));
                }
            }
        }
    }
    if out.len() != n {
        return Err(format!("{} answers for {} lines:\n{}", out.len(), n, show(&got)));
    }
    ctx.nontrivial = values >= 2 && values < n;
    Ok(())
}

fn main() {
    exe();
    let props = [Prop {
        id: "C22",
        rule: "Sessions of 0-24 lines given to the example program: rendered random expressions (literals in every notation, signs, nesting up to 300, up to 200 operands), damaged ones, random strings over the alphabet, ignored characters in between, with and without a final newline; answers compared with an independent evaluator. Non-trivial: at least two values and one error in the session.",
        assumptions: &["input lines are valid UTF-8"],
        quick: 12000,
        thorough: 300000,
        run: c22,
    }];
    vh::cli::main(&props, known)
}
