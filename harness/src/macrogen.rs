//! Source text of programs that use the macros, with run-time twins, and of ill-formed invocations.
use crate::engine::Src;
use crate::gram::{self, Grammar, Lr, S};
use crate::re::{self, Dfa, Gen};
use std::collections::BTreeSet;
use std::fmt::Write as _;

pub struct Case {
    /// module text with the macro invocation
    pub with_macro: String,
    /// the same without it: the run-time twin stands in
    pub without: String,
    pub desc: String,
    pub labels: Vec<&'static str>,
}

fn lit(s: &str, src: &mut Src) -> String {
    let raw_ok = !s.contains('\r') && !s.chars().any(|c| c.is_control() && c != '\n' && c != '\t' || ('\u{202a}'..='\u{202e}').contains(&c) || ('\u{2066}'..='\u{2069}').contains(&c));
    match src.n(3) {
        1 if raw_ok && !s.contains('"') => format!("r\"{}\"", s),
        2 if raw_ok && !s.contains("\"#") => format!("r#\"{}\"#", s),
        _ => format!("{:?}", s),
    }
}

// ---------------------------------------------------------------- tokenizer!

const ITEMS: &[(&str, &str, &str)] = &[
    ("char", "|c, _| c", "|c| *c"),
    ("(char, usize)", "|c, i| (c, i)", "|t| t.0"),
    ("vh::sut::Item", "|c, i| vh::sut::Item { c, id: i }", "|t| t.c"),
    ("(usize, Option<char>)", "|c, i| (i, Some(c))", "|t| t.1.unwrap()"),
    ("Box<(u8, char)>", "|c, i| Box::new((i as u8, c))", "|t| t.1"),
];

/// Where the invocation stands: in the module that uses the function, or two modules further in,
/// where the declared visibility decides who can name the function.
#[derive(Clone, Copy, PartialEq)]
pub enum Place {
    Here,
    Within,
}

/// The text around an invocation, and the call of the generated function. A function declared
/// private, or `pub(super)`, must not be reachable from further out: there the same name, after a
/// glob import of the inner module, has to mean the local function, which has another type.
fn placed(place: Place, vis: &str, name: &str, ret: &str, invocation: &str) -> (String, String) {
    if place == Place::Here {
        return (invocation.to_string(), format!("{}()", name));
    }
    let vis = vis.trim();
    let via = if vis.is_empty() { "inner::got()".to_string() } else { format!("inner::{}()", name) };
    let mut m = format!(
        "mod w {{\nuse super::*;\npub mod inner {{\nuse super::*;\n{}pub fn got() -> {} {{ {}() }}\n}}\npub fn got() -> {} {{ {} }}\n}}\n",
        invocation, ret, name, ret, via
    );
    if vis == "pub" || vis == "pub(crate)" {
        return (m, format!("w::inner::{}()", name));
    }
    let _ = writeln!(m, "struct Hidden;\nfn {}() -> Hidden {{ Hidden }}\nfn hidden() -> Hidden {{ use w::inner::*; {}() }}", name, name);
    (m, "{ let _ = hidden(); w::got() }".into())
}

pub struct TokCase {
    pub pats: Vec<String>,
    pub item: usize,
    /// fn line, character, token, one per rule, closing brace
    pub lines: Vec<String>,
    pub name: String,
    pub seed: u64,
    pub place: Place,
    vis: &'static str,
    /// functions of the user's, for these patterns
    helpers: Vec<(&'static str, usize)>,
}

impl TokCase {
    pub fn invocation(&self) -> String {
        self.lines.iter().map(|l| format!("    {}\n", l)).collect()
    }
}

/// The invocation and the patterns of a tokenizer case.
pub fn tok_parts(src: &mut Src, limit: usize) -> (TokCase, Vec<&'static str>) {
    let mut labels = Vec::new();
    let seed = src.below(1 << 32);
    let fancy = src.chance(1, 3);
    let mut list = re::pattern_list(src, 9, fancy);
    if src.chance(1, 12) {
        let p = re::fan(src);
        let h = re::parse(&p).unwrap();
        list = vec![(p, h)];
    }
    let (mut cap, mut limit) = (150, limit);
    if src.chance(1, 25) {
        list = re::scaled(src);
        list.truncate(80);
        (cap, limit) = (400, limit.max(1500));
        labels.push("large in one direction");
    } else if let Some(mut l) = src.chance(1, 15).then(|| re::sized(src)).flatten() {
        l.truncate(150);
        list = l;
        (cap, limit) = (400, limit.max(1500));
        labels.push("as large as a number of the code");
    } else if src.chance(1, 10) {
        // the empty pattern and friends: whatever the builder makes of them, the macro makes the same
        let mut g = Gen::new(re::theme(src), false, true);
        list.push(g.good(20, src));
    }
    if src.chance(1, 8) && list.len() > 1 {
        let d = list[0].clone();
        list.push(d);
        labels.push("a pattern given twice");
    }
    loop {
        let h: Vec<_> = list.iter().map(|l| l.1.clone()).collect();
        // nested repetitions cost the builder much more than they cost the reference automaton
        if let Some(d) = Dfa::new(&h, true, cap) {
            if d.trans.iter().map(|t| t.len()).sum::<usize>() <= limit {
                break;
            }
        }
        list.pop();
    }
    let mut pats: Vec<String> = list.into_iter().map(|l| l.0).collect();
    if pats.is_empty() && !src.chance(1, 30) {
        pats.push("[a-c]+d".into());
    }
    if pats.is_empty() {
        labels.push("no patterns");
    }
    let item = src.n(ITEMS.len());
    let ty = ITEMS[item].0;
    let vis = *src.pick(&["", "pub ", "pub(crate) ", "pub(super) "]);
    let name = src.pick(&["mk", "get_tokenizer", "tokenizer", "goto", "token", "r#fn"]).to_string();
    let tokty = src.pick(&["Tok<{T}>", "(usize, String, Vec<{T}>)", "vh::macrorun::Tok<{T}>", "Alias"]).replace("{T}", ty);
    let mut lines = vec![format!("{}fn {}() -> DFATokenizer {{", vis, name), format!("character {};", ty), format!("token {};", tokty)];
    let mut helpers = Vec::new();
    let mut captured = vec!["end", "goto", "enum_maker", "map", "begin"];
    src.shuffle(&mut captured);
    for (i, p) in pats.iter().enumerate() {
        let l = lit(p, src);
        let act = match src.n(6) {
            0 => format!("|s, v| ({}, s.to_string(), v)", i),
            1 => format!("|s: &str, v: Vec<{}>| -> Alias {{ let i = {}; (i, s.to_owned(), v) }}", ty, i),
            2 => format!("act{}", i),
            3 => format!("{{ let k = {}usize; move |s: &str, v| (k, String::from(s), v) }}", i),
            4 if captured.iter().any(|n| *n != name) => {
                let k = captured.iter().position(|n| *n != name).unwrap();
                let n = captured.remove(k);
                helpers.push((n, i));
                labels.push("user functions named like the macro's own variables");
                if src.chance(1, 2) { n.to_string() } else { format!("|s, v| {}(s, v)", n) }
            }
            _ => format!("|text, items| {{ let n = items.len(); assert!(n == text.chars().count()); ({}, text.to_string(), items) }}", i),
        };
        let last = i + 1 == pats.len();
        let end = if last && src.chance(1, 2) { "" } else { ";" };
        lines.push(format!("{}: {}{}", l, act, end));
    }
    lines.push("}".into());
    let place = if src.chance(1, 3) { Place::Within } else { Place::Here };
    if place == Place::Within {
        labels.push("visibility observed from outside");
    }
    (TokCase { pats, item, lines, name, seed, place, vis, helpers }, labels)
}

pub fn tok_module(c: &TokCase, invocation: Option<&str>, by_use: bool) -> String {
    let (ty, mk, read) = ITEMS[c.item];
    let mut m = String::new();
    m.push_str("#![allow(unused, non_snake_case, private_interfaces)]\nuse vh::macrorun::{tok_case, Tok, R};\n");
    let _ = writeln!(m, "type Alias = Tok<{}>;", ty);
    for i in 0..c.pats.len() {
        let _ = writeln!(m, "fn act{}(s: &str, v: Vec<{}>) -> Alias {{ ({}, s.to_string(), v) }}", i, ty, i);
    }
    for (n, i) in &c.helpers {
        let _ = writeln!(m, "fn {}(s: &str, v: Vec<{}>) -> Alias {{ act{}(s, v) }}", n, ty, i);
    }
    let mk_fn = if let Some(inv) = invocation {
        let text = if by_use {
            format!("use tokenizer_generator::tokenizer as build_it;\nbuild_it! {{\n{}}}\n", inv)
        } else {
            format!("tokenizer_generator::tokenizer! {{\n{}}}\n", inv)
        };
        let (text, call) = placed(c.place, c.vis, &c.name, &format!("tokenizer::DFATokenizer<Alias, {}>", ty), &text);
        m.push_str(&text);
        call
    } else {
        "twin()".to_string()
    };
    let _ = writeln!(m, "fn twin() -> tokenizer::DFATokenizer<Alias, {}> {{\n    let b = tokenizer::DFATokenizer::<Alias, {}>::builder();", ty, ty);
    for (i, p) in c.pats.iter().enumerate() {
        let _ = writeln!(m, "    let b = b.pattern({:?}, act{});", p, i);
    }
    m.push_str("    b.build().expect(\"run-time build\").0\n}\n");
    let pats = c.pats.iter().map(|p| format!("{:?}", p)).collect::<Vec<_>>().join(", ");
    let _ = writeln!(m, "pub fn run() -> R {{\n    tok_case::<{}>({}, &[{}], {}, twin(), {}, {})\n}}", ty, c.seed, pats, mk_fn, mk, read);
    m
}

pub fn tok_case(src: &mut Src) -> Case {
    let limit = if src.chance(1, 12) { 900 } else { 160 };
    let (c, labels) = tok_parts(src, limit);
    let by_use = src.chance(1, 4);
    Case { with_macro: tok_module(&c, Some(&c.invocation()), by_use), without: tok_module(&c, None, by_use), desc: format!("tokenizer! {{\n{}}}", c.invocation()), labels }
}

// ---------------------------------------------------------------- parser!

/// One variant of a generated enum.
struct Variant {
    name: String,
    /// 0 unit, 1 tuple, 2 named field, 3 tuple with a second field
    shape: usize,
}

impl Variant {
    fn decl(&self, ty: &str) -> String {
        match self.shape {
            0 => self.name.clone(),
            1 => format!("{}({})", self.name, ty),
            2 => format!("{} {{ v: {} }}", self.name, ty),
            _ => format!("{}({}, Option<u8>)", self.name, ty),
        }
    }
    fn value(&self, v: &str) -> String {
        match self.shape {
            0 => self.name.clone(),
            1 => format!("{}({})", self.name, v),
            2 => format!("{} {{ v: {} }}", self.name, v),
            _ => format!("{}({}, None)", self.name, v),
        }
    }
    fn pattern(&self, v: &str) -> String {
        match self.shape {
            0 => self.name.clone(),
            1 => format!("{}({})", self.name, v),
            2 => format!("{} {{ v: {} }}", self.name, v),
            _ => format!("{}({}, _)", self.name, v),
        }
    }
}

#[derive(Clone)]
pub struct Keys {
    /// how terminal / non-terminal k is written in rules
    pub term: Vec<String>,
    pub non: Vec<String>,
}

pub struct ParCase {
    pub g: Grammar,
    pub keys: Keys,
    types: String,
    twin: String,
    pub seed: u64,
    pub name: String,
    pub head: String,
    /// declarations of tokens and symbols: (key, value), in the order written
    pub tokens: Vec<(String, String)>,
    pub symbols: Vec<(String, String)>,
    pub errty: String,
    pub place: Place,
    vis: &'static str,
    tk_path: &'static str,
    sy_path: &'static str,
    trailing: bool,
    /// (written with `|`, pattern => expression)
    pub rules: Vec<(bool, String)>,
    pub labels: Vec<&'static str>,
}

fn gram_lit(g: &Grammar) -> String {
    let rules = g
        .rules
        .iter()
        .map(|(l, b)| format!("({}, vec![{}])", l, b.iter().map(|s| match s {
            S::N(n) => format!("S::N({})", n),
            S::T(t) => format!("S::T({})", t),
            S::E => "S::E".into(),
        }).collect::<Vec<_>>().join(", ")))
        .collect::<Vec<_>>()
        .join(", ");
    format!("Grammar {{ nn: {}, nt: {}, start: {}, rules: vec![{}] }}", g.nn, g.nt, g.start, rules)
}

const WORDS: &[&str] = &["Number", "Plus", "token", "symbol", "start", "errortype", "ERROR", "LR1Parser", "E", "T", "list", "tokens", "symbols", "rules", "value", "_x", "r#type", "fin", "x1", "Expr"];
const QUOTED: &[&str] = &["+", "*", "(", ")", "[", "]", "<", ">", "::=", "|", ":", "=>", ";", "", " ", "\"", "\\", "\n", "ERROR", "Number", "E", "if", "日本", "'", "a b", "{", "}", "#", "//", "r#type"];

pub fn par_parts(src: &mut Src, max_states: usize) -> ParCase {
    let mut labels = Vec::new();
    let seed = src.below(1 << 32);
    let mut found = None;
    let large = max_states > 90;
    // now and then more rules than fit into a byte
    let many = !large && max_states > 25 && src.chance(1, 60);
    let size = if many { Some(258 + src.n(20)) } else if !large && src.chance(1, 20) { crate::dict::cheap_size(45, 20, src) } else { None };
    for _ in 0..12 {
        let (g, lr) = match if size.is_some() { 2 } else if large { 2 } else { src.n(3) } {
            0 => gram::lr1(src, 3000),
            1 => match gram::lr1_errors(src, 3000) {
                Some((_, g, _, lr)) => (g, lr),
                None => continue,
            },
            _ => {
                let g = match size {
                    Some(n) if many => gram::alternatives(n, src),
                    Some(_) => gram::huge(size, src),
                    None if large && src.chance(3, 4) => gram::fan_out(src),
                    None => gram::grammar(src),
                };
                match Lr::new(&g, if large { 9000 } else { 3000 }) {
                    Some(lr) => (g, lr),
                    None => continue,
                }
            }
        };
        if many {
            labels.push("more than 256 rules");
        }
        if (many || lr.states() <= max_states) && (large || size.is_some() || (g.nt <= 20 && g.rules.len() <= 30)) {
            if large {
                labels.push("large");
            }
            if !lr.conflict_free {
                labels.push("with conflicts");
            }
            found = Some(g);
            break;
        }
    }
    let g = found.unwrap_or_else(|| Grammar { nn: 2, nt: 3, start: 0, rules: vec![(0, vec![S::N(0), S::T(1), S::N(1)]), (0, vec![S::N(1)]), (1, vec![S::T(0)]), (1, vec![S::T(2), S::N(1)]), (1, vec![S::E])] });
    if g.has_error() {
        labels.push("with ERROR");
    }
    if g.rules.iter().any(|r| r.1.is_empty()) {
        labels.push("with empty productions");
    }
    // enums: a permutation of the kinds, with strangers in between
    let extra_t = src.chance(1, 25).then(|| crate::dict::cheap_size(300, 60, src)).flatten().unwrap_or_else(|| 2 + src.n(3));
    let tn = g.nt + extra_t;
    let mut torder: Vec<usize> = (0..tn).collect();
    src.shuffle(&mut torder);
    let shape = |src: &mut Src| [1, 0, 2, 3][src.n(4)];
    let tvar: Vec<Variant> = (0..tn).map(|k| Variant { name: format!("{}{}", ["V", "T", "Num", "X"][k % 4], k), shape: shape(src) }).collect();
    let extra_s = src.chance(1, 25).then(|| crate::dict::cheap_size(300, 60, src)).flatten().unwrap_or_else(|| src.n(3));
    let sn = g.nn + extra_s;
    let mut sorder: Vec<usize> = (0..sn).collect();
    src.shuffle(&mut sorder);
    let svar: Vec<Variant> = (0..sn).map(|k| Variant { name: format!("{}{}", ["S", "N", "Expr", "T"][k % 4], k), shape: [1, 2, 3][src.n(3)] }).collect();
    let errs = ["Bang", "String", "Box<dyn std::error::Error + Send + Sync + 'static>", "vh::macrorun::Bang", "()"];
    let errty = src.pick(&errs).to_string();

    let mut types = String::new();
    let _ = writeln!(types, "#[derive(Debug, EnumIndex)]\npub enum Tk {{ {} }}", torder.iter().map(|k| tvar[*k].decl("usize")).collect::<Vec<_>>().join(", "));
    let _ = writeln!(types, "#[derive(Debug, EnumIndex)]\npub enum Sy {{ {} }}", sorder.iter().map(|k| svar[*k].decl("String")).collect::<Vec<_>>().join(", "));
    let _ = writeln!(types, "fn tok(k: u16, i: usize) -> Tk {{\n    match k {{");
    for k in 0..tn {
        let _ = writeln!(types, "        {} => Tk::{},", k, tvar[k].value("i"));
    }
    types.push_str("        _ => unreachable!(),\n    }\n}\n");
    types.push_str("fn t(x: &Tk) -> String { format!(\"{:?}\", x) }\nfn e(x: &[Tk]) -> String { format!(\"{:?}\", x) }\nfn n(x: &mut Sy) -> String {\n    match x {\n");
    for k in 0..sn {
        let _ = writeln!(types, "        Sy::{} => std::mem::take(v),", svar[k].pattern("v"));
    }
    types.push_str("    }\n}\n");
    let _ = writeln!(types, "fn sy(k: usize, v: String) -> Sy {{\n    match k {{");
    for k in 0..sn {
        let _ = writeln!(types, "        {} => Sy::{},", k, svar[k].value("v"));
    }
    types.push_str("        _ => unreachable!(),\n    }\n}\n");
    let _ = writeln!(types, "type Er = {};", errty);
    types.push_str("fn tokens() -> String { \"9\".into() }\n");
    types.push_str("fn fin(rule: usize, lhs: usize, parts: &[String]) -> Result<Sy, Er> { Ok(sy(lhs, reduce::<Er>(rule, parts)?)) }\n");
    types.push_str("fn all(rule: usize, lhs: usize, list: &mut [Symbol<&mut Sy, &Tk, &[Tk]>]) -> Result<Sy, Er> {\n    let parts: Vec<String> = list.iter_mut().map(|s| match s { Symbol::NonTerminal(x) => n(x), Symbol::Terminal(x) => t(x), Symbol::Error(x) => e(x) }).collect();\n    fin(rule, lhs, &parts)\n}\n");

    // names
    let mut used: Vec<String> = Vec::new();
    let name = |src: &mut Src, used: &mut Vec<String>, quoted: bool, k: usize| -> String {
        for _ in 0..6 {
            let s = if quoted {
                match src.n(3) {
                    0 => format!("q{}", k),
                    1 => src.pick(QUOTED).to_string(),
                    // the name of another token as text
                    _ => used.iter().rev().next().map(|u| u.trim_start_matches('"').trim_end_matches('"').to_string()).unwrap_or_default(),
                }
            } else if src.chance(1, 2) {
                format!("t{}", k)
            } else {
                match if src.chance(1, 6) { crate::dict::word(src) } else { None } {
                    Some(w) => w.to_string(),
                    None => src.pick(WORDS).to_string(),
                }
            };
            let key = if quoted { format!("{:?}", s) } else { s };
            if !used.contains(&key) {
                used.push(key.clone());
                return key;
            }
        }
        let key = if quoted { format!("\"zz{}\"", k) } else { format!("zz{}", k) };
        used.push(key.clone());
        key
    };
    let tkeys: Vec<String> = (0..tn).map(|k| {
        let q = src.chance(1, 2);
        name(src, &mut used, q, k)
    }).collect();
    let mut used = Vec::new();
    let skeys: Vec<String> = (0..sn).map(|k| name(src, &mut used, false, k)).collect();
    // declared: the terminals of the grammar and perhaps some strangers, in any order
    let mut decl: Vec<usize> = (0..g.nt).collect();
    for k in g.nt..tn {
        if src.chance(1, 3) {
            decl.push(k);
            labels.push("declared token used in no rule");
        }
    }
    src.shuffle(&mut decl);
    let payload = ["0", "7", "usize::MAX", "1 + 1"];
    let tokens: Vec<(String, String)> = decl.iter().map(|k| (tkeys[*k].clone(), tvar[*k].value(payload[src.n(4)]))).collect();
    let mut decl: Vec<usize> = (0..g.nn).collect();
    for k in g.nn..sn {
        if src.chance(1, 3) {
            decl.push(k);
        }
    }
    src.shuffle(&mut decl);
    let payload = ["String::new()", "\"x\".to_string()", "tokens()", "Default::default()"];
    let symbols: Vec<(String, String)> = decl.iter().map(|k| (skeys[*k].clone(), svar[*k].value(payload[src.n(4)]))).collect();
    let keys = Keys {
        term: tkeys.iter().map(|k| if k.starts_with('"') { k.clone() } else { format!("[{}]", k) }).collect(),
        non: skeys.iter().map(|k| format!("<{}>", k)).collect(),
    };

    // rules
    let mut captured = vec!["symbols", "action_table", "goto_table", "error_rules", "list", "value"];
    let mut rules = Vec::new();
    for (i, (l, body)) in g.rules.iter().enumerate() {
        let follow = i > 0 && g.rules[i - 1].0 == *l && src.chance(2, 3);
        if follow {
            labels.push("| alternatives");
        }
        let action = match src.n(4) {
            0 => format!("items => all({}, {}, items)", i, l),
            1 => {
                let p: Vec<String> = (0..body.len()).map(|k| format!("a{}", k)).collect();
                let e: Vec<String> = body.iter().zip(&p).map(|(s, a)| match s {
                    S::N(_) => format!("if let Symbol::NonTerminal(x) = {} {{ n(x) }} else {{ unreachable!() }}", a),
                    S::T(_) => format!("if let Symbol::Terminal(x) = {} {{ t(x) }} else {{ unreachable!() }}", a),
                    S::E => format!("if let Symbol::Error(x) = {} {{ e(x) }} else {{ unreachable!() }}", a),
                }).collect();
                format!("[{}] => {{ let parts: Vec<String> = vec![{}]; fin({}, {}, &parts) }}", p.join(", "), e.join(", "), i, l)
            }
            _ => {
                // patterns name the kinds expected, as a user's would; the reducer panics on any other
                let p: Vec<String> = body.iter().enumerate().map(|(k, s)| match s {
                    S::N(x) => format!("Symbol::NonTerminal(Sy::{})", svar[*x as usize].pattern(&format!("a{}", k))),
                    S::T(x) => format!("Symbol::Terminal(Tk::{})", tvar[*x as usize].pattern(&format!("a{}", k))),
                    S::E => format!("Symbol::Error(a{})", k),
                }).collect();
                let e: Vec<String> = body.iter().enumerate().map(|(k, s)| match s {
                    S::N(_) => format!("std::mem::take(a{})", k),
                    S::T(x) => {
                        let v = &tvar[*x as usize];
                        match v.shape {
                            0 => format!("{:?}.to_string()", v.name),
                            1 => format!("format!(\"{}({{}})\", a{})", v.name, k),
                            2 => format!("format!(\"{} {{{{ v: {{}} }}}}\", a{})", v.name, k),
                            _ => format!("format!(\"{}({{}}, None)\", a{})", v.name, k),
                        }
                    }
                    S::E => format!("e(a{})", k),
                }).collect();
                format!("[{}] => fin({}, {}, &[{}])", p.join(", "), i, l, e.join(", "))
            }
        };
        // the reducer reached through a function of the user's that is named like something the macro uses
        let action = if src.chance(1, 6) && !captured.is_empty() {
            let name = captured.remove(src.n(captured.len()));
            labels.push("user functions named like the macro's own variables");
            if action.contains("=> all(") {
                let _ = writeln!(types, "fn {}(rule: usize, lhs: usize, list: &mut [Symbol<&mut Sy, &Tk, &[Tk]>]) -> Result<Sy, Er> {{ all(rule, lhs, list) }}", name);
                action.replacen("=> all(", &format!("=> {}(", name), 1)
            } else {
                let _ = writeln!(types, "fn {}(rule: usize, lhs: usize, parts: &[String]) -> Result<Sy, Er> {{ fin(rule, lhs, parts) }}", name);
                action.replacen("fin(", &format!("{}(", name), 1)
            }
        } else {
            action
        };
        rules.push((follow, action));
    }

    let mut twin = String::from("fn twin() -> parser::LR1Parser<Sy, Tk, Er> {\n    let b = parser::Syntax::<Sy, Tk, Er>::builder();\n");
    for (i, (l, body)) in g.rules.iter().enumerate() {
        let ex: Vec<String> = body.iter().map(|s| match s {
            S::N(x) => format!("Symbol::NonTerminal(sy({}, String::new()))", x),
            S::T(x) => format!("Symbol::Terminal(tok({}, 0))", x),
            S::E => "Symbol::Error(())".into(),
        }).collect();
        let _ = writeln!(twin, "    let b = b.rule(parser::Rule::new(sy({}, String::new()), &[{}], |list| all({}, {}, list)));", l, ex.join(", "), i, l);
    }
    let _ = writeln!(twin, "    parser::LR1Parser::new(b.build(sy({}, String::new()))).0\n}}", g.start);
    let vis = *src.pick(&["", "pub ", "pub(crate) ", "pub(super) "]);
    let place = if src.chance(1, 3) { Place::Within } else { Place::Here };
    if place == Place::Within {
        labels.push("visibility observed from outside");
    }
    let name = src.pick(&["mk", "create_parser", "parser", "start", "rules"]).to_string();
    labels.sort();
    labels.dedup();
    let tk_path = *src.pick(&["Tk", "self::Tk", "TkAlias"]);
    let sy_path = *src.pick(&["Sy", "self::Sy", "SyAlias"]);
    let trailing = src.chance(1, 2);
    types.push_str("type TkAlias = Tk;\ntype SyAlias = Sy;\n");
    ParCase { place, vis, tk_path, sy_path, trailing, keys, types, twin, seed, head: format!("{}fn {}() -> LR1Parser", vis, name), name, tokens, symbols, errty, rules, g, labels }
}

impl ParCase {
    pub fn rule_text(&self, i: usize) -> String {
        let (l, body) = &self.g.rules[i];
        let head = if self.rules[i].0 { "|".to_string() } else { format!("{}::=", self.keys.non[*l as usize]) };
        let body: Vec<String> = body.iter().map(|s| match s {
            S::N(n) => self.keys.non[*n as usize].clone(),
            S::T(t) => self.keys.term[*t as usize].clone(),
            S::E => "ERROR".into(),
        }).collect();
        format!("{} {}: {};", head, body.join(" "), self.rules[i].1)
    }
    pub fn lines(&self) -> Vec<String> {
        let mut v = Vec::new();
        v.push(format!("{} {{", self.head));
        let list = |v: &mut Vec<String>, l: &[(String, String)]| {
            for (i, (k, x)) in l.iter().enumerate() {
                v.push(format!("{} = {}{}", k, x, if self.trailing || i + 1 < l.len() { "," } else { "" }));
            }
            v.push("}".into());
        };
        v.push(format!("token {} {{", self.tk_path));
        list(&mut v, &self.tokens);
        v.push(format!("symbol {} {{", self.sy_path));
        list(&mut v, &self.symbols);
        v.push(format!("errortype {};", self.errty));
        v.push(format!("start {};", self.keys.non[self.g.start as usize].trim_matches(|c| c == '<' || c == '>')));
        for i in 0..self.g.rules.len() {
            v.push(self.rule_text(i));
        }
        v.push("}".into());
        v
    }
    pub fn invocation(&self) -> String {
        self.lines().iter().map(|l| format!("    {}\n", l)).collect()
    }
    pub fn module(&self, invocation: Option<&str>) -> String {
        let mut m = String::from("#![allow(unused, unreachable_patterns, private_interfaces)]\nuse parser::enum_index_derive::EnumIndex;\nuse parser::{enum_index, Parse, Symbol};\nuse vh::gram::{Grammar, S};\nuse vh::macrorun::{par_case, reduce, Bang, R};\n");
        m.push_str(&self.types);
        m.push_str(&self.twin);
        let mk = if let Some(i) = invocation {
            let (text, call) = placed(self.place, self.vis, &self.name, "parser::LR1Parser<Sy, Tk, Er>", &format!("parser_generator::parser! {{\n{}}}\n", i));
            m.push_str(&text);
            call
        } else {
            "twin()".to_string()
        };
        let _ = write!(
            m,
            "pub fn run() -> R {{\n    let (a, b) = ({}, twin());\n    par_case({}, {}, &|w| format!(\"{{:?}}\", w.iter().map(|x| tok(x.0, x.1)).parse(&a)), &|w| format!(\"{{:?}}\", w.iter().map(|x| tok(x.0, x.1)).parse(&b)))\n}}\n",
            mk,
            self.seed,
            gram_lit(&self.g)
        );
        m
    }
}

pub fn par_case(src: &mut Src) -> Case {
    let max = if src.chance(1, 25) { 400 } else if src.chance(1, 10) { 90 } else { 30 };
    let c = par_parts(src, max);
    let inv = c.invocation();
    Case { with_macro: c.module(Some(&inv)), without: c.module(None), desc: format!("{}\nparser! {{\n{}}}", c.g.show(), inv), labels: c.labels.clone() }
}

// ---------------------------------------------------------------- conflicts, told at compile time

pub struct Told {
    pub module: String,
    /// the same without the macro
    pub without: String,
    pub desc: String,
    /// the conflicts the run-time builder reports
    pub conflicts: BTreeSet<String>,
    pub labels: Vec<&'static str>,
}

/// The conflicts that a text of warnings names, without the states, whose rendering is long.
pub fn conflicts(text: &str) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    let numbers = |s: &str, n: usize| -> Vec<usize> { s.split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).take(n).map(|w| w.parse().unwrap_or(usize::MAX)).collect() };
    for (p, _) in text.match_indices("EndConflict(") {
        let mut x = numbers(&text[p..], 2);
        x.sort();
        v.insert(format!("patterns {:?}", x));
    }
    for (p, _) in text.match_indices("reduce: ") {
        v.insert(format!("shift or rule {:?}", numbers(&text[p..], 1)));
    }
    for (p, _) in text.match_indices("actions: [") {
        let mut x = numbers(&text[p..], 2);
        x.sort();
        v.insert(format!("rules {:?}", x));
    }
    v
}

pub fn told_case(src: &mut Src) -> Told {
    if src.chance(1, 2) {
        let (c, mut labels) = tok_parts(src, 160);
        let inv = c.invocation();
        let by_use = src.chance(1, 4);
        labels.push("tokenizer!");
        let w = match crate::sut::build_ok::<char, _>(&c.pats) {
            Ok((_, w)) => w.join(" "),
            Err(e) => panic!("{}", e),
        };
        Told { module: tok_module(&c, Some(&inv), by_use), without: tok_module(&c, None, by_use), desc: format!("tokenizer! {{\n{}}}", inv), conflicts: conflicts(&w), labels }
    } else {
        let max = if src.chance(1, 25) { 200 } else { 40 };
        let want = src.chance(1, 2);
        let mut c = par_parts(src, max);
        for _ in 0..4 {
            if !want || c.labels.contains(&"with conflicts") {
                break;
            }
            c = par_parts(src, max);
        }
        let inv = c.invocation();
        let mut labels = c.labels.clone();
        labels.push("parser!");
        let w = match gram::make(&c.g, &gram::Route::plain(&c.g)) {
            Ok(s) => s.warnings.join(" "),
            Err(e) => panic!("{}", e),
        };
        Told { module: c.module(Some(&inv)), without: c.module(None), desc: format!("{}\nparser! {{\n{}}}", c.g.show(), inv), conflicts: conflicts(&w), labels }
    }
}

// ---------------------------------------------------------------- ill-formed invocations

pub struct Bad {
    /// module with the mistake, module without it
    pub wrong: String,
    pub right: String,
    pub desc: String,
    pub mistake: &'static str,
}

pub fn bad_case(src: &mut Src) -> Option<Bad> {
    if src.chance(2, 5) {
        bad_tok(src)
    } else {
        bad_par(src)
    }
}

/// A pattern the run-time builder refuses.
fn refused(src: &mut Src) -> Option<String> {
    const BAD: &[&str] = &["^", "$", "\\A", "\\z", "\\b", "\\B", "(?m:^)", "(?m:$)", "(?-u:\\b)", "(?-u:[a-z])", "(?-u:\\d)", "(?-u:.)", "(?-u:\\xff)", "(", "[", "a{2,1}", "*", "\\q", "(?<>a)", "[z-a]", "\\p{Nope}", "a**b(", "(?-u:\\x80)"];
    let mut g = Gen::new(re::theme(src), false, false);
    let bad = src.pick(BAD).to_string();
    let mut s = bad;
    for _ in 0..src.range(0, 3) {
        let o = g.good(15, src).0;
        s = match src.n(7) {
            0 => format!("{}(?:{})", s, o),
            1 => format!("(?:{}){}", o, s),
            2 => format!("(?:{})|(?:{})", o, s),
            3 => format!("(?:{})|(?:{})", s, o),
            4 => format!("(?:{})*", s),
            5 => format!("({})?", s),
            _ => format!("(?:{})+{}", o, s),
        };
    }
    match crate::sut::build::<char, _>(&[&s]) {
        Ok(crate::sut::Built::Refused(_)) => Some(s),
        _ => None,
    }
}

fn bad_tok(src: &mut Src) -> Option<Bad> {
    let (c, _) = tok_parts(src, 120);
    if c.pats.is_empty() {
        return None;
    }
    let right = tok_module(&c, Some(&c.invocation()), false);
    let mut lines = c.lines.clone();
    // 0: fn line, 1: character, 2: token, 3..: rules, last: }
    let (mistake, text) = match src.weighted(&[8, 2, 1, 1, 1, 1, 1]) {
        0 => {
            let p = refused(src)?;
            let at = 3 + src.n(c.pats.len() + 1);
            let at = at.min(lines.len() - 1);
            // the last rule may lack its semicolon
            if at == lines.len() - 1 && !lines[at - 1].ends_with(';') {
                lines[at - 1].push(';');
            }
            lines.insert(at, format!("{}: |s, v| (0, s.to_string(), v);", lit(&p, src)));
            ("pattern the builder refuses", lines.join("\n"))
        }
        1 => {
            lines[0] = lines[0].replacen("()", src.pick(&["(x: u8)", "(self)", "(_: usize, y: &str)"]), 1);
            ("function with parameters", lines.join("\n"))
        }
        2 => {
            lines.remove(1);
            ("missing item type", lines.join("\n"))
        }
        3 => {
            lines.remove(2);
            ("missing token type", lines.join("\n"))
        }
        4 => {
            lines[0] = lines[0].replacen("DFATokenizer", src.pick(&["NFATokenizer", "Tokenizer", "dfatokenizer"]), 1);
            ("unknown kind of tokenizer", lines.join("\n"))
        }
        5 => {
            let k = 3 + src.n(c.pats.len());
            lines.insert(k, src.pick(&["abc: |s, v| (0, s.to_string(), v);", "12: |s, v| (0, s.to_string(), v);", "'c': |s, v| (0, s.to_string(), v);", "\"a\" => |s, v| (0, s.to_string(), v);", "\"a\" |s, v| (0, s.to_string(), v);", "\"a\":;"]).to_string());
            ("malformed rule", lines.join("\n"))
        }
        _ => {
            let k = 1 + src.n(2);
            let semi = lines[k].rfind(';')?;
            lines[k].truncate(semi);
            ("missing separator", lines.join("\n"))
        }
    };
    let wrong = tok_module(&c, Some(&format!("{}\n", text)), false);
    Some(Bad { wrong, right, desc: format!("mistake: {}\ntokenizer! {{\n{}\n}}", mistake, text), mistake })
}

fn bad_par(src: &mut Src) -> Option<Bad> {
    let mut c = par_parts(src, 25);
    let right = c.module(Some(&c.invocation()));
    let nr = c.g.rules.len();
    let unknown_t = |src: &mut Src| src.pick(&["[nowhere]", "\"nowhere\"", "\"\u{0}\"", "[Unknown]"]).to_string();
    let (mistake, text) = match src.weighted(&[4, 4, 3, 3, 3, 2, 2, 4]) {
        0 => {
            // an undeclared token: a name nobody declared, another spelling of a declared one, or a missing declaration
            let ts: Vec<u16> = c.g.rules.iter().flat_map(|r| r.1.iter()).filter_map(|s| if let S::T(t) = s { Some(*t) } else { None }).collect();
            if ts.is_empty() {
                return None;
            }
            let t = ts[src.n(ts.len())] as usize;
            let key = c.keys.term[t].clone();
            let declared: Vec<String> = c.tokens.iter().map(|t| t.0.clone()).collect();
            match src.n(4) {
                0 => {
                    let k = unknown_t(src);
                    c.keys.term[t] = k;
                    ("token nobody declared", c.invocation())
                }
                1 => {
                    let name = key.trim_start_matches('[').trim_end_matches(']').to_string();
                    let other = if name.starts_with('"') { return None } else { format!("{:?}", name) };
                    if declared.contains(&other) {
                        return None;
                    }
                    c.keys.term[t] = other;
                    ("quoted spelling of a token declared by identifier", c.invocation())
                }
                2 => {
                    // quoted key used as an identifier
                    let text = key.trim_matches('"').to_string();
                    if !key.starts_with('"') || text.is_empty() || !text.chars().all(|c| c.is_ascii_alphanumeric()) || text.starts_with(|c: char| c.is_ascii_digit()) || ["if"].contains(&&text[..]) || declared.contains(&text) {
                        return None;
                    }
                    c.keys.term[t] = format!("[{}]", text);
                    ("identifier spelling of a token declared quoted", c.invocation())
                }
                _ => {
                    let bare = if key.starts_with('"') { key.clone() } else { key[1..key.len() - 1].to_string() };
                    c.tokens.retain(|x| x.0 != bare);
                    ("declaration of a used token left out", c.invocation())
                }
            }
        }
        1 => {
            let ns: Vec<(usize, usize)> = c.g.rules.iter().enumerate().flat_map(|(i, r)| r.1.iter().enumerate().filter(|(_, s)| matches!(s, S::N(_))).map(move |(k, _)| (i, k))).collect();
            if ns.is_empty() {
                return None;
            }
            let (i, k) = ns[src.n(ns.len())];
            // one use of a symbol becomes an unknown one
            let fresh = c.keys.non.len() as u16;
            c.keys.non.push(src.pick(&["<nowhere>", "<Unknown>", "<_y>"]).to_string());
            c.g.rules[i].1[k] = S::N(fresh);
            ("undeclared symbol in a rule", c.invocation())
        }
        2 => {
            let heads: Vec<usize> = (0..nr).filter(|i| !c.rules[*i].0).collect();
            let i = heads[src.n(heads.len())];
            let fresh = c.keys.non.len() as u16;
            c.keys.non.push(src.pick(&["<nowhere>", "<Unknown>", "<_y>"]).to_string());
            c.g.rules[i].0 = fresh;
            ("undeclared rule head", c.invocation())
        }
        3 => {
            let s = c.g.start as usize;
            let old = c.keys.non[s].clone();
            c.keys.non[s] = "<nowhere>".into();
            let lines = c.lines();
            c.keys.non[s] = old;
            let good = c.lines();
            let v: Vec<String> = good.iter().zip(&lines).map(|(g, b)| if b.starts_with("start ") { b.clone() } else { g.clone() }).collect();
            ("undeclared start symbol", v.join("\n"))
        }
        4 => {
            c.rules[0].0 = true;
            ("first rule is a | continuation", c.invocation())
        }
        5 => {
            c.head = c.head.replacen("()", src.pick(&["(x: u8)", "(self)", "(_: usize, y: &str)"]), 1);
            ("function with parameters", c.invocation())
        }
        6 => {
            // a token used as a symbol, a symbol as a token
            let ts: Vec<(usize, usize, S)> = c.g.rules.iter().enumerate().flat_map(|(i, r)| r.1.iter().enumerate().map(move |(k, s)| (i, k, *s))).filter(|x| x.2 != S::E).collect();
            if ts.is_empty() {
                return None;
            }
            let (i, k, s) = ts[src.n(ts.len())];
            let syms: Vec<String> = c.symbols.iter().map(|x| x.0.clone()).collect();
            let toks: Vec<String> = c.tokens.iter().map(|x| x.0.clone()).collect();
            match s {
                S::T(t) => {
                    let key = c.keys.term[t as usize].clone();
                    if key.starts_with('"') || syms.contains(&key[1..key.len() - 1].to_string()) {
                        return None;
                    }
                    c.keys.non.push(format!("<{}>", &key[1..key.len() - 1]));
                    let f = c.keys.non.len() as u16 - 1;
                    c.g.rules[i].1[k] = S::N(f);
                    ("token used as a symbol", c.invocation())
                }
                S::N(n) => {
                    let key = c.keys.non[n as usize].clone();
                    let bare = key[1..key.len() - 1].to_string();
                    if toks.contains(&bare) {
                        return None;
                    }
                    c.keys.term.push(format!("[{}]", bare));
                    let f = c.keys.term.len() as u16 - 1;
                    c.g.rules[i].1[k] = S::T(f);
                    ("symbol used as a token", c.invocation())
                }
                S::E => return None,
            }
        }
        _ => {
            let mut l = c.lines();
            let (tl, sl, el) = (1, 3 + c.tokens.len(), 5 + c.tokens.len() + c.symbols.len());
            debug_assert!(l[tl].starts_with("token ") && l[sl].starts_with("symbol ") && l[el].starts_with("errortype ") && l[el + 1].starts_with("start "));
            match src.n(9) {
                0 => {
                    l.remove(el);
                }
                1 => {
                    l.remove(el + 1);
                }
                2 => {
                    l[tl] = src.pick(&["tokens Tk {", "Tk {", "token {", "terminal Tk {"]).to_string();
                }
                3 => {
                    l[sl] = src.pick(&["symbols Sy {", "Sy {", "symbol {", "token Sy {"]).to_string();
                }
                4 => l[0] = l[0].replacen("LR1Parser", src.pick(&["LALRParser", "Parser", "LR0Parser", "lr1parser"]), 1),
                5 => {
                    let i = l.len() - 1 - src.range(1, nr);
                    l[i] = l[i].replacen(if l[i].contains("::=") { "::=" } else { "|" }, src.pick(&["=", ":=", "->"]), 1);
                }
                6 => {
                    let i = l.len() - 1 - src.range(1, nr);
                    let p = l[i].rfind("=>")?;
                    l[i].replace_range(p..p + 2, " ");
                }
                7 => {
                    // declaration without a value
                    l.insert(sl + 1, src.pick(&["Zq,", "Zq =,", "\"zq\" = S0,", "= S0,", "Zq S0,"]).to_string());
                }
                _ => {
                    l.insert(tl + 1, src.pick(&["Zq,", "Zq =,", "12 = V0,", "= V0,", "Zq V0,"]).to_string());
                }
            }
            ("malformed declaration", l.join("\n"))
        }
    };
    // modules are rendered from the unchanged types
    let wrong = c.module(Some(&format!("{}\n", text)));
    Some(Bad { wrong, right, desc: format!("mistake: {}\nparser! {{\n{}\n}}", mistake, text), mistake })
}
