//! Literals of the code under test, as fuzzers collect them: sizes, code points and words that the code compares
//! with something. They steer generation only; no oracle looks at them.
use std::path::Path;
use std::sync::OnceLock;

use crate::engine::Src;

#[derive(Default)]
pub struct Dict {
    /// 3 to 140,000
    pub sizes: Vec<usize>,
    /// any number of at least 3
    pub numbers: Vec<usize>,
    pub chars: Vec<char>,
    /// short strings that are identifiers
    pub words: Vec<String>,
}

const ROOTS: &[&str] = &["tokenizer/src", "parser/src", "tokenizer_generator/src", "parser_generator/src"];

static D: OnceLock<Dict> = OnceLock::new();

/// For replays: the literals the failing run had read.
pub fn preset(numbers: Vec<usize>, words: Vec<String>) {
    let _ = D.set(finish(Dict { numbers, words, ..Dict::default() }));
}

pub fn dict() -> &'static Dict {
    D.get_or_init(|| {
        let mut d = Dict::default();
        for r in ROOTS {
            walk(&Path::new("/repo").join(r), &mut d);
        }
        // to try the generators with numbers the code does not have
        if let Ok(x) = std::env::var("VERIF_DICT") {
            d.numbers.extend(x.split(',').filter_map(|n| n.trim().parse::<usize>().ok()));
        }
        finish(d)
    })
}

fn finish(mut d: Dict) -> Dict {
    d.numbers.extend(d.chars.drain(..).map(|c| c as usize));
    d.numbers.retain(|n| *n >= 3);
    d.chars = d.numbers.iter().filter(|n| **n <= 0x10ffff).filter_map(|n| char::from_u32(*n as u32)).collect();
    d.sizes = d.numbers.iter().copied().filter(|n| *n <= 140_000).collect();
    for v in [&mut d.sizes, &mut d.numbers] {
        v.sort();
        v.dedup();
    }
    d.chars.sort();
    d.chars.dedup();
    d.words.sort();
    d.words.dedup();
    d
}

fn walk(p: &Path, d: &mut Dict) {
    let Ok(list) = std::fs::read_dir(p) else { return };
    let mut list: Vec<_> = list.flatten().map(|e| e.path()).collect();
    list.sort();
    for e in list {
        if e.is_dir() {
            walk(&e, d);
        } else if e.extension().map_or(false, |x| x == "rs") {
            if let Ok(t) = std::fs::read_to_string(&e) {
                scan(&t[..t.find("mod tests {").unwrap_or(t.len())], d);
            }
        }
    }
}

fn scan(t: &str, d: &mut Dict) {
    let c: Vec<char> = t.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or(' ');
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                    }
                    s.push(at(i));
                    i += 1;
                }
                i += 1;
                if s.len() <= 20 && s.starts_with(|x: char| x.is_ascii_alphabetic()) && s.chars().all(|x| x.is_ascii_alphanumeric() || x == '_') {
                    d.words.push(s);
                }
            }
            '\'' => {
                // a character, unless it is a lifetime
                if at(i + 1) == '\\' {
                    let end = (i + 2..c.len().min(i + 14)).find(|k| c[*k] == '\'' && *k > i + 2).unwrap_or(i + 2);
                    let s: String = c[i + 2..end].iter().collect();
                    let x = match s.chars().next() {
                        Some('n') => Some('\n'),
                        Some('r') => Some('\r'),
                        Some('t') => Some('\t'),
                        Some('0') => Some('\0'),
                        Some('u') => u32::from_str_radix(s.trim_start_matches("u{").trim_end_matches('}'), 16).ok().and_then(char::from_u32),
                        Some('x') => u32::from_str_radix(&s[1..], 16).ok().and_then(char::from_u32),
                        x => x,
                    };
                    d.chars.extend(x);
                    i = end + 1;
                } else if at(i + 2) == '\'' {
                    d.chars.push(at(i + 1));
                    i += 3;
                } else {
                    i += 1;
                }
            }
            x if x.is_ascii_digit() => {
                let start = i;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                let s: String = c[start..i].iter().filter(|x| **x != '_').collect();
                let s = s.split(|x| x == 'u' || x == 'i').next().unwrap();
                let n = match s.get(..2) {
                    Some("0x") => usize::from_str_radix(&s[2..], 16).ok(),
                    Some("0b") => usize::from_str_radix(&s[2..], 2).ok(),
                    Some("0o") => usize::from_str_radix(&s[2..], 8).ok(),
                    _ => s.parse().ok(),
                };
                if let Some(n) = n {
                    d.numbers.push(n);
                    // shifts and powers
                    if n < 64 && start >= 3 && c[..start].iter().rev().skip_while(|x| x.is_whitespace()).take(2).all(|x| *x == '<') {
                        d.numbers.push(1 << n);
                    }
                }
            }
            x if x.is_alphabetic() || x == '_' => {
                let start = i;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                match &c[start..i].iter().collect::<String>()[..] {
                    "u8" => d.numbers.push(256),
                    "i8" => d.numbers.push(128),
                    "u16" => d.numbers.push(65536),
                    "i16" => d.numbers.push(32768),
                    "u128" => d.numbers.push(128),
                    "u64" => d.numbers.push(64),
                    _ => {}
                }
            }
            _ => i += 1,
        }
    }
}

/// A size at or next to one of the code's, at most `max`.
pub fn size(max: usize, src: &mut Src) -> Option<usize> {
    let v = &dict().sizes;
    let n = v.iter().take_while(|s| **s <= max).count();
    if n == 0 {
        return None;
    }
    let s = v[src.n(n)];
    Some(match src.n(6) {
        0 => s - 1,
        1 => s,
        2 => s + 1,
        3 => s + 2,
        4 => s + 2 + src.n(8),
        _ => s + src.n(s + 1),
    }
    .min(max))
}

/// As `size`, the rarer the larger.
pub fn cheap_size(max: usize, unit: usize, src: &mut Src) -> Option<usize> {
    let s = size(max, src)?;
    src.chance(1, (1 + s / unit) as u64).then_some(s)
}

/// A character at or next to one of the code's.
pub fn ch(src: &mut Src) -> Option<char> {
    let v = &dict().chars;
    if v.is_empty() {
        return None;
    }
    let c = v[src.n(v.len())] as u32;
    char::from_u32((c + src.n(3) as u32).saturating_sub(1))
}

/// A word of the code that can name something.
pub fn word(src: &mut Src) -> Option<&'static str> {
    const KEYWORDS: &str = " as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while abstract become box do final gen macro override priv try typeof unsized virtual yield union raw safe std core alloc parser tokenizer ";
    let v: Vec<&'static String> = dict().words.iter().filter(|w| !KEYWORDS.contains(&format!(" {} ", w))).collect();
    if v.is_empty() {
        None
    } else {
        Some(v[src.n(v.len())])
    }
}
