//! Thin layer over the public tokenizer API; every call goes through `engine::sut`.
use crate::engine::sut;
use tokenizer::{DFATokenizer, Tokenize};

/// An input item that cannot be copied, with its position.
#[derive(Debug, PartialEq)]
pub struct Item {
    pub c: char,
    pub id: usize,
}

pub type Tok<T> = (usize, String, Vec<T>);
pub type Tk<T> = DFATokenizer<Tok<T>, T>;

pub enum Built<T> {
    Ok(Tk<T>, Vec<String>),
    Refused(String),
}

pub fn build<T: 'static, S: AsRef<str>>(patterns: &[S]) -> Result<Built<T>, String> {
    sut(|| {
        let mut b = DFATokenizer::<Tok<T>, T>::builder();
        for (i, p) in patterns.iter().enumerate() {
            b = b.pattern(p.as_ref(), move |s: &str, v: Vec<T>| (i, s.to_string(), v));
        }
        match b.build() {
            Ok((t, w)) => Built::Ok(t, w.iter().map(|w| format!("{:?}", w)).collect()),
            Err(e) => Built::Refused(format!("{:?}", e)),
        }
    })
}

pub fn build_ok<T: 'static, S: AsRef<str>>(patterns: &[S]) -> Result<(Tk<T>, Vec<String>), String> {
    match build(patterns)? {
        Built::Ok(t, w) => Ok((t, w)),
        Built::Refused(e) => Err(format!("a valid pattern list was refused: {}", e)),
    }
}

/// First token of a text.
pub fn first(tk: &Tk<char>, cs: &[char]) -> Result<Option<Tok<char>>, String> {
    sut(|| cs.iter().copied().tokenize(tk).next())
}

/// Up to max tokens, stopping after two zero-length ones in a row.
pub fn all(tk: &Tk<char>, cs: &[char], max: usize) -> Result<(Vec<Tok<char>>, bool), String> {
    sut(|| {
        let mut it = cs.iter().copied().tokenize(tk);
        let mut out: Vec<Tok<char>> = Vec::new();
        let mut zero = 0;
        while out.len() < max {
            match it.next() {
                Some(t) => {
                    zero = if t.1.is_empty() { zero + 1 } else { 0 };
                    out.push(t);
                    if zero == 2 {
                        return (out, false);
                    }
                }
                None => return (out, true),
            }
        }
        (out, false)
    })
}

/// The same by value; the tokenizer is spent.
pub fn all_by_value(tk: Tk<char>, cs: &[char], max: usize) -> Result<(Vec<Tok<char>>, bool), String> {
    sut(move || {
        let mut it = cs.iter().copied().tokenize(tk);
        let mut out: Vec<Tok<char>> = Vec::new();
        let mut zero = 0;
        while out.len() < max {
            match it.next() {
                Some(t) => {
                    zero = if t.1.is_empty() { zero + 1 } else { 0 };
                    out.push(t);
                    if zero == 2 {
                        return (out, false);
                    }
                }
                None => return (out, true),
            }
        }
        (out, false)
    })
}

pub fn show(cs: &[char]) -> String {
    if cs.len() > 300 {
        return format!("{:?}... ({} characters)", cs[..300].iter().collect::<String>(), cs.len());
    }
    format!("{:?}", cs.iter().collect::<String>())
}
