//! Probes for the recorded findings (see /verif/known-findings.txt): they print KNOWN-FINDING lines and decide nothing.
//! C01: an empty sub-expression matches any string.
//! C18: a unit cycle hidden by a symbol that derives nothing is not reported as a conflict and loops.
use crate::gram::{make, Grammar, Res, Route, S};
use crate::engine::jstr;
use crate::sut;

/// (pattern, input, length of the first token the defect produces)
pub const EMPTY: &[(&str, &str, usize)] = &[("", "xyz", 3), ("()", "xyz", 3), ("a|", "xyz", 3), ("(|a)b", "xxb", 3)];

/// KNOWN-FINDING texts of the listed findings that the tree still shows.
pub fn known(id: &str) -> (Vec<String>, Vec<(String, String)>) {
    let mut out = Vec::new();
    if id == "C01" {
        for (p, s, n) in EMPTY {
            let cs: Vec<char> = s.chars().collect();
            if let Ok((tk, _)) = sut::build_ok::<char, _>(&[*p]) {
                if let Ok(Some(t)) = sut::first(&tk, &cs) {
                    if t.1.chars().count() == *n {
                        out.push(format!("empty-subexpression: pattern {:?} on {:?} yields the token {:?} although the empty sub-expression matches only the empty string", p, s, t.1));
                    }
                }
            }
        }
    }
    if id == "C18" {
        // N0 -> N1 N2 N3; N1 -> t0 | (empty) | N1; N2 -> t1 | (empty); N3 -> N3 t2, on t1
        let g = Grammar { nn: 4, nt: 3, start: 0, rules: vec![(0, vec![S::N(1), S::N(2), S::N(3)]), (1, vec![S::T(0)]), (1, vec![]), (1, vec![S::N(1)]), (2, vec![S::T(1)]), (2, vec![]), (3, vec![S::N(3), S::T(2)])] };
        if let Ok(s) = make(&g, &Route::plain(&g)) {
            if s.warnings.is_empty() && s.run(&[1], Some(10_000)).map_or(false, |o| o.res == Res::Reducer(10_000)) {
                out.push(format!("unit-cycle-before-unproductive-symbol: grammar {} builds without warnings, and parsing [t1] applies N1 -> N1 for ever", g.show()));
            }
        }
    }
    let extra = if id == "C01" || id == "C18" { vec![("known_findings_shown".to_string(), format!("[{}]", out.iter().map(|o| jstr(o)).collect::<Vec<_>>().join(", ")))] } else { vec![] };
    (out, extra)
}
