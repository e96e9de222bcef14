use crate::engine::{install, replay, run, shrink_case, Options, Prop};

/// `bin ID [--seed N] [--thorough] [--cases N] [--replay FILE]`
pub fn main(props: &[Prop], known: fn(&str) -> (Vec<String>, Vec<(String, String)>)) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let mut o = Options {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        cases: None,
        out_dir: std::env::var("VH_OUT").unwrap_or_else(|_| "/verif".into()),
    };
    let mut file = None;
    let mut case = None;
    let mut id = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--seed" => {
                i += 1;
                o.seed = args[i].parse().unwrap();
            }
            "--thorough" => o.thorough = true,
            "--quick" => o.thorough = false,
            "--cases" => {
                i += 1;
                o.cases = Some(args[i].parse().unwrap());
            }
            "--replay" => {
                i += 1;
                file = Some(args[i].clone());
            }
            "--shrink-case" => {
                i += 1;
                case = Some(args[i].parse().unwrap());
            }
            x => id = Some(x.to_string()),
        }
        i += 1;
    }
    let id = id.expect("property id");
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    install();
    let code = match (file, case) {
        (Some(f), _) => replay(p, &o, &f),
        (None, Some(c)) => shrink_case(p, &o, c),
        (None, None) => run(p, &o, known),
    };
    std::process::exit(code)
}
