//! Binds the specification in /verif/spec to the library.
//!
//!   harness check --prop C05 --tables T --known K --out DIR [--seed N] [--tier quick|thorough]
//!   harness exec SCRIPTS OUT        replay generated sessions on the library, recording results
//!   harness item N --seed S         one question of C18 in a fresh process
//!   harness giant OUT CTOR...       strings of more than 4 GiB

#![allow(dead_code)]

mod call;
mod corpus;
mod customs;
mod json;
mod rng;
mod shapes;

mod checks;
mod draw;
mod exec;
mod gen;
mod hist;
mod oracle;
mod pool;
mod record;
mod walk;
mod world;
mod xml;

pub struct Args(Vec<String>);
impl Args {
    pub fn get(&self, k: &str) -> Option<String> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).cloned()
    }
    pub fn need(&self, k: &str) -> String {
        self.get(k).unwrap_or_else(|| panic!("{} is missing", k))
    }
    pub fn seed(&self) -> u64 {
        self.get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1)
    }
    pub fn at(&self, i: usize) -> String {
        self.0.get(i).cloned().unwrap_or_default()
    }
    pub fn rest(&self, i: usize) -> &[String] {
        &self.0[i.min(self.0.len())..]
    }
}

fn main() {
    let a = Args(std::env::args().skip(1).collect());
    // panics of the library are results here; those of the harness itself still end it with code 101
    if std::env::var("HARNESS_LOUD").is_err() {
        std::panic::set_hook(Box::new(|i| {
            let here = i.location().map(|l| l.file().starts_with("src/")).unwrap_or(false);
            if here {
                eprintln!("{}", i);
            }
        }));
    }
    match &a.at(0)[..] {
                "check" => checks::main(&a),
                "exec" => exec::main(&a),
                "item" => hist::item(&a),
                "sched" => hist::schedules(&a),
                "order" => hist::order(&a),
                "race" => hist::race(&a),
                "text" => hist::text(&a),
                "texts" => hist::texts(&a),
                "giant" => checks::giant(&a),
        c => {
            eprintln!("unknown command {:?}", c);
            std::process::exit(2);
        }
    }
}
