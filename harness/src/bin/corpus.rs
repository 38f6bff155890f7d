//! The answers of this build of the library to a fixed set of questions (C19).
//!   corpus OUT --seed S --n N
#![allow(dead_code)]

#[path = "../call.rs"]
mod call;
#[path = "../corpus.rs"]
mod corpus;
#[path = "../customs.rs"]
mod customs;
#[path = "../json.rs"]
mod json;
#[path = "../rng.rs"]
mod rng;
#[path = "../shapes.rs"]
mod shapes;

pub struct Args(Vec<String>);
impl Args {
    pub fn get(&self, k: &str) -> Option<String> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).cloned()
    }
    pub fn at(&self, i: usize) -> String {
        self.0.get(i).cloned().unwrap_or_default()
    }
    pub fn seed(&self) -> u64 {
        self.get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1)
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    corpus::main(&Args(std::env::args().skip(1).collect()));
}
