//! Steps the machines that TLC wrote out (spec/Export.tla).  There is no knowledge of
//! any symbology here: every expected value comes from the tables.

use crate::json::{self, J};
use std::collections::HashMap;

pub struct Parse {
    pub known: Vec<String>,
    pub states: Vec<String>,
    pub init: usize,
    pub accepts: Vec<bool>,
    pub chars: Vec<u32>,
    pub index: HashMap<u32, usize>,
    pub next: Vec<Vec<usize>>,
    pub out: Vec<Vec<Vec<i32>>>,
}
pub struct Check {
    pub ltr: bool,
    pub next: Vec<usize>,
    pub adds: Vec<Vec<usize>>,
    pub plus: Vec<Vec<usize>>,
    pub gives: Vec<i32>,
}
pub struct Emit {
    pub known: Vec<String>,
    pub start: Vec<u8>,
    pub end: Vec<u8>,
    pub vals: Vec<i32>,
    pub index: HashMap<i32, usize>,
    pub next: Vec<Vec<usize>>,
    pub out: Vec<Vec<Vec<u8>>>,
    pub begin: Vec<(i64, i64, usize)>,
}
pub struct Rules {
    pub ctor: String,
    pub sym: String,
    pub min: usize,
    pub max: usize,
    pub base: usize,
    pub lens: Vec<usize>,
    pub rowby: Vec<(usize, String)>,
    pub passes: Vec<(String, String)>,
}
pub struct Tables {
    pub ctors: HashMap<String, Rules>,
    pub parse: HashMap<String, Vec<Parse>>,
    pub check: HashMap<String, Check>,
    pub emit: HashMap<String, Vec<Emit>>,
}

fn us(j: &J) -> usize {
    j.int() as usize
}
fn grid(j: &J) -> Vec<Vec<usize>> {
    j.arr().iter().map(|r| r.arr().iter().map(us).collect()).collect()
}
fn strs(j: &J) -> Vec<String> {
    j.arr().iter().map(|x| x.str().to_string()).collect()
}
fn bytes(j: &J) -> Vec<u8> {
    j.arr().iter().map(|x| x.int() as u8).collect()
}

pub fn load(path: &str) -> Tables {
    let j = json::parse(&std::fs::read_to_string(path).expect("tables")).expect("tables");
    let mut t = Tables { ctors: HashMap::new(), parse: HashMap::new(), check: HashMap::new(), emit: HashMap::new() };
    for c in j.get("ctors").arr() {
        let pairs = |k: &str| c.get(k).arr().iter().map(|p| (p.arr()[0].clone(), p.arr()[1].clone())).collect::<Vec<_>>();
        let r = Rules {
            ctor: c.get("ctor").str().into(),
            sym: c.get("sym").str().into(),
            min: us(c.get("min")),
            max: us(c.get("max")),
            base: us(c.get("base")),
            lens: c.get("lens").arr().iter().map(us).collect(),
            rowby: pairs("rowby").iter().map(|(a, b)| (us(a), b.str().to_string())).collect(),
            passes: pairs("passes").iter().map(|(a, b)| (a.str().to_string(), b.str().to_string())).collect(),
        };
        t.ctors.insert(r.ctor.clone(), r);
    }
    for e in j.get("parse").arr() {
        let p = e.get("t");
        let chars: Vec<u32> = p.get("chars").arr().iter().map(|x| x.int() as u32).collect();
        t.parse.entry(e.get("sym").str().into()).or_default().push(Parse {
            known: strs(e.get("known")),
            states: strs(p.get("states")),
            init: us(p.get("init")),
            accepts: p.get("accepts").arr().iter().map(|x| x.bool()).collect(),
            index: chars.iter().enumerate().map(|(i, c)| (*c, i)).collect(),
            chars,
            next: grid(p.get("next")),
            out: p.get("out").arr().iter()
                .map(|r| r.arr().iter().map(|o| o.arr().iter().map(|x| x.int() as i32).collect()).collect()).collect(),
        });
    }
    if let J::Obj(m) = j.get("check") {
        for (k, c) in m {
            t.check.insert(k.clone(), Check {
                ltr: c.get("dir").str() == "ltr",
                next: c.get("next").arr().iter().map(us).collect(),
                adds: grid(c.get("adds")),
                plus: grid(c.get("plus")),
                gives: c.get("gives").arr().iter().map(|x| x.int() as i32).collect(),
            });
        }
    }
    for e in j.get("emit").arr() {
        let p = e.get("t");
        let vals: Vec<i32> = p.get("vals").arr().iter().map(|x| x.int() as i32).collect();
        t.emit.entry(e.get("sym").str().into()).or_default().push(Emit {
            known: strs(e.get("known")),
            start: bytes(p.get("start")),
            end: bytes(p.get("end")),
            index: vals.iter().enumerate().map(|(i, v)| (*v, i)).collect(),
            vals,
            next: grid(p.get("next")),
            out: p.get("out").arr().iter().map(|r| r.arr().iter().map(bytes).collect()).collect(),
            begin: p.get("begin").arr().iter().map(|b| (b.arr()[0].int(), b.arr()[1].int(), us(&b.arr()[2]))).collect(),
        });
    }
    assert!(t.ctors.len() == 12 && t.check.len() == 9 && t.emit.len() == 11 && t.parse.len() == 11, "tables incomplete");
    t
}

/// Which edges of the machines a run has taken.
#[derive(Default, Clone)]
pub struct Cover {
    pub parse: Vec<bool>,
    pub check: HashMap<String, Vec<bool>>,
    pub emit: Vec<bool>,
}

/// One way of reading the specification: with a subset of the known findings.
pub struct Oracle<'a> {
    pub rules: &'a Rules,
    pub parse: &'a Parse,
    pub checks: Vec<(&'a str, &'a Check, &'a str)>,
    pub rows: Vec<(usize, &'a str, &'a Check)>,
    pub emit: &'a Emit,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// The completed values.
    Ok(Vec<i32>),
    Length,
    Character,
    Checksum,
}
impl Expect {
    pub fn name(&self) -> &'static str {
        match self {
            Expect::Ok(_) => "ok",
            Expect::Length => "Length",
            Expect::Character => "Character",
            Expect::Checksum => "Checksum",
        }
    }
}

/// All readings of a constructor that the known findings allow, the standard first.
pub fn oracles<'a>(t: &'a Tables, ctor: &str, known: &[String]) -> Vec<Oracle<'a>> {
    let rules = &t.ctors[ctor];
    let ok = |k: &[String]| k.iter().all(|x| known.contains(x));
    let mut v = vec![];
    for p in t.parse[&rules.sym].iter().filter(|p| ok(&p.known)) {
        for e in t.emit[&rules.sym].iter().filter(|e| ok(&e.known)) {
            v.push(Oracle {
                rules,
                parse: p,
                emit: e,
                checks: rules.passes.iter().map(|(c, w)| (&c[..], &t.check[c], &w[..])).collect(),
                rows: rules.rowby.iter().map(|(n, c)| (*n, &c[..], &t.check[c])).collect(),
            });
        }
    }
    v.sort_by_key(|o| o.parse.known.len() + o.emit.known.len());
    v
}

impl<'a> Oracle<'a> {
    pub fn is_standard(&self) -> bool {
        self.parse.known.is_empty() && self.emit.known.is_empty()
    }

    fn run_check(&self, name: &str, c: &Check, vals: &[i32], cov: &mut Option<&mut Cover>) -> usize {
        let (mut ph, mut sum) = (1usize, 1usize);
        let size = c.adds[0].len();
        let mut step = |v: i32| {
            if let Some(cov) = cov.as_deref_mut() {
                let bits = cov.check.entry(name.to_string()).or_insert_with(|| vec![false; c.next.len() * c.plus.len() * size]);
                bits[((ph - 1) * c.plus.len() + sum - 1) * size + v as usize] = true;
            }
            let a = c.adds[ph - 1][v as usize];
            sum = c.plus[sum - 1][a] + 1;
            ph = c.next[ph - 1];
        };
        if c.ltr {
            vals.iter().for_each(|v| step(*v));
        } else {
            vals.iter().rev().for_each(|v| step(*v));
        }
        sum
    }

    pub fn read(&self, text: &str, mut cov: Option<&mut Cover>) -> Expect {
        let n = text.len();
        if n < self.rules.min || (self.rules.max > 0 && n > self.rules.max) {
            return Expect::Length;
        }
        let mut st = self.parse.init;
        let mut vals: Vec<i32> = Vec::with_capacity(n + 2);
        let width = self.parse.chars.len();
        for c in text.chars() {
            match self.parse.index.get(&(c as u32)) {
                None => return Expect::Character,
                Some(&i) => {
                    if let Some(cov) = cov.as_deref_mut() {
                        if cov.parse.is_empty() {
                            cov.parse = vec![false; width * self.parse.states.len()];
                        }
                        cov.parse[(st - 1) * width + i] = true;
                    }
                    let nx = self.parse.next[st - 1][i];
                    if nx == 0 {
                        return Expect::Character;
                    }
                    vals.extend_from_slice(&self.parse.out[st - 1][i]);
                    st = nx;
                }
            }
        }
        if !self.parse.accepts[st - 1] {
            return Expect::Character;
        }
        if !self.rules.lens.is_empty() && !self.rules.lens.contains(&vals.len()) {
            return Expect::Length;
        }
        let mut given = None;
        if self.rules.base > 0 && vals.len() > self.rules.base {
            given = vals.pop();
        }
        for (name, c, when) in &self.checks {
            let run = match *when {
                "always" => true,
                "odd" => vals.len() % 2 == 1,
                "over11" => vals.len() > 11,
                w => panic!("unknown condition {}", w),
            };
            if run {
                let s = self.run_check(name, c, &vals, &mut cov);
                vals.push(c.gives[s - 1]);
            }
        }
        if let Some(g) = given {
            if vals[vals.len() - 1] != g {
                return Expect::Checksum;
            }
        }
        Expect::Ok(vals)
    }

    pub fn draw(&self, vals: &[i32], mut cov: Option<&mut Cover>) -> Vec<u8> {
        let e = self.emit;
        let (mut n, mut row) = (0i64, 0i64);
        for (len, name, c) in &self.rows {
            if *len == vals.len() {
                n = *len as i64;
                row = self.run_check(name, c, vals, &mut cov) as i64 - 1;
            }
        }
        let mut st = e.begin.iter().find(|b| b.0 == n && b.1 == row).expect("start state").2;
        let mut out = Vec::with_capacity(12 * vals.len() + 40);
        out.extend_from_slice(&e.start);
        for v in vals {
            let i = e.index[v];
            if let Some(cov) = cov.as_deref_mut() {
                if cov.emit.is_empty() {
                    cov.emit = vec![false; e.next.len() * e.vals.len()];
                }
                cov.emit[(st - 1) * e.vals.len() + i] = true;
            }
            out.extend_from_slice(&e.out[st - 1][i]);
            st = e.next[st - 1][i];
            assert!(st > 0, "emit machine left its states");
        }
        out.extend_from_slice(&e.end);
        out
    }

    /// The modules of one value where they do not depend on the state (Code 128).
    pub fn symbol(&self, v: i32) -> &[u8] {
        &self.emit.out[0][self.emit.index[&v]]
    }
}
