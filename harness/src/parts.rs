//! Parts of circuits on their own: printing and comparing them

use std::fmt::{Display, Write};
use std::sync::Arc;

use firrtl_ast::circuit::{self, Circuit};
use firrtl_ast::expr::Expression as Expr;
use firrtl_ast::info::WithInfo;
use firrtl_ast::stmt::Entity;
use firrtl_ast::types::{self, OrientedType, Type};

use crate::doc::{self, Env};
use crate::guarded;
use crate::json::{a, o, s, J};

// -------------------------------------------------------------------------
// Printing

fn show(v: &dyn Display) -> J {
    let mut t = String::new();
    let shown = write!(t, "{}", v).is_ok();
    o([("shown", J::B(shown)), ("t", s(if shown { t } else { String::new() }))])
}

pub fn print(q: &J) -> J {
    let env = doc::env(q.get("env"));
    a(q.get("xs").a().iter().map(|x| guarded(|| show(part(&env, x.get("k").s(), x.get("d")).as_ref()))))
}

fn part(env: &Env, k: &str, d: &J) -> Box<dyn Display> {
    match k {
        "type" => Box::new(doc::ty(d)),
        "ground" => Box::new(doc::ground(d).expect("harness: ground")),
        "field" => Box::new(doc::field(d)),
        "expr" => Box::new(doc::expr(env, d)),
        "op" => match doc::expr(env, d) {
            Expr::PrimitiveOp(op) => Box::new(op),
            _ => panic!("harness: operation"),
        },
        "param" => Box::new(doc::param(d)),
        "memport" => Box::new(doc::mport_of(d)),
        "smem" => Box::new(doc::smem(d)),
        "ent" => match doc::entity(env, d) {
            Entity::Port(p) => Box::new(p.as_ref().clone()),
            Entity::Register(r) => Box::new(r),
            Entity::SimpleMemPort(p) => Box::new(p),
            Entity::Instance(i) => Box::new(i),
            _ => panic!("harness: entity"),
        },
        "dir" => Box::new(doc::dir(d.s())),
        "dirkw" => Box::new(doc::dir(d.s()).keyword()),
        "ruw" => Box::new(doc::ruw(d.s())),
        "ruwkw" => Box::new(doc::ruw(d.s()).keyword()),
        "smemkw" => Box::new(doc::smem(d).kind().keyword()),
        "modkw" => Box::new(doc::module(&mut env.clone(), d).kind().keyword()),
        "circ" => {
            let ms = doc::modules(d.get("mods"));
            Box::new(Circuit::new(ms[ms.len() - 1].clone()).with_info(doc::ostr(d.get("info"))))
        }
        "err" => match circuit::parse(d.s()) {
            Ok(_) => Box::new(""),
            Err(e) => Box::new(e),
        },
        k => panic!("harness: part {}", k),
    }
}

// -------------------------------------------------------------------------
// Printing into targets which refuse

/// Takes `room` bytes and refuses what goes beyond, once or for good
struct Sink {
    room: usize,
    forever: bool,
    refused: bool,
    events: Vec<J>,
}

impl Write for Sink {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        let no = if self.refused { self.forever } else { t.len() > self.room };
        if no {
            self.refused = true;
            self.events.push(o([("e", s("refused")), ("t", s(""))]));
            return Err(std::fmt::Error);
        }
        self.room = self.room.saturating_sub(t.len());
        self.events.push(o([("e", s("taken")), ("t", s(t))]));
        Ok(())
    }
}

pub fn sink(q: &J) -> J {
    let env = doc::env(q.get("env"));
    let x = q.get("x");
    let v = part(&env, x.get("k").s(), x.get("d"));
    let full = match show(v.as_ref()) { J::O(f) => f, _ => unreachable!() };
    let len = full.iter().find(|f| f.0 == "t").map(|f| f.1.s().len()).unwrap_or(0);
    let runs = q.get("cuts").a().iter().map(|c| guarded(|| {
        let room = len * c.get("room").n() as usize / c.get("of").n() as usize;
        let mut w = Sink { room, forever: c.get("forever").b(), refused: false, events: Vec::new() };
        let ok = write!(w, "{}", v).is_ok();
        o([("ok", J::B(ok)), ("events", J::A(w.events))])
    })).collect::<Vec<_>>();
    let again = match show(v.as_ref()) { J::O(f) => f == full, _ => false };
    o([("full", J::O(full)), ("runs", J::A(runs)), ("again", J::B(again))])
}

// -------------------------------------------------------------------------
// Comparing

pub fn compare(q: &J) -> J {
    a(q.get("xs").a().iter().map(|x| guarded(|| pair(q.get("env"), x.get("k").s(), x.get("a"), x.get("b")))))
}

fn both<T: PartialEq + Clone>(l: T, r: T) -> J {
    o([
        ("eq", J::B(l == r)),
        ("qe", J::B(r == l)),
        ("ne", J::B(l != r)),
        ("self", J::B(l == l.clone() && r.clone() == r)),
    ])
}

/// Each side is built on its own, nothing is shared
fn pair(env: &J, k: &str, l: &J, r: &J) -> J {
    let (le, re) = (doc::env(env), doc::env(env));
    match k {
        "type" => both(doc::ty(l), doc::ty(r)),
        "otype" => {
            let t = |d: &J| OrientedType::from(&doc::ty(d.get("ty")));
            let t = |d: &J| if d.get("f").b() { t(d).flipped() } else { t(d) };
            both(t(l), t(r))
        }
        "ground" => both(doc::ground(l).expect("harness: ground"), doc::ground(r).expect("harness: ground")),
        "mixed" => {
            let (t, g): (Type, types::GroundType) = (doc::ty(l), doc::ground(r).expect("harness: ground"));
            let e = t == g;
            o([("eq", J::B(e)), ("qe", J::B(e)), ("ne", J::B(t != g)), ("self", J::B(Type::from(g) == g))])
        }
        "field" => both(doc::field(l), doc::field(r)),
        "expr" => both(doc::expr(&le, l), doc::expr(&re, r)),
        "op" => match (doc::expr(&le, l), doc::expr(&re, r)) {
            (Expr::PrimitiveOp(l), Expr::PrimitiveOp(r)) => both(l, r),
            _ => panic!("harness: operation"),
        },
        "param" => both(doc::param(l), doc::param(r)),
        "memport" => both(doc::mport_of(l), doc::mport_of(r)),
        "smem" => both(doc::smem(l), doc::smem(r)),
        "ent" => match (doc::entity(&le, l), doc::entity(&re, r)) {
            (Entity::Port(l), Entity::Port(r)) => both(l, r),
            (Entity::Register(l), Entity::Register(r)) => both(l, r),
            (Entity::Memory(l), Entity::Memory(r)) => both(l, r),
            (Entity::SimpleMemPort(l), Entity::SimpleMemPort(r)) => both(l, r),
            (Entity::Instance(l), Entity::Instance(r)) => both(l, r),
            (l, r) => both(Arc::new(l), Arc::new(r)),
        },
        "anyent" => both(doc::entity(&le, l), doc::entity(&re, r)),
        "stmt" => both(doc::stmt(&mut le.clone(), l), doc::stmt(&mut re.clone(), r)),
        "stmtkind" => both(doc::stmt(&mut le.clone(), l).kind().clone(), doc::stmt(&mut re.clone(), r).kind().clone()),
        "mod" => both(doc::modules(&J::A(vec![l.clone()])), doc::modules(&J::A(vec![r.clone()]))),
        "circ" => {
            let c = |d: &J| {
                let ms = doc::modules(d.get("mods"));
                Circuit::new(ms[ms.len() - 1].clone()).with_info(doc::ostr(d.get("info")))
            };
            both(c(l), c(r))
        }
        k => panic!("harness: part {}", k),
    }
}
