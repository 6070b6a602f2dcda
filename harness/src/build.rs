//! Histories of constructors, setters and adders

use std::sync::Arc;

use firrtl_ast::circuit::Circuit;
use firrtl_ast::info::WithInfo;
use firrtl_ast::memory::{mem, simple, Register};
use firrtl_ast::module::{self, Instance, Module};
use firrtl_ast::stmt::{Entity, Statement};
use firrtl_ast::types::{BundleField, Typed};
use firrtl_ast::Named;

use crate::doc::{self, Env};
use crate::dump::{self, Dump};
use crate::json::{a, n, o, s, J};

enum Obj {
    Mem(mem::Memory),
    Reg(Register<Arc<Entity>>),
    Port(module::Port),
    Module(Module),
    Field(BundleField),
    Circuit(Circuit),
    Stmt(Statement),
    SMem(simple::Memory),
    MPort(simple::Port<Arc<Entity>>),
    Inst(Instance),
}

fn info<T: WithInfo>(mut v: T, st: &J) -> T {
    match st.get("a").s() {
        "with_info" => v.with_info(doc::ostr(st.get("info"))),
        "set_info" => { v.set_info(doc::ostr(st.get("info"))); v }
        "clear_info" => { v.clear_info(); v }
        x => panic!("harness: step {}", x),
    }
}

pub fn history(q: &J) -> J {
    let mut env = doc::env(q.get("env"));
    let mut cur: Option<Obj> = None;
    let mut out = Vec::new();
    for st in q.get("steps").a() {
        let prev = cur.take();
        let next = step(&mut env, prev, st);
        out.push(observe(&env, &next));
        cur = Some(next);
    }
    a(out)
}

fn step(env: &mut Env, prev: Option<Obj>, st: &J) -> Obj {
    let act = st.get("a").s();
    let expr = |env: &Env, k: &str| doc::expr(env, st.get(k));
    match (prev, act) {
        (_, "new_mem") => Obj::Mem(mem::Memory::new(st.get("n").s(), doc::ty(st.get("ty")), st.get("depth").s().parse().expect("harness: depth"))),
        (_, "new_reg") => Obj::Reg(Register::new(st.get("n").s(), doc::ty(st.get("ty")), expr(env, "clk"))),
        (_, "new_port") => Obj::Port(module::Port::new(st.get("n").s(), doc::ty(st.get("ty")), doc::dir(st.get("dir").s()))),
        (_, "new_module") => Obj::Module(Module::new(
            st.get("n").s().into(),
            st.get("ports").a().iter().map(doc::port).collect::<Vec<_>>(),
            match st.get("kind").s() { "module" => module::Kind::empty_regular(), _ => module::Kind::empty_external() },
        )),
        (_, "new_field") => Obj::Field(BundleField::new(st.get("n").s(), doc::ty(st.get("ty")))),
        (_, "new_circuit") => Obj::Circuit(Circuit::new(env.mods[st.get("i").n() as usize - 1].clone())),
        (_, "new_stmt") => {
            let t = st.get("t").clone();
            Obj::Stmt(doc::stmt(env, &t))
        }
        (_, "new_smem") => Obj::SMem(doc::smem(st.get("m"))),
        (_, "new_mport") => Obj::MPort(doc::mport(env, st.get("m"))),
        (_, "new_inst") => Obj::Inst(Instance::new(st.get("n").s(), env.mods[st.get("i").n() as usize - 1].clone())),
        (Some(Obj::Mem(mut m)), _) => Obj::Mem(match act {
            "add_port" => { m.add_port(doc::mport_of(st.get("p"))); m }
            "add_ports" => { m.add_ports(st.get("ps").a().iter().map(doc::mport_of)); m }
            "rl" => m.with_read_latency(st.get("v").n() as u16),
            "wl" => m.with_write_latency(st.get("v").n() as u16),
            "ruw" => m.with_read_under_write(doc::ruw(st.get("to").s())),
            x => panic!("harness: step {}", x),
        }),
        (Some(Obj::Reg(r)), _) => Obj::Reg(match act {
            "with_reset" => r.with_reset(expr(env, "s"), expr(env, "v")),
            "opt_reset" => {
                let v = doc::opt(st.get("r")).map(|x| (doc::expr(env, x.get("s")), doc::expr(env, x.get("v"))));
                r.with_optional_reset(v)
            }
            "without_reset" => r.without_reset(),
            x => panic!("harness: step {}", x),
        }),
        (Some(Obj::Port(p)), _) => Obj::Port(info(p, st)),
        (Some(Obj::Module(mut m)), "kind") => {
            let mods = env.mods.clone();
            let mut e = Env { mods, ..Default::default() };
            e.decls = m.ports().cloned().map(|p| Arc::new(Entity::from(p))).collect();
            *m.kind_mut() = doc::kind(&mut e, st.get("m"));
            Obj::Module(m)
        }
        (Some(Obj::Module(mut m)), "push") => {
            let mut e = env.clone();
            if let module::Kind::Regular { stmts } = m.kind_mut() { stmts.push(doc::stmt(&mut e, st.get("t"))) }
            Obj::Module(m)
        }
        (Some(Obj::Module(m)), _) => Obj::Module(info(m, st)),
        (Some(Obj::Field(f)), _) => Obj::Field(match act {
            "type" => f.with_type(doc::ty(st.get("ty"))),
            "orient" => f.with_orientation(doc::orientation(st.get("flip").b())),
            "flipped" => f.flipped(),
            x => panic!("harness: step {}", x),
        }),
        (Some(Obj::Circuit(c)), _) => Obj::Circuit(info(c, st)),
        (Some(Obj::Stmt(t)), _) => Obj::Stmt(info(t, st)),
        (_, x) => panic!("harness: step {}", x),
    }
}

fn observe(env: &Env, v: &Obj) -> J {
    let d = Dump::new(env.decls.clone(), env.smems.clone(), env.mods.clone());
    match v {
        Obj::Mem(m) => dump::memory(m),
        Obj::Reg(r) => d.register(r),
        Obj::Port(p) => {
            let t = Typed::r#type(p).map(|t| dump::ty(&t)).unwrap_or(o([("t", s("none"))]));
            o([("v", dump::port(p)), ("t", t)])
        }
        Obj::Module(m) => dump::module(m, &env.mods),
        Obj::Field(f) => {
            let t = Typed::r#type(f).map(|t| dump::ty(&t)).unwrap_or(o([("t", s("none"))]));
            o([("v", dump::field(f)), ("t", t)])
        }
        Obj::Circuit(c) => o([("top", n(d.mod_id(c.top_module()))), ("info", dump::os(c.info()))]),
        Obj::Stmt(t) => d.stmt(t),
        Obj::SMem(m) => dump::smem(m),
        Obj::MPort(p) => d.mport(p),
        Obj::Inst(i) => o([("n", s(i.name_ref())), ("mi", n(d.mod_id(i.module())))]),
    }
}
