//! Building values of the library from documents

use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;

use firrtl_ast::expr::primitive::Operation as Op;
use firrtl_ast::expr::Expression as Expr;
use firrtl_ast::info::WithInfo;
use firrtl_ast::memory::{self, mem, simple, PortDir, ReadUnderWrite};
use firrtl_ast::module::{self, Module};
use firrtl_ast::stmt::{self, print, Entity, Statement};
use firrtl_ast::types::{BundleField, GroundType as GT, Orientation, ResetKind, Type};

use crate::json::J;

pub type E = Expr<Arc<Entity>>;

/// Whether equal expressions within an environment are one shared value
pub static SHARE: AtomicBool = AtomicBool::new(false);

#[derive(Default, Clone)]
pub struct Env {
    pub decls: Vec<Arc<Entity>>,
    pub smems: Vec<Arc<simple::Memory>>,
    pub mods: Vec<Arc<Module>>,
    /// Instances get copies of modules rather than the modules themselves
    pub split: bool,
    /// Expressions to be shared
    pub shared: RefCell<HashMap<String, Arc<E>>>,
}

/// Expression as operand of another one
fn operand(env: &Env, j: &J) -> Arc<E> {
    if !SHARE.load(Relaxed) {
        return Arc::new(expr(env, j));
    }
    let key = j.text();
    let known = env.shared.borrow().get(&key).cloned();
    known.unwrap_or_else(|| {
        let x = Arc::new(expr(env, j));
        env.shared.borrow_mut().insert(key, x.clone());
        x
    })
}

pub fn opt(j: &J) -> Option<&J> {
    j.a().first()
}

pub fn ostr(j: &J) -> Option<String> {
    opt(j).map(|s| s.s().to_owned())
}

pub fn width(j: &J) -> Option<u16> {
    if j.n() < 0 { None } else { Some(j.n() as u16) }
}

pub fn ground(j: &J) -> Option<GT> {
    let w = || width(j.get("w"));
    Some(match j.get("t").s() {
        "uint" => GT::UInt(w()),
        "sint" => GT::SInt(w()),
        "analog" => GT::Analog(w()),
        "fixed" => GT::Fixed(w(), opt(j.get("p")).map(|p| p.n() as i16)),
        "clock" => GT::Clock,
        "reset" => GT::Reset(ResetKind::Regular),
        "areset" => GT::Reset(ResetKind::Async),
        _ => return None,
    })
}

pub fn ty(j: &J) -> Type {
    match j.get("t").s() {
        "vec" => Type::Vector(Arc::new(ty(j.get("b"))), j.get("n").n() as u16),
        "bundle" => Type::Bundle(j.get("f").a().iter().map(field).collect::<Vec<_>>().into()),
        _ => Type::GroundType(ground(j).expect("harness: unknown type")),
    }
}

pub fn orientation(flip: bool) -> Orientation {
    if flip { Orientation::Flipped } else { Orientation::Normal }
}

pub fn field(j: &J) -> BundleField {
    BundleField::new(j.get("n").s(), ty(j.get("ty"))).with_orientation(orientation(j.get("flip").b()))
}

pub fn dir(s: &str) -> module::Direction {
    match s {
        "input" => module::Direction::Input,
        "output" => module::Direction::Output,
        s => panic!("harness: direction {}", s),
    }
}

pub fn pdir(s: &str) -> Option<PortDir> {
    match s {
        "read" => Some(PortDir::Read),
        "write" => Some(PortDir::Write),
        "rdwr" => Some(PortDir::ReadWrite),
        "infer" => None,
        s => panic!("harness: port direction {}", s),
    }
}

pub fn ruw(s: &str) -> ReadUnderWrite {
    match s {
        "old" => ReadUnderWrite::Old,
        "new" => ReadUnderWrite::New,
        "undefined" => ReadUnderWrite::Undefined,
        s => panic!("harness: read under write {}", s),
    }
}

pub fn uhex(s: &str) -> num_bigint::BigUint {
    num_bigint::BigUint::parse_bytes(s.as_bytes(), 16).expect("harness: hex")
}

pub fn shex(s: &str) -> num_bigint::BigInt {
    num_bigint::BigInt::parse_bytes(s.as_bytes(), 16).expect("harness: hex")
}

pub fn expr(env: &Env, j: &J) -> E {
    let sub = |k: &str| operand(env, j.get(k));
    match j.get("e").s() {
        "uint" => Expr::UIntLiteral { value: uhex(j.get("v").s()), width: j.get("w").n() as u16 },
        "sint" => Expr::SIntLiteral { value: shex(j.get("v").s()), width: j.get("w").n() as u16 },
        "ref" => Expr::Reference(env.decls[j.get("d").n() as usize - 1].clone()),
        "field" => Expr::SubField { base: sub("b"), index: j.get("n").s().into() },
        "index" => Expr::SubIndex { base: sub("b"), index: j.get("i").n() as u16 },
        "access" => Expr::SubAccess { base: sub("b"), index: sub("x") },
        "mux" => Expr::Mux { sel: sub("s"), a: sub("a"), b: sub("b") },
        "validif" => Expr::ValidIf { sel: sub("s"), value: sub("v") },
        "op" => Expr::PrimitiveOp(op(env, j)),
        k => panic!("harness: expression {}", k),
    }
}

pub fn op(env: &Env, j: &J) -> Op<Arc<Entity>> {
    let x = |i: usize| operand(env, &j.get("x").a()[i]);
    let p = |i: usize| j.get("p").a()[i].n();
    let u = |i: usize| p(i) as u16;
    match j.get("op").s() {
        "add" => Op::Add(x(0), x(1)),
        "sub" => Op::Sub(x(0), x(1)),
        "mul" => Op::Mul(x(0), x(1)),
        "div" => Op::Div(x(0), x(1)),
        "rem" => Op::Rem(x(0), x(1)),
        "lt" => Op::Lt(x(0), x(1)),
        "leq" => Op::LEq(x(0), x(1)),
        "gt" => Op::Gt(x(0), x(1)),
        "geq" => Op::GEq(x(0), x(1)),
        "eq" => Op::Eq(x(0), x(1)),
        "neq" => Op::NEq(x(0), x(1)),
        "pad" => Op::Pad(x(0), u(0)),
        "asUInt" => Op::Cast(x(0), GT::UInt(None)),
        "asSInt" => Op::Cast(x(0), GT::SInt(None)),
        "asFixed" => Op::Cast(x(0), GT::Fixed(None, Some(p(0) as i16))),
        "asClock" => Op::Cast(x(0), GT::Clock),
        "asAsyncReset" => Op::Cast(x(0), GT::Reset(ResetKind::Async)),
        "shl" => Op::Shl(x(0), u(0)),
        "shr" => Op::Shr(x(0), u(0)),
        "dshl" => Op::DShl(x(0), x(1)),
        "dshr" => Op::DShr(x(0), x(1)),
        "cvt" => Op::Cvt(x(0)),
        "neg" => Op::Neg(x(0)),
        "not" => Op::Not(x(0)),
        "and" => Op::And(x(0), x(1)),
        "or" => Op::Or(x(0), x(1)),
        "xor" => Op::Xor(x(0), x(1)),
        "andr" => Op::AndReduce(x(0)),
        "orr" => Op::OrReduce(x(0)),
        "xorr" => Op::XorReduce(x(0)),
        "cat" => Op::Cat(x(0), x(1)),
        "bits" => Op::Bits(x(0), Some(u(1)), Some(u(0))),
        "head" => Op::Bits(x(0), None, Some(u(0))),
        "tail" => Op::Bits(x(0), Some(u(0)), None),
        "incp" => Op::IncPrecision(x(0), u(0)),
        "decp" => Op::DecPrecision(x(0), u(0)),
        "setp" => Op::SetPrecision(x(0), p(0) as i16),
        o => panic!("harness: operation {}", o),
    }
}

pub fn port(j: &J) -> Arc<module::Port> {
    Arc::new(module::Port::new(j.get("n").s(), ty(j.get("ty")), dir(j.get("dir").s())).with_info(ostr(j.get("info"))))
}

pub fn memory(j: &J) -> mem::Memory {
    let mut m = mem::Memory::new(j.get("n").s(), ty(j.get("ty")), j.get("depth").s().parse().expect("harness: depth"))
        .with_read_latency(j.get("rl").n() as u16)
        .with_write_latency(j.get("wl").n() as u16)
        .with_read_under_write(ruw(j.get("ruw").s()));
    m.add_ports(j.get("ports").a().iter().map(mport_of));
    m
}

pub fn mport_of(j: &J) -> mem::Port {
    mem::Port { name: j.get("n").s().into(), dir: pdir(j.get("d").s()).expect("harness: dir") }
}

pub fn register(env: &Env, j: &J) -> memory::Register<Arc<Entity>> {
    let r = memory::Register::new(j.get("n").s(), ty(j.get("ty")), expr(env, j.get("clk")));
    match opt(j.get("rst")) {
        Some(x) => r.with_reset(expr(env, x.get("s")), expr(env, x.get("v"))),
        None => r,
    }
}

pub fn smem(j: &J) -> simple::Memory {
    simple::Memory::new(j.get("n").s(), ty(j.get("ty")), smem_kind(j))
}

pub fn smem_kind(j: &J) -> simple::Kind {
    match j.get("kind").s() {
        "cmem" => simple::Kind::Combinatory,
        "smem" => simple::Kind::Sequential(opt(j.get("ruw")).map(|r| ruw(r.s()))),
        k => panic!("harness: kind {}", k),
    }
}

pub fn mport(env: &Env, j: &J) -> simple::Port<Arc<Entity>> {
    simple::Port::new(
        j.get("n").s(),
        env.smems[j.get("md").n() as usize - 1].clone(),
        pdir(j.get("dir").s()),
        expr(env, j.get("addr")),
        expr(env, j.get("clk")),
    )
}

pub fn entity(env: &Env, j: &J) -> Entity {
    let n = || -> Arc<str> { j.get("n").s().into() };
    match j.get("k").s() {
        "port" => port(j).into(),
        "wire" => Entity::Wire { name: n(), r#type: ty(j.get("ty")) },
        "reg" => register(env, j).into(),
        "node" => Entity::Node { name: n(), value: expr(env, j.get("v")) },
        "mem" => memory(j).into(),
        "mport" => mport(env, j).into(),
        "inst" => {
            let m = &env.mods[j.get("mi").n() as usize - 1];
            module::Instance::new(n(), if env.split { Arc::new(m.as_ref().clone()) } else { m.clone() }).into()
        }
        k => panic!("harness: entity {}", k),
    }
}

pub fn stmts(env: &mut Env, j: &J) -> Vec<Statement> {
    j.a().iter().map(|s| stmt(env, s)).collect()
}

pub fn stmt(env: &mut Env, j: &J) -> Statement {
    use stmt::Kind as K;

    let name = || opt(j.get("name")).map(|n| Arc::<str>::from(n.s()));
    let kind = match j.get("s").s() {
        "conn" => K::Connection { from: expr(env, j.get("from")), to: expr(env, j.get("to")) },
        "pconn" => K::PartialConnection { from: expr(env, j.get("from")), to: expr(env, j.get("to")) },
        "skip" => K::Empty,
        "decl" => {
            let e = Arc::new(entity(env, j.get("ent")));
            env.decls.push(e.clone());
            K::Declaration(e)
        }
        "smem" => {
            let m = Arc::new(smem(j.get("m")));
            env.smems.push(m.clone());
            K::SimpleMemDecl(m)
        }
        "inval" => K::Invalidate(expr(env, j.get("x"))),
        "attach" => K::Attach(j.get("xs").a().iter().map(|x| expr(env, x)).collect()),
        "when" => {
            let cond = expr(env, j.get("c"));
            let when: Vec<_> = stmts(env, j.get("t"));
            let r#else: Vec<_> = stmts(env, j.get("f"));
            K::Conditional { cond, when: when.into(), r#else: r#else.into() }
        }
        "stop" => K::Stop {
            name: name(),
            clock: expr(env, j.get("clk")),
            cond: expr(env, j.get("c")),
            code: j.get("code").s().parse().expect("harness: code"),
        },
        "print" => K::Print {
            name: name(),
            clock: expr(env, j.get("clk")),
            cond: expr(env, j.get("c")),
            msg: j.get("msg").a().iter().map(|m| match m.opt("lit") {
                Some(l) => print::PrintElement::Literal(l.s().to_owned()),
                None => print::PrintElement::Value(expr(env, m.get("x")), match m.get("f").s() {
                    "b" => print::Format::Binary,
                    "d" => print::Format::Decimal,
                    "x" => print::Format::Hexadecimal,
                    "c" => print::Format::Character,
                    f => panic!("harness: format {}", f),
                }),
            }).collect(),
        },
        k => panic!("harness: statement {}", k),
    };
    let s = Statement::from(kind);
    match opt(j.get("info")) {
        Some(i) => s.with_info(Some(i.s().to_owned())),
        None => s,
    }
}

pub fn param(j: &J) -> module::ParamValue {
    if let Some(i) = j.opt("int") {
        module::ParamValue::Int(i.s().parse().expect("harness: int"))
    } else if let Some(d) = j.opt("dbl") {
        let t = format!("{}{}e{}", if d.get("neg").b() { "-" } else { "" }, d.get("d").s(), d.get("x").n());
        module::ParamValue::Double(t.parse().expect("harness: double"))
    } else {
        module::ParamValue::String(j.get("str").s().into())
    }
}

/// Build a module, `env` provides the modules which may be instantiated
pub fn module(env: &mut Env, j: &J) -> Module {
    let ports: Vec<_> = j.get("ports").a().iter().map(port).collect();
    env.decls = ports.iter().cloned().map(|p| Arc::new(Entity::from(p))).collect();
    env.smems.clear();
    env.shared.borrow_mut().clear();
    let kind = kind(env, j);
    Module::new(j.get("n").s().into(), ports, kind).with_info(ostr(j.get("info")))
}

pub fn kind(env: &mut Env, j: &J) -> module::Kind {
    match j.get("kind").s() {
        "module" => module::Kind::Regular { stmts: stmts(env, j.get("body")) },
        _ => module::Kind::External {
            defname: opt(j.get("defname")).map(|n| n.s().into()),
            params: j.get("params").a().iter().map(|p| (p.get("k").s().into(), param(p.get("v")))).collect(),
        },
    }
}

pub fn modules(j: &J) -> Vec<Arc<Module>> {
    modules_of(j, false)
}

pub fn modules_of(j: &J, split: bool) -> Vec<Arc<Module>> {
    let mut env = Env { split, ..Default::default() };
    for m in j.a() {
        let m = Arc::new(module(&mut env, m));
        env.mods.push(m)
    }
    env.mods
}

/// Environment from explicit lists of modules, simple memories and entities
pub fn env(j: &J) -> Env {
    let mut r = Env { mods: modules(j.get("mods")), ..Default::default() };
    r.smems = j.get("smems").a().iter().map(|m| Arc::new(smem(m))).collect();
    for d in j.get("decls").a() {
        let e = Arc::new(entity(&r, d));
        r.decls.push(e)
    }
    r
}
