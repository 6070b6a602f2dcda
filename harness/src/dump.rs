//! Documents describing values of the library

use std::sync::Arc;

use firrtl_ast::expr::primitive::Operation as Op;
use firrtl_ast::expr::Expression as Expr;
use firrtl_ast::info::WithInfo;
use firrtl_ast::memory::{mem, simple, PortDir, Register};
use firrtl_ast::module::{self, Module};
use firrtl_ast::stmt::{print, Entity, Kind, Statement};
use firrtl_ast::types::{BundleField, GroundType as GT, Orientation, OrientedType, ResetKind, Type, Typed};
use firrtl_ast::Named;

use crate::doc::E;
use crate::json::{a, n, o, s, J};

pub struct Dump {
    decls: Vec<Arc<Entity>>,
    canon: Vec<usize>,
    smems: Vec<Arc<simple::Memory>>,
    mods: Vec<Arc<Module>>,
}

pub fn os(v: Option<&str>) -> J { a(v.map(s)) }

pub fn width(w: Option<u16>) -> J { w.map(n).unwrap_or(J::N(-1)) }

pub fn ground(g: &GT) -> J {
    match g {
        GT::UInt(w) => o([("t", s("uint")), ("w", width(*w))]),
        GT::SInt(w) => o([("t", s("sint")), ("w", width(*w))]),
        GT::Analog(w) => o([("t", s("analog")), ("w", width(*w))]),
        GT::Fixed(w, p) => o([("t", s("fixed")), ("w", width(*w)), ("p", a(p.map(n)))]),
        GT::Clock => o([("t", s("clock"))]),
        GT::Reset(ResetKind::Regular) => o([("t", s("reset"))]),
        GT::Reset(ResetKind::Async) => o([("t", s("areset"))]),
    }
}

pub fn ty(t: &Type) -> J {
    match t {
        Type::GroundType(g) => ground(g),
        Type::Vector(b, w) => o([("t", s("vec")), ("b", ty(b)), ("n", n(*w))]),
        Type::Bundle(f) => o([("t", s("bundle")), ("f", a(f.iter().map(field)))]),
    }
}

pub fn field(f: &BundleField) -> J {
    o([("n", s(f.name_ref())), ("flip", J::B(f.orientation() == Orientation::Flipped)), ("ty", ty(f.r#type()))])
}

pub fn oty(t: &OrientedType) -> J {
    match t {
        OrientedType::GroundType(g, r) => o([("t", s("leaf")), ("g", ground(g)), ("flip", J::B(*r == Orientation::Flipped))]),
        OrientedType::Vector(b, w) => o([("t", s("vec")), ("b", oty(b)), ("n", n(*w))]),
        OrientedType::Bundle(f) => o([("t", s("bundle")), ("f", a(f.iter().map(|(m, t)| o([("n", s(m.as_ref())), ("ty", oty(t))]))))]),
    }
}

pub fn pdir(d: Option<PortDir>) -> J {
    s(match d {
        Some(PortDir::Read) => "read",
        Some(PortDir::Write) => "write",
        Some(PortDir::ReadWrite) => "rdwr",
        None => "infer",
    })
}

pub fn port(p: &module::Port) -> J {
    o([("k", s("port")), ("n", s(p.name_ref())), ("dir", s(p.direction().keyword())), ("ty", ty(p.r#type())), ("info", os(p.info()))])
}

pub fn memory(m: &mem::Memory) -> J {
    o([
        ("k", s("mem")),
        ("n", s(m.name_ref())),
        ("ty", ty(m.data_type())),
        ("depth", s(m.depth().to_string())),
        ("ports", a(m.ports().map(|p| o([("n", s(p.name.as_ref())), ("d", pdir(Some(p.dir)))])))),
        ("rl", n(m.read_latency())),
        ("wl", n(m.write_latency())),
        ("ruw", s(m.read_under_write().keyword())),
    ])
}

pub fn smem(m: &simple::Memory) -> J {
    let (k, r) = match m.kind() {
        simple::Kind::Combinatory => ("cmem", None),
        simple::Kind::Sequential(r) => ("smem", r),
    };
    let t = match m.r#type() { Ok(t) => ty(&t), Err(_) => o([("t", s("none"))]) };
    o([("n", s(m.name_ref())), ("ty", t), ("kind", s(k)), ("ruw", os(r.map(|r| r.keyword())))])
}

pub fn param(v: &module::ParamValue) -> J {
    match v {
        module::ParamValue::Int(i) => o([("int", s(i.to_string()))]),
        module::ParamValue::Double(d) => {
            // Shortest decimal digits denoting the value, normalised
            if d.is_infinite() {
                return o([("dbl", o([("neg", J::B(*d < 0.0)), ("d", s("1")), ("x", J::N(1000000))]))])
            }
            let t = format!("{:e}", d.abs());
            let (m, e) = match t.find('e') { Some(i) => (t[..i].to_owned(), t[i + 1..].parse().unwrap_or(0i64)), None => (t.clone(), 0) };
            let frac = m.find('.').map(|i| m.len() - i - 1).unwrap_or(0) as i64;
            let digits = m.replace('.', "");
            let x = if digits == "0" { 0 } else { e - frac };
            let neg = d.is_sign_negative() && digits != "0";
            o([("dbl", o([("neg", J::B(neg)), ("d", s(digits)), ("x", J::N(x))]))])
        }
        module::ParamValue::String(t) => o([("str", s(t.as_ref()))]),
    }
}

fn collect(b: &[Statement], decls: &mut Vec<Arc<Entity>>, smems: &mut Vec<Arc<simple::Memory>>) {
    for t in b {
        match t.kind() {
            Kind::Declaration(e) => decls.push(e.clone()),
            Kind::SimpleMemDecl(m) => smems.push(m.clone()),
            Kind::Conditional { when, r#else, .. } => {
                collect(when, decls, smems);
                collect(r#else, decls, smems)
            }
            _ => (),
        }
    }
}

impl Dump {
    pub fn new(decls: Vec<Arc<Entity>>, smems: Vec<Arc<simple::Memory>>, mods: Vec<Arc<Module>>) -> Self {
        // Declarations which are equal can not be told apart, the first one
        // stands for all of them.
        let canon = (0..decls.len())
            .map(|i| (0..i).find(|j| Arc::ptr_eq(&decls[*j], &decls[i]) || decls[*j] == decls[i]).unwrap_or(i))
            .collect();
        Self { decls, canon, smems, mods }
    }

    pub fn of(m: &Module, mods: &[Arc<Module>]) -> Self {
        let mut decls = m.ports().cloned().map(|p| Arc::new(Entity::from(p))).collect();
        let mut smems = Default::default();
        collect(m.statements(), &mut decls, &mut smems);
        Self::new(decls, smems, mods.to_vec())
    }

    pub fn ent_id(&self, e: &Arc<Entity>) -> i64 {
        self.decls.iter().position(|d| Arc::ptr_eq(d, e))
            .or_else(|| self.decls.iter().position(|d| d == e))
            .map(|i| self.canon[i] as i64 + 1)
            .unwrap_or(0)
    }

    pub fn mod_id(&self, m: &Arc<Module>) -> i64 {
        self.mods.iter().position(|x| Arc::ptr_eq(x, m) || x == m).map(|i| i as i64 + 1).unwrap_or(0)
    }

    pub fn expr(&self, x: &E) -> J {
        match x {
            Expr::UIntLiteral { value, width } => o([("e", s("uint")), ("v", s(value.to_str_radix(16))), ("w", n(*width))]),
            Expr::SIntLiteral { value, width } => o([("e", s("sint")), ("v", s(value.to_str_radix(16))), ("w", n(*width))]),
            Expr::Reference(r) => o([("e", s("ref")), ("n", s(r.name_ref())), ("d", J::N(self.ent_id(r)))]),
            Expr::SubField { base, index } => o([("e", s("field")), ("b", self.expr(base)), ("n", s(index.as_ref()))]),
            Expr::SubIndex { base, index } => o([("e", s("index")), ("b", self.expr(base)), ("i", n(*index))]),
            Expr::SubAccess { base, index } => o([("e", s("access")), ("b", self.expr(base)), ("x", self.expr(index))]),
            Expr::Mux { sel, a, b } => o([("e", s("mux")), ("s", self.expr(sel)), ("a", self.expr(a)), ("b", self.expr(b))]),
            Expr::ValidIf { sel, value } => o([("e", s("validif")), ("s", self.expr(sel)), ("v", self.expr(value))]),
            Expr::PrimitiveOp(op) => self.op(op),
        }
    }

    pub fn op(&self, op: &Op<Arc<Entity>>) -> J {
        let r = |k: &str, x: &[&Arc<E>], p: Vec<i64>| o([
            ("e", s("op")),
            ("op", s(k)),
            ("x", a(x.iter().map(|x| self.expr(x)))),
            ("p", a(p.into_iter().map(J::N))),
        ]);
        match op {
            Op::Add(x, y) => r("add", &[x, y], vec![]),
            Op::Sub(x, y) => r("sub", &[x, y], vec![]),
            Op::Mul(x, y) => r("mul", &[x, y], vec![]),
            Op::Div(x, y) => r("div", &[x, y], vec![]),
            Op::Rem(x, y) => r("rem", &[x, y], vec![]),
            Op::Lt(x, y) => r("lt", &[x, y], vec![]),
            Op::LEq(x, y) => r("leq", &[x, y], vec![]),
            Op::Gt(x, y) => r("gt", &[x, y], vec![]),
            Op::GEq(x, y) => r("geq", &[x, y], vec![]),
            Op::Eq(x, y) => r("eq", &[x, y], vec![]),
            Op::NEq(x, y) => r("neq", &[x, y], vec![]),
            Op::Pad(x, b) => r("pad", &[x], vec![(*b).into()]),
            Op::Cast(x, GT::UInt(None)) => r("asUInt", &[x], vec![]),
            Op::Cast(x, GT::SInt(None)) => r("asSInt", &[x], vec![]),
            Op::Cast(x, GT::Fixed(None, Some(p))) => r("asFixed", &[x], vec![(*p).into()]),
            Op::Cast(x, GT::Clock) => r("asClock", &[x], vec![]),
            Op::Cast(x, GT::Reset(ResetKind::Async)) => r("asAsyncReset", &[x], vec![]),
            Op::Cast(x, _) => r("cast?", &[x], vec![]),
            Op::Shl(x, b) => r("shl", &[x], vec![(*b).into()]),
            Op::Shr(x, b) => r("shr", &[x], vec![(*b).into()]),
            Op::DShl(x, y) => r("dshl", &[x, y], vec![]),
            Op::DShr(x, y) => r("dshr", &[x, y], vec![]),
            Op::Cvt(x) => r("cvt", &[x], vec![]),
            Op::Neg(x) => r("neg", &[x], vec![]),
            Op::Not(x) => r("not", &[x], vec![]),
            Op::And(x, y) => r("and", &[x, y], vec![]),
            Op::Or(x, y) => r("or", &[x, y], vec![]),
            Op::Xor(x, y) => r("xor", &[x, y], vec![]),
            Op::AndReduce(x) => r("andr", &[x], vec![]),
            Op::OrReduce(x) => r("orr", &[x], vec![]),
            Op::XorReduce(x) => r("xorr", &[x], vec![]),
            Op::Cat(x, y) => r("cat", &[x, y], vec![]),
            Op::Bits(x, Some(l), Some(h)) => r("bits", &[x], vec![(*h).into(), (*l).into()]),
            Op::Bits(x, None, Some(h)) => r("head", &[x], vec![(*h).into()]),
            Op::Bits(x, Some(l), None) => r("tail", &[x], vec![(*l).into()]),
            Op::Bits(x, None, None) => r("bits?", &[x], vec![]),
            Op::IncPrecision(x, b) => r("incp", &[x], vec![(*b).into()]),
            Op::DecPrecision(x, b) => r("decp", &[x], vec![(*b).into()]),
            Op::SetPrecision(x, b) => r("setp", &[x], vec![(*b).into()]),
        }
    }

    pub fn register(&self, r: &Register<Arc<Entity>>) -> J {
        let rst = match (r.reset_signal(), r.reset_value()) {
            (Some(x), Some(y)) => a(vec![o([("s", self.expr(x)), ("v", self.expr(y))])]),
            (None, None) => a(vec![]),
            _ => a(vec![o([("inconsistent", n(1))])]),
        };
        let t = match r.r#type() { Ok(t) => ty(&t), Err(_) => o([("t", s("none"))]) };
        o([("k", s("reg")), ("n", s(r.name_ref())), ("ty", t), ("clk", self.expr(r.clock())), ("rst", rst)])
    }

    pub fn mport(&self, p: &simple::Port<Arc<Entity>>) -> J {
        let md = self.smems.iter().position(|m| m == p.memory()).map(|i| i as i64 + 1).unwrap_or(0);
        o([
            ("k", s("mport")),
            ("n", s(p.name_ref())),
            ("m", s(p.memory().name_ref())),
            ("md", J::N(md)),
            ("dir", pdir(p.direction())),
            ("addr", self.expr(p.address())),
            ("clk", self.expr(p.clock())),
        ])
    }

    pub fn entity(&self, e: &Entity) -> J {
        match e {
            Entity::Port(p) => port(p),
            Entity::Wire { name, r#type } => o([("k", s("wire")), ("n", s(name.as_ref())), ("ty", ty(r#type))]),
            Entity::Register(r) => self.register(r),
            Entity::Node { name, value } => o([("k", s("node")), ("n", s(name.as_ref())), ("v", self.expr(value))]),
            Entity::Memory(m) => memory(m),
            Entity::SimpleMemPort(p) => self.mport(p),
            Entity::Instance(i) => o([
                ("k", s("inst")),
                ("n", s(i.name_ref())),
                ("of", s(i.module().name_ref())),
                ("mi", J::N(self.mod_id(i.module()))),
            ]),
        }
    }

    pub fn stmts(&self, b: &[Statement]) -> J {
        a(b.iter().map(|t| self.stmt(t)))
    }

    pub fn stmt(&self, t: &Statement) -> J {
        let i = ("info", os(t.info()));
        match t.kind() {
            Kind::Connection { from, to } => o([("s", s("conn")), ("to", self.expr(to)), ("from", self.expr(from)), i]),
            Kind::PartialConnection { from, to } => o([("s", s("pconn")), ("to", self.expr(to)), ("from", self.expr(from)), i]),
            Kind::Empty => o([("s", s("skip")), i]),
            Kind::Declaration(e) => o([("s", s("decl")), ("ent", self.entity(e)), i]),
            Kind::SimpleMemDecl(m) => o([("s", s("smem")), ("m", smem(m)), i]),
            Kind::Invalidate(x) => o([("s", s("inval")), ("x", self.expr(x)), i]),
            Kind::Attach(xs) => o([("s", s("attach")), ("xs", a(xs.iter().map(|x| self.expr(x)))), i]),
            Kind::Conditional { cond, when, r#else } => o([
                ("s", s("when")),
                ("c", self.expr(cond)),
                ("t", self.stmts(when)),
                ("f", self.stmts(r#else)),
                i,
            ]),
            Kind::Stop { name, clock, cond, code } => o([
                ("s", s("stop")),
                ("clk", self.expr(clock)),
                ("c", self.expr(cond)),
                ("code", s(code.to_string())),
                ("name", os(name.as_ref().map(AsRef::as_ref))),
                i,
            ]),
            Kind::Print { name, clock, cond, msg } => o([
                ("s", s("print")),
                ("clk", self.expr(clock)),
                ("c", self.expr(cond)),
                ("msg", a(msg.iter().map(|m| match m {
                    print::PrintElement::Literal(l) => o([("lit", s(l.as_str()))]),
                    print::PrintElement::Value(x, f) => o([("x", self.expr(x)), ("f", s(match f {
                        print::Format::Binary => "b",
                        print::Format::Decimal => "d",
                        print::Format::Hexadecimal => "x",
                        print::Format::Character => "c",
                    }))]),
                }))),
                ("name", os(name.as_ref().map(AsRef::as_ref))),
                i,
            ]),
        }
    }
}

/// Dump a module, `mods` are the modules its instances may refer to
pub fn module(m: &Module, mods: &[Arc<Module>]) -> J {
    let d = Dump::of(m, mods);
    let (body, defname, params) = match m.kind() {
        module::Kind::Regular { stmts } => (d.stmts(stmts), a(vec![]), a(vec![])),
        module::Kind::External { defname, params } => {
            let mut p: Vec<_> = params.iter().collect();
            p.sort_by(|l, r| l.0.cmp(r.0));
            (
                a(vec![]),
                os(defname.as_ref().map(AsRef::as_ref)),
                a(p.iter().map(|(k, v)| o([("k", s(k.as_ref())), ("v", param(v))]))),
            )
        }
    };
    o([
        ("n", s(m.name_ref())),
        ("kind", s(m.kind().keyword())),
        ("info", os(m.info())),
        ("ports", a(m.ports().map(|p| port(p)))),
        ("body", body),
        ("defname", defname),
        ("params", params),
    ])
}

pub fn modules(ms: &[Arc<Module>]) -> J {
    a(ms.iter().enumerate().map(|(i, m)| module(m, &ms[..i])))
}
