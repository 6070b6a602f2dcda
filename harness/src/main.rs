//! Executes requests (one JSON document per line) against the library and
//! writes one observation per request. All judging happens elsewhere.

mod build;
mod doc;
mod dump;
mod json;
mod parts;

use std::io::{BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use firrtl_ast::circuit::{self, Circuit, ModuleConsumer};
use firrtl_ast::error::ParseError;
use firrtl_ast::expr::{Expression as Expr, Flow};
use firrtl_ast::info::WithInfo;
use firrtl_ast::module::{Module, Modules};
use firrtl_ast::stmt::context::{Context, SubContext, TopContext};
use firrtl_ast::stmt::{Entity, Statement};
use firrtl_ast::types::{self, combinator::FnWidth, Combinator, MaxWidth, OrientedType, Type, TypeExt, Typed};
use firrtl_ast::Named;

use dump::Dump;
use json::{a, n, o, s, J};

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mb: usize = std::env::var("HARNESS_STACK_MB").ok().and_then(|v| v.parse().ok()).unwrap_or(512);
    std::thread::Builder::new().stack_size(mb << 20).spawn(run).expect("thread").join().expect("join");
}

fn run() {
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("read request");
        if line.is_empty() { continue }
        let req = json::parse(&line);
        let res = guarded(|| exec(&req));
        let mut t = String::new();
        res.write(&mut t);
        t.push('\n');
        let mut out = stdout.lock();
        out.write_all(t.as_bytes()).expect("write");
        out.flush().expect("flush");
    }
}

fn guarded(f: impl FnOnce() -> J) -> J {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if m.starts_with("harness:") {
            eprintln!("{}", m);
            std::process::exit(3)
        }
        o([("panic", s(m))])
    })
}

fn exec(q: &J) -> J {
    doc::SHARE.store(q.opt("share").map(|s| s.b()).unwrap_or(false), std::sync::atomic::Ordering::Relaxed);
    match q.get("op").s() {
        "parse" => parse(q),
        "layout" | "shift" => a(q.get("ts").a().iter().map(|t| guarded(|| parse_text(t.s())))),
        "deep" => deep(q),
        "mods" => mods(q),
        "cons" => cons(q),
        "read" => read(q),
        "rt" => rt(q),
        "exprs" => exprs(q),
        "ents" => ents(q),
        "trav" => trav(q),
        "types" => type_ops(q),
        "fmax" => fmax(q),
        "addrw" => addrw(q),
        "orient" => orient_algebra(),
        "ctx" => ctx(q),
        "build" => build::history(q),
        "parts" => parts::print(q),
        "sink" => parts::sink(q),
        "pairs" => parts::compare(q),
        "hist" => hist(q),
        "origin" => origin(q),
        x => panic!("harness: unknown op {}", x),
    }
}

// -------------------------------------------------------------------------
// Errors

/// Line numbers of an error message, and the message without those
fn err(e: &ParseError) -> J {
    let m = e.to_string();
    let io = if let ParseError::IO(_) = e { true } else { false };
    let pat = "at line ";
    let mut lines = Vec::new();
    let mut rest = String::new();
    let mut t = m.as_str();
    while let Some(i) = t.find(pat) {
        rest.push_str(&t[..i + pat.len()]);
        t = &t[i + pat.len()..];
        let l: String = t.chars().take_while(char::is_ascii_digit).collect();
        t = &t[l.len()..];
        rest.push('#');
        if let Ok(l) = l.parse::<i64>() { lines.push(J::N(l)) }
    }
    rest.push_str(t);
    o([("k", s("err")), ("io", J::B(io)), ("lines", a(lines)), ("msg", s(rest))])
}

fn circ(r: Result<Circuit, ParseError>, ms: &[Arc<Module>]) -> J {
    match r {
        Ok(c) => o([
            ("k", s("ok")),
            ("top", n(ms.iter().position(|m| m == c.top_module()).map(|i| i as i64 + 1).unwrap_or(0))),
            ("info", dump::os(c.info())),
        ]),
        Err(e) => err(&e),
    }
}

// -------------------------------------------------------------------------
// Parsing

fn parse(q: &J) -> J {
    let t = q.get("t").s();
    let r = parse_text(t);
    let again = parse_text(t);
    let mut v = match r { J::O(v) => v, _ => unreachable!() };
    v.push(("det".to_owned(), J::B(J::O(v.clone()) == again)));
    J::O(v)
}

/// Outcomes of several texts, parsed in another order, by several threads and
/// from one place in memory
fn hist(q: &J) -> J {
    let ts: Vec<String> = q.get("ts").a().iter().map(|t| t.s().to_owned()).collect();
    let first: Vec<J> = ts.iter().map(|t| parse_text(t)).collect();
    let mut rev: Vec<J> = ts.iter().rev().map(|t| parse_text(t)).collect();
    rev.reverse();
    let n = 4;
    let par = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n).map(|i| {
            let ts = &ts;
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                (0..ts.len()).map(|k| (k * (2 * i + 1) + i) % ts.len()).map(|k| (k, parse_text(&ts[k]))).collect::<Vec<_>>()
            }).expect("thread")
        }).collect();
        hs.into_iter().all(|h| h.join().expect("harness thread").into_iter().all(|(k, r)| r == first[k]))
    });
    let mut place = String::with_capacity(ts.iter().map(String::len).max().unwrap_or(0));
    let buf = (0..ts.len()).chain((0..ts.len()).rev()).all(|k| {
        place.clear();
        place.push_str(&ts[k]);
        parse_text(&place) == first[k]
    });
    o([("n", n_(ts.len())), ("rev", J::B(rev == first)), ("par", J::B(par)), ("buf", J::B(buf))])
}

fn n_(x: usize) -> J { J::N(x as i64) }

fn noerr() -> J { o([("k", s("none")), ("lines", a(vec![])), ("msg", s("")), ("io", J::B(false))]) }

fn parse_text(t: &str) -> J {
    let mut ms: Vec<Arc<Module>> = Vec::new();
    let mut tops = Vec::new();
    let mut fin = noerr();
    let mut hdr = true;
    let mut after = Vec::new();
    let mut own = J::B(false);
    match circuit::consumer(t) {
        Err(e) => {
            hdr = false;
            fin = err(&e)
        }
        Ok(mut c) => {
            own = circ(c.circuit().ok_or_else(|| "none".to_owned().into()), &ms);
            loop {
                match c.next() {
                    None => break,
                    Some(Err(e)) => {
                        fin = err(&e);
                        break
                    }
                    Some(Ok(m)) => ms.push(m),
                }
                tops.push(circ(c.circuit().ok_or_else(|| "none".to_owned().into()), &ms));
                if ms.len() > 20000 { panic!("endless iteration of modules") }
            }
            for _ in 0..3 {
                after.push(s(match c.next() { None => "none", Some(Ok(_)) => "ok", Some(Err(_)) => "err" }))
            }
        }
    }
    let parsed = circuit::parse(t);
    let top = parsed.as_ref().ok().map(|c| c.top_module().clone());
    o([
        ("hdr", J::B(hdr)),
        ("start", own),
        ("mods", dump::modules(&ms)),
        ("tops", a(tops)),
        ("end", fin),
        ("after", a(after)),
        ("circ", circ(parsed, &ms)),
        ("read", circ(Circuit::from_read(Chunks { data: t.as_bytes(), sizes: vec![3, 1, 7], i: 0, fail: None, kind: 0, intr: false }), &ms)),
        ("refd", a(top.iter().flat_map(|m| m.referenced_modules()).map(|m| s(m.name_ref())))),
    ])
}

/// Input of a given nesting depth, only whether there is an answer counts
fn deep(q: &J) -> J {
    let d = q.get("n").n() as usize;
    let t = match q.get("kind").s() {
        "paren" => format!("circuit m:\n module m:\n  node n = {}UInt<1>(0){}\n", "not(".repeat(d), ")".repeat(d)),
        "vec" => format!("circuit m:\n module m:\n  wire n: UInt{}\n", "[1]".repeat(d)),
        "bundle" => format!("circuit m:\n module m:\n  wire n: {}UInt{}\n", "{a: ".repeat(d), "}".repeat(d)),
        "field" => format!("circuit m:\n module m:\n  wire n: UInt\n  skip\n  node x = n{}\n", ".a".repeat(d)),
        "when" => {
            let mut t = String::from("circuit m:\n module m:\n  input c: UInt<1>\n");
            (0..d).for_each(|i| t.push_str(&format!("{}when c:\n", " ".repeat(i + 2))));
            t.push_str(&format!("{}skip\n", " ".repeat(d + 2)));
            t
        }
        "elsewhen" => {
            let mut t = String::from("circuit m:\n module m:\n  input c: UInt<1>\n  when c:\n   skip\n");
            (0..d).for_each(|_| t.push_str("  else when c:\n   skip\n"));
            t
        }
        "text" => {
            let g = |k: &str| q.get(k).s();
            format!("{}{}{}{}{}", g("pre"), g("open").repeat(d), g("mid"), g("close").repeat(d), g("post"))
        }
        k => panic!("harness: kind {}", k),
    };
    o([("ok", J::B(circuit::parse(&t).is_ok()))])
}

/// Iteration of modules with interleaved additions and lookups
fn mods(q: &J) -> J {
    let t = q.get("t").s();
    let names = q.get("names").a();
    let mut env = doc::Env::default();
    let mut known: Vec<Arc<Module>> = Vec::new();
    let mut it = Modules::new(t);
    let mut out = Vec::new();
    for step in q.get("steps").a() {
        let r = match step.get("a").s() {
            "add" => {
                env.mods = known.clone();
                let m = Arc::new(doc::module(&mut env, step.get("m")));
                it.add_module(m.clone());
                known.push(m);
                o([("k", s("added"))])
            }
            "next" => match it.next() {
                None => o([("k", s("none"))]),
                Some(Err(_)) => o([("k", s("err"))]),
                Some(Ok(m)) => {
                    let d = dump::module(&m, &known);
                    known.push(m);
                    o([("k", s("ok")), ("m", d)])
                }
            },
            x => panic!("harness: step {}", x),
        };
        // What the table holds, as latest equal module
        let tab = a(names.iter().map(|x| n(it.module(x.s())
            .and_then(|m| known.iter().rposition(|k| Arc::ptr_eq(k, m)).or_else(|| known.iter().rposition(|k| k == m)).map(|i| i as i64 + 1))
            .unwrap_or(if it.module(x.s()).is_some() { -1 } else { 0 }))));
        out.push(o([("r", r), ("tab", tab)]))
    }
    a(out)
}

/// Iteration of modules in the middle of a text
fn origin(q: &J) -> J {
    let pre = q.get("pre").s();
    let t = format!("{}{}", pre, q.get("t").s());
    let own = &t[pre.len()..];
    let run = |mut it: Modules| {
        let mut ms: Vec<Arc<Module>> = Vec::new();
        let end = loop {
            match it.next() {
                None => break noerr(),
                Some(Err(e)) => break err(&e),
                Some(Ok(m)) => ms.push(m),
            }
        };
        o([("mods", dump::modules(&ms)), ("end", end)])
    };
    a([run(Modules::new_with_origin(own, &t)), run(Modules::new(own))])
}

/// A consumer over a given sequence of modules and errors
fn cons(q: &J) -> J {
    let ms = doc::modules(q.get("mods"));
    let items: Vec<Result<Arc<Module>, String>> = q.get("items").a().iter().map(|i| match i.n() {
        0 => Err("error".to_owned()),
        i => Ok(ms[i as usize - 1].clone()),
    }).collect();
    let mut items = items.into_iter();
    // An iterator which may continue behind its end, as iterators may
    let it = std::iter::from_fn(move || items.next());
    let mut c = Some(ModuleConsumer::new(q.get("top").s(), doc::ostr(q.get("info")), it));
    let id = |m: &Arc<Module>| n(ms.iter().position(|x| Arc::ptr_eq(x, m)).or_else(|| ms.iter().position(|x| x == m)).map(|i| i as i64 + 1).unwrap_or(-1));
    let show = |x: Option<Circuit>| a(x.map(|x| o([("top", id(x.top_module())), ("info", dump::os(x.info()))])));
    a(q.get("steps").a().iter().map(|st| match st.s() {
        "next" => match c.as_mut().and_then(|c| c.next()) {
            None => o([("r", s("none"))]),
            Some(Err(_)) => o([("r", s("err"))]),
            Some(Ok(m)) => o([("r", s("ok")), ("m", id(&m))]),
        },
        "circuit" => o([("r", s("circuit")), ("c", show(c.as_ref().and_then(|c| c.circuit())))]),
        "into" => match c.take().map(|c| c.into_circuit()) {
            Some(Ok(x)) => o([("r", s("into")), ("c", show(Some(x)))]),
            _ => o([("r", s("into")), ("c", a(vec![]))]),
        },
        x => panic!("harness: step {}", x),
    }))
}

struct Chunks<'a> {
    data: &'a [u8],
    sizes: Vec<usize>,
    i: usize,
    fail: Option<usize>,
    kind: usize,
    intr: bool,
}

impl Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.intr && self.i % 2 == 0 {
            self.i += 1;
            return Err(std::io::ErrorKind::Interrupted.into())
        }
        if self.fail == Some(0) {
            use std::io::ErrorKind as K;
            let ks = [K::Other, K::UnexpectedEof, K::WouldBlock, K::InvalidData, K::TimedOut, K::BrokenPipe, K::NotFound, K::ConnectionReset, K::WriteZero];
            let k = ks[self.kind % ks.len()];
            return Err(if self.kind < ks.len() { k.into() } else { std::io::Error::new(k, "failed") })
        }
        let mut l = std::cmp::min(self.data.len(), std::cmp::min(buf.len(), self.sizes[self.i % self.sizes.len()]));
        if let Some(f) = self.fail.as_mut() {
            l = std::cmp::min(l, *f);
            *f -= l
        }
        self.i += 1;
        buf[..l].copy_from_slice(&self.data[..l]);
        self.data = &self.data[l..];
        Ok(l)
    }
}

fn read(q: &J) -> J {
    let data: Vec<u8> = q.get("bytes").a().iter().map(|b| b.n() as u8).collect();
    let r = Chunks {
        data: &data,
        sizes: q.get("sizes").a().iter().map(|b| b.n() as usize).collect(),
        i: 0,
        fail: doc::opt(q.get("fail")).map(|f| f.n() as usize),
        kind: q.get("kind").n() as usize,
        intr: q.get("intr").b(),
    };
    let c = Circuit::from_read(r);
    let text = String::from_utf8(data.clone()).ok();
    let ms: Vec<Arc<Module>> = text.as_ref()
        .and_then(|t| circuit::consumer(t).ok().map(|c| c.filter_map(Result::ok).collect()))
        .unwrap_or_default();
    let p = text.as_ref().map(|t| circuit::parse(t));
    let same = match (&c, &p) { (Ok(x), Some(Ok(y))) => x == y, _ => false };
    o([
        ("c", circ(c, &ms)),
        ("p", p.map(|p| circ(p, &ms)).unwrap_or_else(|| o([("k", s("nonutf8"))]))),
        ("same", J::B(same)),
        ("mods", dump::modules(&ms)),
    ])
}

// -------------------------------------------------------------------------
// Printing and reading back

fn show(c: &Circuit) -> Option<String> {
    use std::fmt::Write;
    let mut t = String::new();
    write!(t, "{}", c).ok().map(|_| t)
}

fn rt(q: &J) -> J {
    let built = doc::modules_of(q.get("mods"), q.opt("split").map_or(false, J::b));
    let c = Circuit::new(built[q.get("top").n() as usize - 1].clone()).with_info(doc::ostr(q.get("info")));
    let pre = ("built", dump::modules(&built));
    let text = match show(&c) {
        None => return o([pre, ("printed", J::B(false)), ("text", s(""))]),
        Some(t) => t,
    };
    let back = parse_text(&text);
    let (same, text2, stable) = match circuit::parse(&text) {
        Ok(b) => {
            let t2 = show(&b).unwrap_or_default();
            let b2 = circuit::parse(&t2);
            (b == c, t2, b2.map(|b2| b2 == b).unwrap_or(false))
        }
        Err(_) => (false, String::new(), false),
    };
    o([
        pre,
        ("printed", J::B(true)),
        ("text", s(text)),
        ("back", back),
        ("same", J::B(same)),
        ("text2", s(text2)),
        ("stable", J::B(stable)),
    ])
}

// -------------------------------------------------------------------------
// Typing and data flow

fn flow(f: Flow) -> &'static str {
    match f { Flow::Source => "source", Flow::Sink => "sink", Flow::Duplex => "duplex" }
}

fn exprs(q: &J) -> J {
    let env = doc::env(q.get("env"));
    let d = Dump::new(env.decls.clone(), env.smems.clone(), env.mods.clone());
    a(q.get("xs").a().iter().map(|x| guarded(|| {
        let e = doc::expr(&env, x);
        let t = match e.r#type() {
            Ok(t) => o([("k", s("ok")), ("v", dump::ty(&t))]),
            Err(b) => o([("k", s("err")), ("b", d.expr(&b))]),
        };
        let f = match e.flow() {
            Ok(f) => o([("k", s(flow(f))), ("src", J::B(f.is_source())), ("snk", J::B(f.is_sink()))]),
            Err(b) => o([("k", s("none")), ("b", d.expr(&b))]),
        };
        let subs = match &e {
            Expr::PrimitiveOp(op) => a(op.sub_exprs().into_iter().map(|x| d.expr(x))),
            _ => a(vec![]),
        };
        o([("x", d.expr(&e)), ("ty", t), ("flow", f), ("refs", a(e.references().map(|r| n(d.ent_id(r))))), ("subs", subs)])
    })))
}

/// Types, flows and names of entities themselves
fn ents(q: &J) -> J {
    let env = doc::env(q.get("env"));
    let d = Dump::new(env.decls.clone(), env.smems.clone(), env.mods.clone());
    a(env.decls.iter().map(|e| {
        use firrtl_ast::expr::Reference;
        fn rty<T, E>(r: Result<T, E>) -> J where T: Into<Type> {
            match r { Ok(t) => o([("k", s("ok")), ("v", dump::ty(&t.into()))]), Err(_) => o([("k", s("err")), ("v", o([("t", s("none"))]))]) }
        }
        let own = match e.as_ref() {
            Entity::Port(p) => rty(Typed::r#type(p.as_ref())),
            Entity::Register(r) => rty(r.r#type()),
            Entity::Memory(m) => rty(m.r#type()),
            Entity::SimpleMemPort(p) => rty(p.r#type()),
            Entity::Instance(i) => rty(i.r#type()),
            _ => rty(e.r#type()),
        };
        let own_flow = match e.as_ref() {
            Entity::Port(p) => p.flow(),
            Entity::Register(r) => r.flow(),
            Entity::Memory(m) => m.flow(),
            Entity::SimpleMemPort(p) => p.flow(),
            Entity::Instance(i) => i.flow(),
            _ => e.flow(),
        };
        let fl = |f: Option<Flow>| s(f.map(flow).unwrap_or("none"));
        o([
            ("ent", d.entity(e)),
            ("name", s(e.name_ref())),
            ("decl", J::B(e.is_declarable())),
            ("ty", rty(e.r#type())),
            ("own", own),
            ("flow", fl(e.flow())),
            ("oflow", fl(own_flow)),
        ])
    }))
}

// -------------------------------------------------------------------------
// Traversals

fn trav(q: &J) -> J {
    let ms = doc::modules(q.get("mods"));
    a(ms.iter().enumerate().map(|(k, m)| {
        let d = Dump::of(m, &ms[..k]);
        fn walk(d: &Dump, b: &[Statement], out: &mut Vec<J>) {
            for t in b {
                out.push(o([
                    ("decls", a(t.declarations().map(|e| n(d.ent_id(e))))),
                    ("insts", a(t.instantiations().map(|i| s(i.name_ref())))),
                    ("of", a(t.instantiations().map(|i| n(d.mod_id(i.module()))))),
                ]));
                if let firrtl_ast::stmt::Kind::Conditional { when, r#else, .. } = t.kind() {
                    walk(d, when, out);
                    walk(d, r#else, out)
                }
            }
        }
        let mut out = Vec::new();
        walk(&d, m.statements(), &mut out);
        o([
            ("stmts", a(out)),
            ("refd", a(m.referenced_modules().map(|m| n(d.mod_id(m))))),
            ("byname", a(q.get("names").a().iter().map(|x| dump::os(m.port_by_name(&x.s().to_owned()).map(|p| p.name_ref()))))),
        ])
    }))
}

// -------------------------------------------------------------------------
// Types

fn type_ops(q: &J) -> J {
    let ts: Vec<Type> = q.get("ts").a().iter().map(doc::ty).collect();
    let res = |r: Result<Type, (&Type, &Type)>| match r {
        Ok(t) => o([("ok", J::B(true)), ("v", dump::ty(&t))]),
        Err(_) => o([("ok", J::B(false))]),
    };
    let one = ts.iter().map(|t| {
        let n = OrientedType::from(t);
        let f = t.with_orientation(types::Orientation::Flipped);
        o([
            ("t", dump::ty(t)),
            ("passive", J::B(t.is_passive())),
            ("o", dump::oty(&n)),
            ("of", dump::oty(&f)),
            ("onf", dump::oty(&n.flipped())),
            ("off", dump::oty(&n.flipped().flipped())),
            ("opassive", J::B(n.is_passive())),
            ("ofpassive", J::B(f.is_passive())),
            ("ground", a(t.ground_type().map(|g| dump::ground(&g)))),
            ("oground", a(n.ground_type().map(|g| dump::ground(&g)))),
            ("base", a(t.vector_base().map(|b| dump::ty(b)))),
            ("vec", a(t.vector().map(|(b, w)| o([("b", dump::ty(b)), ("n", json::n(w))])))),
            ("fields", a(t.fields().map(|f| a(f.map(dump::field))))),
            ("get", a(q.get("names").a().iter().map(|x| a(t.field(x.s()).map(dump::field))))),
        ])
    });
    let pairs = q.get("pairs").a().iter().map(|p| {
        let l = &ts[p.a()[0].n() as usize - 1];
        let r = &ts[p.a()[1].n() as usize - 1];
        o([
            ("eq", J::B(TypeExt::eq(l, r))),
            ("weak", J::B(l.weak_eq(r))),
            ("oeq", J::B(TypeExt::eq(&OrientedType::from(l), &OrientedType::from(r)))),
            ("oeqf", J::B(TypeExt::eq(&OrientedType::from(l).flipped(), &OrientedType::from(r)))),
            ("max", res(MaxWidth::new().combine(l, r))),
            ("min", res(FnWidth::from(|l, r| Some(std::cmp::min(l, r))).combine(l, r))),
            ("sum", res(FnWidth::from(u16::checked_add).combine(l, r))),
        ])
    });
    o([("one", a(one)), ("pairs", a(pairs))])
}

fn fmax(q: &J) -> J {
    a(q.get("xs").a().iter().map(|x| {
        let v: Vec<i64> = x.a().iter().map(J::n).collect();
        dump::width(types::combine_fixed_max((v[0] as u16, v[1] as i16), (v[2] as u16, v[3] as i16)))
    }))
}

fn addrw(q: &J) -> J {
    a(q.get("xs").a().iter().map(|x| n(types::required_address_width(x.s().parse::<u128>().expect("harness: num")))))
}

fn orient_algebra() -> J {
    use types::Orientation as O;
    let os = [O::Normal, O::Flipped];
    let fs = [Flow::Source, Flow::Sink, Flow::Duplex];
    o([
        ("oo", a(os.iter().flat_map(|l| os.iter().map(move |r| J::B(*l + *r == O::Flipped))))),
        ("fo", a(fs.iter().flat_map(|l| os.iter().map(move |r| s(flow(*l + *r)))))),
        ("def", J::B(O::default() == O::Flipped)),
        ("src", a(fs.iter().map(|f| J::B(f.is_source())))),
        ("snk", a(fs.iter().map(|f| J::B(f.is_sink())))),
    ])
}

// -------------------------------------------------------------------------
// Contexts

fn ctx(q: &J) -> J {
    let env = doc::env(q.get("env"));
    let mods = env.mods.clone();
    let lookup = move |x: &str| mods.iter().find(|m| m.name_ref() == x).cloned();
    let mut out = Vec::new();
    let steps = q.get("steps").a();
    let ini: Vec<Arc<Entity>> = q.get("init").a().iter().map(|i| env.decls[i.n() as usize - 1].clone()).collect();
    let top = TopContext::new(lookup);
    let top = if q.get("ports").b() {
        top.with_ports(ini.iter().map(|e| match e.as_ref() { Entity::Port(p) => p.clone(), _ => panic!("harness: not a port") }))
    } else {
        top.with_entities(ini)
    };
    let mut top = top;
    let mut i = 0;
    level(&mut top, &env, steps, &mut i, &mut out);
    a(out)
}

fn level(c: &mut dyn Context, env: &doc::Env, steps: &[J], i: &mut usize, out: &mut Vec<J>) {
    while *i < steps.len() {
        let st = &steps[*i];
        *i += 1;
        match st.get("a").s() {
            "ent" => {
                c.add_entity(env.decls[st.get("i").n() as usize - 1].clone());
                out.push(n(0))
            }
            "mem" => {
                c.add_memory(env.smems[st.get("i").n() as usize - 1].clone());
                out.push(n(0))
            }
            "lent" => out.push(n(c.entity(st.get("n").s()).map(|e| env.decls.iter().position(|d| d == &e).map(|i| i as i64 + 1).unwrap_or(-1)).unwrap_or(0))),
            "lmem" => out.push(n(c.memory(st.get("n").s()).map(|e| env.smems.iter().position(|d| d == &e).map(|i| i as i64 + 1).unwrap_or(-1)).unwrap_or(0))),
            "lmod" => out.push(n(c.module(st.get("n").s()).map(|e| env.mods.iter().position(|d| d == &e).map(|i| i as i64 + 1).unwrap_or(-1)).unwrap_or(0))),
            "push" => {
                out.push(n(0));
                let mut sub = SubContext::of(c);
                level(&mut sub, env, steps, i, out)
            }
            "pop" => {
                out.push(n(0));
                return
            }
            x => panic!("harness: step {}", x),
        }
    }
}
