//! C16: interning is injective, gives back what went in, and is safe on many threads.
use crate::drv::{Case, Cfg, Stats, run_cases};
use crate::rng::Rng;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::Barrier;
use std::sync::atomic::{AtomicU64, Ordering};
use trunk_ir::Symbol;
use trunk_ir::context::IrContext;
use trunk_ir::location::Span;
use trunk_ir::refs::{PathRef, TypeRef};
use trunk_ir::symbol::BlockId;
use trunk_ir::types::{Attribute, AttributeMap, Location, TypeData, TypeDataBuilder};

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn text(r: &mut Rng, uniq: u64) -> String {
    // many near-collisions: shared prefixes, case, empty, NUL, long, non-ASCII
    let base = match r.below(10) {
        0 => String::new(),
        1 => "a".into(),
        2 => "A".into(),
        3 => "a\0".into(),
        4 => "a\0b".into(),
        5 => "é".into(),
        6 => "e\u{301}".into(),
        7 => "x".repeat(r.below(3000)),
        8 => format!("n{}", r.below(40)),
        _ => format!("{}{}", "ab".repeat(r.below(4)), r.below(4)),
    };
    if r.chance(70) { format!("{base}#{}", uniq.wrapping_mul(31) % 50_000 + r.below(12) as u64) } else { base }
}

enum Ev {
    Intern(Symbol),
    Lookup(Option<Symbol>),
}

fn symbols(c: &mut Case) {
    let mut r = c.rng.clone();
    let nt = 1 + r.below(8);
    let n = 30 + r.below(300);
    // texts are shared between the threads, and fresh for this case as far as possible
    let uniq = c.idx.wrapping_mul(7919) + 1;
    let pool: Vec<String> = (0..1 + r.below(40)).map(|_| text(&mut r, uniq)).collect();
    c.input(format!("{nt} threads, {n} operations each over {} texts, seed of case", pool.len()));
    let clock = AtomicU64::new(0);
    let bar = Barrier::new(nt);
    let seeds: Vec<u64> = (0..nt).map(|_| r.u64()).collect();
    type Log = (Vec<(u64, u64, usize, Ev)>, Vec<u64>, Option<String>);
    let logs: Vec<Log> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                let (pool, clock, bar) = (&pool, &clock, &bar);
                s.spawn(move || {
                    let mut r = Rng::new(seed);
                    let mut log = vec![];
                    let mut ids = vec![];
                    let mut bad: Option<String> = None;
                    bar.wait();
                    for _ in 0..n {
                        let k = r.below(pool.len());
                        let t = &pool[k];
                        let from = clock.fetch_add(1, Ordering::SeqCst);
                        match r.below(7) {
                            0 | 1 => {
                                let y = Symbol::lookup(t);
                                log.push((from, clock.fetch_add(1, Ordering::SeqCst), k, Ev::Lookup(y)));
                            }
                            2 => ids.push(BlockId::fresh().0),
                            3 => {
                                let y = Symbol::from(std::borrow::Cow::Borrowed(t.as_str()));
                                // reading other symbols while one is being read
                                let nested = y.with_str(|s| {
                                    let same = s == t.as_str() && y.to_string() == *t && y == t.as_str() && t.as_str() == y;
                                    same && log.iter().rev().take(3).all(|(_, _, j, e): &(u64, u64, usize, Ev)| match e {
                                        Ev::Intern(z) => z.with_str(|u| u == pool[*j]) && (y.cmp(z) == t.cmp(&pool[*j])),
                                        _ => true,
                                    })
                                });
                                if !nested {
                                    bad = Some(format!("nested reads of {t:?} disagree with its text"));
                                }
                                log.push((from, clock.fetch_add(1, Ordering::SeqCst), k, Ev::Intern(y)));
                            }
                            _ => {
                                let y = Symbol::from_dynamic(t);
                                let to = clock.fetch_add(1, Ordering::SeqCst);
                                if !y.with_str(|s| s == t) {
                                    bad = Some(format!("the symbol for {t:?} reads {:?}", y.to_string()));
                                }
                                log.push((from, to, k, Ev::Intern(y)));
                            }
                        }
                        if r.chance(3) {
                            std::thread::yield_now();
                        }
                    }
                    (log, ids, bad)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or((vec![], vec![], Some("a thread panicked".into())))).collect()
    });
    let mut sym: HashMap<&str, Symbol> = HashMap::new();
    let mut done: HashMap<usize, u64> = HashMap::new();
    let mut order: Vec<(u64, u8)> = vec![];
    for (t, (log, _, bad)) in logs.iter().enumerate() {
        if let Some(b) = bad {
            return c.violation(b.clone());
        }
        for (from, to, k, e) in log {
            order.push((*from, t as u8));
            let y = match e {
                Ev::Intern(y) => {
                    let d = done.entry(*k).or_insert(*to);
                    *d = (*d).min(*to);
                    *y
                }
                Ev::Lookup(Some(y)) => *y,
                _ => continue,
            };
            if *sym.entry(&pool[*k]).or_insert(y) != y {
                return c.violation(format!("two different symbols for {:?}", pool[*k]));
            }
        }
    }
    for (log, _, _) in &logs {
        for (from, _, k, e) in log {
            if let Ev::Lookup(None) = e
                && pool.iter().enumerate().any(|(j, t)| *t == pool[*k] && done.get(&j).is_some_and(|d| d < from))
            {
                return c.violation(format!("{:?} was not found although it had been interned before", pool[*k]));
            }
        }
    }
    c.st.count("symbol operations", order.len() as u64);
    let all: Vec<(&&str, &Symbol)> = sym.iter().collect();
    for (a, x) in &all {
        for (b, y) in &all {
            let same = a == b;
            if same != (x == y) || a.cmp(b) != x.cmp(y) || (same && hash_of(*x) != hash_of(*y)) {
                return c.violation(format!("{a:?} and {b:?} compare differently as symbols"));
            }
        }
        if Symbol::lookup(a) != Some(**x) {
            return c.violation(format!("{a:?} is not found after all threads finished"));
        }
        if format!("{x}") != ***a {
            return c.violation(format!("{a:?} displays as {x}"));
        }
    }
    let mut ids: Vec<u64> = logs.iter().flat_map(|l| l.1.iter().copied()).collect();
    let m = ids.len();
    ids.sort();
    ids.dedup();
    c.st.count("block ids drawn", m as u64);
    if ids.len() != m {
        return c.violation("the same block id was handed out twice");
    }
    order.sort();
    let w: Vec<u8> = order.iter().map(|o| o.1).collect();
    c.st.count("switches between threads", w.windows(2).filter(|w| w[0] != w[1]).count() as u64);
    c.distinct(&format!("{w:?}"));
}

// ---- types, paths, attributes ----------------------------------------------------------

/// Structural model of an attribute or type: texts and trees only.
fn show_attr(ctx: &IrContext, a: &Attribute, paths: &[String], o: &mut String) {
    match a {
        Attribute::Unit => o.push_str("unit"),
        Attribute::Bool(b) => o.push_str(&format!("bool {b}")),
        Attribute::Int(i) => o.push_str(&format!("int {i}")),
        Attribute::FloatBits(b) => o.push_str(&format!("float {b:x}")),
        Attribute::String(s) => o.push_str(&format!("str {s:?}")),
        Attribute::Bytes(b) => o.push_str(&format!("bytes {b:?}")),
        Attribute::Symbol(s) => o.push_str(&format!("sym {:?}", s.to_string())),
        Attribute::Type(t) => {
            o.push_str("type ");
            show_ty(ctx, *t, paths, o);
        }
        Attribute::List(l) => {
            o.push('[');
            for x in l {
                show_attr(ctx, x, paths, o);
                o.push(';');
            }
            o.push(']');
        }
        Attribute::Location(l) => {
            let _ = paths;
            o.push_str(&format!("loc {:?} {} {}", ctx.paths.get(l.path), l.span.start, l.span.end));
        }
    }
}
fn show_ty(ctx: &IrContext, t: TypeRef, paths: &[String], o: &mut String) {
    let d = ctx.types.get(t);
    o.push_str(&format!("{:?}.{:?}(", d.dialect.to_string(), d.name.to_string()));
    for p in &d.params {
        show_ty(ctx, *p, paths, o);
        o.push(',');
    }
    o.push_str("){");
    for (k, v) in &d.attrs {
        o.push_str(&format!("{:?}=", k.to_string()));
        show_attr(ctx, v, paths, o);
        o.push(',');
    }
    o.push('}');
}

fn small(r: &mut Rng) -> String {
    let t = ["a", "b", "i32", "1", "true", "", "a.b", "core", "n"][r.below(9)];
    t.to_string()
}

fn gen_attr(r: &mut Rng, ctx: &IrContext, tys: &[(TypeRef, String)], paths: &[(PathRef, String)], depth: usize) -> (Attribute, String) {
    let _ = ctx;
    match r.below(if depth > 0 { 10 } else { 8 }) {
        0 => (Attribute::Unit, "unit".into()),
        1 => {
            let b = r.chance(50);
            (Attribute::Bool(b), format!("bool {b}"))
        }
        2 => {
            let i = match r.below(4) {
                0 => r.range(-2, 3) as i128,
                1 => *r.pick(&[i128::MIN, i128::MAX, 1 << 64, -(1 << 64), u64::MAX as i128]),
                _ => (r.u64() as i64 as i128) << r.below(40),
            };
            (Attribute::Int(i), format!("int {i}"))
        }
        3 => {
            let b = *r.pick(&[0u64, 1 << 63, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff8000000000001, 1, 0x3ff0000000000000]);
            (Attribute::FloatBits(b), format!("float {b:x}"))
        }
        4 => {
            let s = small(r);
            (Attribute::String(s.clone()), format!("str {s:?}"))
        }
        5 => {
            let s = small(r);
            (Attribute::Symbol(Symbol::from_dynamic(&s)), format!("sym {s:?}"))
        }
        6 => {
            let b: Vec<u8> = (0..[0, 1, 2, 16, 17, 40][r.below(6)]).map(|_| r.below(2) as u8).collect();
            let s = format!("bytes {b:?}");
            (Attribute::Bytes(b.into_iter().collect()), s)
        }
        7 => match (r.chance(60), tys.is_empty(), paths.is_empty()) {
            (true, false, _) => {
                let (t, s) = r.pick(tys);
                (Attribute::Type(*t), format!("type {s}"))
            }
            (_, _, false) => {
                let (p, s) = r.pick(paths);
                let (a, b) = (r.below(3), r.below(3));
                (Attribute::Location(Location::new(*p, Span::new(a, b))), format!("loc {s:?} {a} {b}"))
            }
            _ => (Attribute::Unit, "unit".into()),
        },
        _ => {
            let mut l = vec![];
            let mut s = String::from("[");
            for _ in 0..r.below(3) {
                let (a, t) = gen_attr(r, ctx, tys, paths, depth - 1);
                l.push(a);
                s.push_str(&t);
                s.push(';');
            }
            s.push(']');
            (Attribute::List(l), s)
        }
    }
}

fn types(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut ctx = IrContext::new();
    let before: Vec<TypeRef> = ctx.types.iter().map(|x| x.0).collect();
    let mut tys: Vec<(TypeRef, String)> = vec![];
    let mut paths: Vec<(PathRef, String)> = vec![];
    let mut by_text: HashMap<String, TypeRef> = HashMap::new();
    let mut trail = String::new();
    let n = 20 + r.below(200);
    for _ in 0..n {
        if r.chance(15) {
            let s = format!("file:///{}", small(&mut r));
            let p = ctx.paths.intern(s.clone());
            for (q, t) in &paths {
                if (*q == p) != (*t == s) {
                    return c.violation(format!("paths {s:?} and {t:?} are confused"));
                }
            }
            paths.push((p, s));
            for (q, t) in &paths {
                if ctx.paths.get(*q) != t {
                    return c.violation(format!("path {t:?} reads {:?}", ctx.paths.get(*q)));
                }
            }
            continue;
        }
        let (d, m) = (small(&mut r), small(&mut r));
        let mut b = TypeDataBuilder::new(Symbol::from_dynamic(&d), Symbol::from_dynamic(&m));
        let mut s = format!("{d:?}.{m:?}(");
        for _ in 0..[0, 0, 1, 2, 3, 6][r.below(6)] {
            if !tys.is_empty() {
                let (t, x) = r.pick(&tys);
                if x.len() < 2000 {
                    b = b.param(*t);
                    s.push_str(x);
                    s.push(',');
                }
            }
        }
        s.push_str("){");
        let mut at: BTreeMap<String, (Attribute, String)> = BTreeMap::new();
        let mut keys = vec![];
        for _ in 0..[0, 0, 1, 2, 4][r.below(5)] {
            let k = small(&mut r);
            let v = gen_attr(&mut r, &ctx, &tys, &paths, 2);
            keys.push(k.clone());
            at.insert(k, v);
        }
        // attributes are a set: insertion order must not matter
        r.shuffle(&mut keys);
        for k in &keys {
            b = b.attr(Symbol::from_dynamic(k), at[k].0.clone());
        }
        for (k, (_, t)) in &at {
            s.push_str(&format!("{k:?}={t},"));
        }
        s.push('}');
        if s.len() > 6000 {
            continue;
        }
        trail.push_str(&s);
        trail.push('\n');
        c.st.count("types interned", 1);
        let data: TypeData = b.build();
        let known = by_text.get(&s).copied();
        let look = ctx.types.lookup(&data);
        if known.is_some() && look != known {
            c.input(trail);
            return c.violation(format!("a type interned before is looked up as {look:?}, it is {known:?}: {s}"));
        }
        let count = ctx.types.iter().count();
        let t = ctx.types.intern(data.clone());
        if look.is_some_and(|l| l != t) {
            c.input(trail);
            return c.violation(format!("lookup and interning disagree: {s}"));
        }
        let grown = ctx.types.iter().count() - count;
        if grown != look.is_none() as usize {
            c.input(trail);
            return c.violation(format!("interning added {grown} types: {s}"));
        }
        if known.is_some_and(|k| k != t) {
            c.input(trail);
            return c.violation(format!("the same type got two references: {s}"));
        }
        if known.is_none()
            && let Some((_, x)) = tys.iter().find(|x| x.0 == t)
        {
            c.input(trail);
            return c.violation(format!("two different types got one reference: {s} and {x}"));
        }
        if *ctx.types.get(t) != data || !ctx.types.is_dialect(t, Symbol::from_dynamic(&d), Symbol::from_dynamic(&m)) {
            c.input(trail);
            return c.violation(format!("the interned type is not the given one: {s}"));
        }
        if !before.contains(&t) {
            by_text.insert(s.clone(), t);
        }
        tys.push((t, s));
    }
    for (t, s) in &tys {
        let mut o = String::new();
        show_ty(&ctx, *t, &[], &mut o);
        if o != *s {
            c.input(trail);
            return c.violation(format!("a type reads {o}, it was {s}"));
        }
    }
    c.distinct(&trail);
    c.input(trail);
}

/// Attribute dictionaries against a plain map.
fn maps(c: &mut Case) {
    let mut r = c.rng.clone();
    let ctx = IrContext::new();
    let mut m = AttributeMap::new();
    let mut model: BTreeMap<String, (Attribute, String)> = BTreeMap::new();
    let mut trail = String::new();
    for _ in 0..5 + r.below(80) {
        let k = small(&mut r);
        let sym = Symbol::from_dynamic(&k);
        let what;
        let ok = match r.below(8) {
            0..=2 => {
                let v = gen_attr(&mut r, &ctx, &[], &[], 1);
                what = format!("insert {k:?} {}", v.1);
                let old = m.insert(sym, v.0.clone());
                old == model.insert(k.clone(), v).map(|x| x.0)
            }
            3 => {
                what = format!("remove {k:?}");
                let old = if r.chance(50) { m.remove(sym) } else { m.remove(k.as_str()) };
                old == model.remove(&k).map(|x| x.0)
            }
            4 => {
                what = format!("integers {k:?}");
                let v = model.get(&k).and_then(|x| x.0.as_i128());
                let exp = |lo: i128, hi: i128| match v {
                    None => Ok(None),
                    Some(v) if v < lo || v > hi => Err(v),
                    Some(v) => Ok(Some(v)),
                };
                fn up<T: Into<i128>>(x: Result<Option<T>, trunk_ir::types::IntegerOutOfRange>) -> Result<Option<i128>, i128> {
                    x.map(|o| o.map(|v| v.into())).map_err(|e| e.value)
                }
                let key = k.as_str();
                m.get_i128(key) == v
                    && up(m.get_i32(sym)) == exp(i32::MIN as i128, i32::MAX as i128)
                    && up(m.get_i64(key)) == exp(i64::MIN as i128, i64::MAX as i128)
                    && up(m.get_u32(key)) == exp(0, u32::MAX as i128)
                    && up(m.get_u64(sym)) == exp(0, u64::MAX as i128)
                    && up(m.get_u8(key)) == exp(0, 255)
            }
            5 => {
                what = format!("typed reads {k:?}");
                let v = model.get(&k).map(|x| &x.0);
                let t = match v {
                    Some(Attribute::String(s)) => Some(s.clone()),
                    Some(Attribute::Symbol(s)) => Some(s.to_string()),
                    _ => None,
                };
                let (a, b) = (small(&mut r), small(&mut r));
                let b = match r.below(4) {
                    0 => format!("{a} "),
                    1 => a.to_uppercase(),
                    2 => a.clone(),
                    _ => b,
                };
                use trunk_ir::types::AttributeText as T;
                let (sa, sb) = (Symbol::from_dynamic(&a), Symbol::from_dynamic(&b));
                let same = a == b;
                (T::String(&a) == T::String(&b)) == same
                    && (T::String(&a) == T::Symbol(sb)) == same
                    && (T::Symbol(sa) == T::String(&b)) == same
                    && (T::Symbol(sa) == T::Symbol(sb)) == same
                    && (T::Symbol(sa) == b.as_str()) == same
                    && m.get_bool(sym) == v.and_then(|v| v.as_bool())
                    && m.get_symbol(k.as_str()) == v.and_then(|v| v.as_symbol())
                    && m.get_str(k.as_str()) == v.and_then(|v| v.as_str())
                    && m.get_text(sym).map(|x| x.to_string()) == t
                    && m.get_text(sym).is_none_or(|x| x == t.as_deref().unwrap_or("?"))
            }
            6 => {
                what = format!("change {k:?}");
                match (m.get_mut(k.as_str()), model.get_mut(&k)) {
                    (Some(a), Some(b)) => {
                        *a = Attribute::Int(7);
                        *b = (Attribute::Int(7), "int 7".into());
                        true
                    }
                    (None, None) => true,
                    _ => false,
                }
            }
            _ => {
                what = format!("get {k:?}");
                let absent = format!("absent#{}#{}", c.idx, k);
                m.get(k.as_str()) == model.get(&k).map(|x| &x.0)
                    && m.get(sym) == m.get(k.as_str())
                    && m.contains_key(k.as_str()) == model.contains_key(&k)
                    && m.get(absent.as_str()).is_none()
                    && Symbol::lookup(&absent).is_none()
            }
        };
        trail.push_str(&what);
        trail.push('\n');
        let seen: Vec<(String, &Attribute)> = m.iter().map(|(k, v)| (k.to_string(), v)).collect();
        let want: Vec<(String, &Attribute)> = model.iter().map(|(k, v)| (k.clone(), &v.0)).collect();
        c.st.count("dictionary operations", 1);
        if !ok || seen != want || m.len() != model.len() || m.is_empty() != model.is_empty() {
            c.input(trail);
            return c.violation(format!("dictionary disagrees with the model after: {what}"));
        }
    }
    // equality and hashing do not depend on how the dictionary was built
    let mut es: Vec<_> = model.iter().collect();
    r.shuffle(&mut es);
    let again: AttributeMap = es.into_iter().map(|(k, v)| (Symbol::from_dynamic(k), v.0.clone())).collect();
    if again != m || hash_of(&again) != hash_of(&m) {
        c.input(trail);
        return c.violation("a dictionary with the same entries is not equal");
    }
    c.distinct(&trail);
    c.input(trail);
}

pub fn check_intern(cfg: &Cfg) -> Stats {
    let mut st = Stats::default();
    st.rules.push("An evaluation is one interning history. Symbol histories run on 1 to 8 threads with a logical clock around every call and are checked offline (one symbol per text, texts given back, order and hash as the texts', lookups linearizable); distinct counts distinct cross-thread orders there. Type, path and dictionary histories are checked against structural text models; distinct counts distinct histories.".into());
    st.merge(run_cases(cfg, "symbols", cfg.n(4000, 60000), symbols));
    st.merge(run_cases(cfg, "types", cfg.n(3000, 60000), types));
    st.merge(run_cases(cfg, "maps", cfg.n(6000, 100000), maps));
    st
}
