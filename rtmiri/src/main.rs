//! Runtime-library histories to be interpreted by Miri: `rtmiri evidence|bytes SEED`.
//! Miri watches for undefined behaviour, data races and wrong deallocations; the results are
//! compared with a model here.
use std::collections::BTreeMap;
use tribute_runtime as _;

#[repr(C)]
struct TributeBytes {
    ptr: *const u8,
    len: u64,
}

// the ABI compiled programs use
unsafe extern "C" {
    fn __tribute_init();
    fn __tribute_next_tag() -> i32;
    fn __tribute_alloc(size: u64) -> *mut u8;
    fn __tribute_dealloc(p: *mut u8, size: u64);
    fn __tribute_evidence_empty() -> *mut u8;
    fn __tribute_evidence_extend(e: *const u8, ab: i32, tag: i32, tr: *const u8, h: *const u8) -> *mut u8;
    fn __tribute_evidence_lookup(e: *const u8, ab: i32) -> i32;
    fn __tribute_evidence_lookup_tr(e: *const u8, ab: i32) -> *const u8;
    fn __tribute_evidence_lookup_handler(e: *const u8, ab: i32) -> *const u8;
    fn __tribute_bytes_concat(a: *const TributeBytes, b: *const TributeBytes) -> *mut TributeBytes;
    fn __tribute_bytes_slice_or_panic(a: *const TributeBytes, s: u32, e: u32) -> *mut TributeBytes;
    fn __tribute_bytes_range_equal(a: *const TributeBytes, s: u32, b: *const TributeBytes, t: u32, n: u32) -> u32;
    fn __tribute_bytes_get_or_panic(a: *const TributeBytes, k: u32) -> u32;
    fn __tribute_bytes_len(a: *const TributeBytes) -> u32;
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

fn mismatch(m: String) -> ! {
    println!("MISMATCH {m}");
    std::process::exit(1)
}

type Marks = BTreeMap<i32, (i32, usize, usize)>;
/// evidence pointers are opaque
#[derive(Clone)]
struct Ev(usize, Marks);

macro_rules! ev {
    ($e:expr) => {
        std::ptr::with_exposed_provenance_mut::<u8>($e.0)
    };
}

fn look(e: &Ev, n: &mut u64) {
    for (ab, m) in &e.1 {
        let got = unsafe {
            (
                __tribute_evidence_lookup(ev!(e), *ab),
                __tribute_evidence_lookup_tr(ev!(e), *ab) as usize,
                __tribute_evidence_lookup_handler(ev!(e), *ab) as usize,
            )
        };
        *n += 3;
        if got != *m {
            mismatch(format!("ability {ab}: {got:?} instead of {m:?}"));
        }
    }
}

fn extend(r: &mut Rng, e: &Ev) -> Ev {
    let ab = match r.below(4) {
        0 if !e.1.is_empty() => *e.1.keys().nth(r.below(e.1.len())).unwrap(),
        1 => r.below(9) as i32 - 4,
        2 => [i32::MIN, i32::MAX, 0][r.below(3)],
        _ => r.next() as i32,
    };
    let m = (r.next() as i32, r.below(1 << 30), r.below(1 << 30));
    let p = unsafe {
        __tribute_evidence_extend(ev!(e), ab, m.0, std::ptr::without_provenance(m.1), std::ptr::without_provenance(m.2))
    };
    let mut marks = e.1.clone();
    marks.insert(ab, m);
    Ev(p.expose_provenance(), marks)
}

fn evidence(seed: u64) {
    let mut r = Rng(seed);
    let late = r.below(2) == 0;
    if !late {
        unsafe { __tribute_init() };
    }
    let mut shared = vec![Ev(unsafe { __tribute_evidence_empty() }.expose_provenance(), Marks::new())];
    for _ in 0..8 {
        let e = shared[r.below(shared.len())].clone();
        shared.push(extend(&mut r, &e));
    }
    let nt = 2 + r.below(3);
    let hs: Vec<_> = (0..nt)
        .map(|t| {
            let shared = shared.clone();
            let mut r = Rng(seed ^ (t as u64 + 1) << 40);
            std::thread::spawn(move || {
                unsafe { __tribute_init() };
                let (mut looks, mut exts, mut allocs) = (0, 0, 0);
                let mut tags = std::collections::BTreeSet::new();
                let mut mine: Vec<Ev> = vec![];
                let mut objs: Vec<(usize, usize)> = vec![];
                for _ in 0..20 {
                    match r.below(5) {
                        0 => {
                            let t = unsafe { __tribute_next_tag() };
                            if !tags.insert(t) {
                                mismatch(format!("tag {t} drawn twice on one thread"));
                            }
                        }
                        1 => {
                            let all = shared.len() + mine.len();
                            let k = r.below(all);
                            let e = if k < shared.len() { &shared[k] } else { &mine[k - shared.len()] };
                            let n = extend(&mut r, e);
                            mine.push(n);
                            exts += 1;
                        }
                        2 => {
                            let k = r.below(shared.len() + mine.len());
                            look(if k < shared.len() { &shared[k] } else { &mine[k - shared.len()] }, &mut looks);
                        }
                        3 => {
                            let z = 1 + r.below(70);
                            let p = unsafe { __tribute_alloc(z as u64) };
                            unsafe { std::ptr::write_bytes(p, z as u8, z) };
                            objs.push((p.expose_provenance(), z));
                            allocs += 1;
                        }
                        _ => {
                            if let Some((p, z)) = objs.pop() {
                                let p = std::ptr::with_exposed_provenance_mut::<u8>(p);
                                for i in 0..z {
                                    if unsafe { *p.add(i) } != z as u8 {
                                        mismatch("object contents changed".into());
                                    }
                                }
                                unsafe { __tribute_dealloc(p, z as u64) };
                            }
                        }
                    }
                }
                for e in shared.iter().chain(&mine) {
                    look(e, &mut looks);
                }
                for (p, z) in objs {
                    unsafe { __tribute_dealloc(std::ptr::with_exposed_provenance_mut(p), z as u64) };
                }
                (looks, exts, allocs, tags.len() as u64)
            })
        })
        .collect();
    let mut sum = (0, 0, 0, 0);
    for h in hs {
        let x = h.join().unwrap();
        sum = (sum.0 + x.0, sum.1 + x.1, sum.2 + x.2, sum.3 + x.3);
    }
    for e in &shared {
        look(e, &mut sum.0);
    }
    println!("DONE threads={nt} lookups={} extensions={} allocations={} tags={}", sum.0, sum.1, sum.2, sum.3);
}

struct Val {
    p: *mut TributeBytes,
    v: Vec<u8>,
}

fn make(v: &[u8]) -> *mut TributeBytes {
    unsafe {
        let buf = __tribute_alloc(v.len() as u64);
        if !v.is_empty() {
            std::ptr::copy_nonoverlapping(v.as_ptr(), buf, v.len());
        }
        let raw = __tribute_alloc(24);
        raw.cast::<u32>().write(1);
        raw.add(4).cast::<u32>().write(0);
        let b = raw.add(8).cast::<TributeBytes>();
        b.write(TributeBytes { ptr: buf, len: v.len() as u64 });
        b
    }
}

fn bytes(seed: u64) {
    let mut r = Rng(seed);
    unsafe { __tribute_init() };
    let mut v: Vec<Val> = vec![];
    for _ in 0..3 {
        let n = [0, 1, r.below(9), r.below(40)][r.below(4)];
        let b: Vec<u8> = (0..n).map(|_| b"ab\0\xff"[r.below(4)]).collect();
        v.push(Val { p: make(&b), v: b });
    }
    let mut n = 0u64;
    for _ in 0..60 {
        n += 1;
        let (i, j) = (r.below(v.len()), r.below(v.len()));
        let (a, b) = (&v[i], &v[j]);
        unsafe {
            match r.below(5) {
                0 => {
                    let p = __tribute_bytes_concat(a.p, b.p);
                    let mut m = a.v.clone();
                    m.extend(&b.v);
                    if m.len() < 200 {
                        v.push(Val { p, v: m });
                    }
                }
                1 => {
                    let s = r.below(a.v.len() + 1);
                    let e = s + r.below(a.v.len() - s + 1);
                    let p = __tribute_bytes_slice_or_panic(a.p, s as u32, e as u32);
                    let m = a.v[s..e].to_vec();
                    v.push(Val { p, v: m });
                }
                2 => {
                    let s = r.below(a.v.len() + 1);
                    let t = r.below(b.v.len() + 1);
                    let l = r.below((a.v.len() - s).min(b.v.len() - t) + 2);
                    let got = __tribute_bytes_range_equal(a.p, s as u32, b.p, t as u32, l as u32);
                    let exp = s + l <= a.v.len() && t + l <= b.v.len() && a.v[s..s + l] == b.v[t..t + l];
                    if got != exp as u32 {
                        mismatch(format!("range_equal {s} {t} {l} of {:?} {:?} = {got}", a.v, b.v));
                    }
                }
                3 if !a.v.is_empty() => {
                    let k = r.below(a.v.len());
                    if __tribute_bytes_get_or_panic(a.p, k as u32) != a.v[k] as u32 {
                        mismatch(format!("get {k} of {:?}", a.v));
                    }
                }
                _ => {
                    if __tribute_bytes_len(a.p) as usize != a.v.len() {
                        mismatch(format!("len of {:?}", a.v));
                    }
                }
            }
        }
    }
    for x in &v {
        let b = unsafe { &*x.p };
        let s = if b.len == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(b.ptr, b.len as usize) } };
        if s != x.v {
            mismatch(format!("{s:?} instead of {:?}", x.v));
        }
    }
    println!("DONE operations={n} values={}", v.len());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed = a[2].parse().unwrap();
    match a[1].as_str() {
        "evidence" => evidence(seed),
        _ => bytes(seed),
    }
}
