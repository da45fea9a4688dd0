//! vh-replay: run contracts natively on concrete argument bits.
//!   vh-replay list
//!   vh-replay run <contract> <hex bits>...
//!   vh-replay search <contract> <seed> <seconds> [<threads>]
#![feature(f16, f128)]
#![allow(unused)]
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use vh::fw::{Contract, Fail};

#[derive(Debug)]
enum O { Held, Pre, Failed(String) }

fn exec(c: &Contract, raw: &[u128]) -> O {
    match catch_unwind(AssertUnwindSafe(|| (c.run)(raw))) {
        Ok(Ok(())) => O::Held,
        Ok(Err(Fail::Pre)) => O::Pre,
        Ok(Err(Fail::Post(m))) => O::Failed(format!("postcondition: {m}")),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            O::Failed(format!("panic: {m}"))
        }
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn wide(&mut self) -> u128 { (self.next() as u128) << 64 | self.next() as u128 }
    /// sparse / dense / run-of-ones patterns in the low `n` bits
    fn pattern(&mut self, n: u32) -> u128 {
        if n == 0 { return 0; }
        let m = if n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
        m & match self.below(8) {
            0 => 0,
            1 => m,
            2 => { let k = self.below(n as u64) as u32; 1u128 << k }
            3 => { let k = self.below(n as u64) as u32; !(1u128 << k) }
            4 => { let k = self.below(n as u64) as u32; (1u128 << k) - 1 }
            5 => { let k = self.below(n as u64) as u32; !((1u128 << k) - 1) }
            6 => { let k = self.below(n as u64) as u32; let j = self.below(n as u64) as u32; (1u128 << k) | (1u128 << j) }
            _ => self.wide(),
        }
    }
}

/// literals of the source under test (VH_DICT: one hexadecimal number per line)
fn dict() -> &'static Vec<u128> {
    static D: std::sync::OnceLock<Vec<u128>> = std::sync::OnceLock::new();
    D.get_or_init(|| match std::env::var("VH_DICT") {
        Ok(p) => std::fs::read_to_string(p).unwrap_or_default().lines().filter_map(|l| u128::from_str_radix(l.trim(), 16).ok()).collect(),
        Err(_) => Vec::new(),
    })
}
/// a value near one of the source's literals, read as raw bits, a high word or an exponent field
fn from_dict(r: &mut Rng, w: u32, t: &str) -> Option<u128> {
    let d = dict();
    if d.is_empty() { return None; }
    let c = d[r.below(d.len() as u64) as usize];
    let len = 128 - c.leading_zeros();
    let mut v = c;
    if let Some((bits, sig)) = fparams(t) {
        // place the literal: as is, or aligned to the top in 16/32/64-bit words
        let top: &[u32] = match bits { 16 => &[16], 32 => &[32, 16], 64 => &[64, 32, 16], _ => &[128, 64, 32, 16] };
        let k = top[r.below(top.len() as u64) as usize];
        if k < bits && len <= k {
            v = c << (bits - k);
            if r.below(2) == 0 { let m = (1u128 << (bits - k)) - 1; v |= r.pattern(bits - k) & m; }
        } else if len <= bits - 1 - sig && r.below(3) == 0 {
            v = c << sig | r.pattern(sig);
        } else if r.below(6) == 0 && c < 1 << 24 {
            v = match bits { 16 => (c as f32 as f16).to_bits() as u128, 32 => (c as f32).to_bits() as u128, 64 => (c as f64).to_bits() as u128, _ => (c as f64 as f128).to_bits() };
        }
        match r.below(4) {
            0 => { let e = r.below(9) as u128; v = v.wrapping_add(e).wrapping_sub(4); }
            1 => { let e = r.below(1 << 12) as u128; v = v.wrapping_add(e).wrapping_sub(1 << 11); }
            _ => {}
        }
        if r.below(2) == 0 { v ^= 1u128 << (bits - 1); }
    } else {
        v = v.wrapping_add(r.below(5) as u128).wrapping_sub(2);
        if r.below(3) == 0 { v = v.wrapping_neg(); }
    }
    Some(v)
}

fn fparams(t: &str) -> Option<(u32, u32)> {
    Some(match t { "f16" => (16, 10), "f32" => (32, 23), "f64" => (64, 52), "f128" => (128, 112), _ => return None })
}

fn gen(r: &mut Rng, c: &Contract, out: &mut Vec<u128>) {
    out.clear();
    for (k, (_, t)) in c.args.iter().enumerate() {
        let w = c.widths[k];
        let mask = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
        if r.below(5) == 0 { if let Some(v) = from_dict(r, w, t) { out.push(v & mask); continue; } }
        let v = if let Some((bits, sig)) = fparams(t) {
            let ew = bits - 1 - sig;
            let bias = (1u128 << (ew - 1)) - 1;
            let esat = (1u128 << ew) - 1;
            let prev = if k > 0 && c.widths[k - 1] == w { Some(out[k - 1]) } else { None };
            match r.below(if prev.is_some() { 12 } else { 8 }) {
                0 => r.wide(),
                1 => { // specials and neighbours
                    let base = [0, 1, (1u128 << sig) - 1, 1u128 << sig, bias << sig, (bias - 1) << sig, (bias + 1) << sig,
                        esat << sig, (esat << sig) - 1, (esat << sig) | 1u128 << (sig - 1), (bias + sig as u128) << sig, (bias + sig as u128 + 1) << sig];
                    let b = base[r.below(base.len() as u64) as usize];
                    let d = r.below(5) as u128;
                    (b.wrapping_add(d).wrapping_sub(2) & (mask >> 1)) | (r.below(2) as u128) << (bits - 1)
                }
                2 | 3 => { // moderate exponent
                    let e = (bias + r.below(2 * sig as u64 + 8) as u128).saturating_sub(sig as u128 / 2 + 4);
                    let p = r.pattern(sig);
                    e << sig | p | (r.below(2) as u128) << (bits - 1)
                }
                4 => { // near one
                    let e = bias + r.below(8) as u128 - 4;
                    e << sig | (r.wide() & ((1u128 << sig) - 1)) | (r.below(2) as u128) << (bits - 1)
                }
                5 => { // small / subnormal
                    let e = r.below(sig as u64 + 4) as u128;
                    let p = r.pattern(sig);
                    e.min(esat) << sig | p | (r.below(2) as u128) << (bits - 1)
                }
                6 => { let e = esat - r.below(sig as u64 + 4).min(esat as u64) as u128; let p = r.pattern(sig); e << sig | p | (r.below(2) as u128) << (bits - 1) }
                7 => { let e = r.below(esat as u64 + 1) as u128; let p = r.pattern(sig); e << sig | p | (r.below(2) as u128) << (bits - 1) }
                8 => { let d = r.below(5) as u128; prev.unwrap().wrapping_add(d).wrapping_sub(2) & mask }
                9 => prev.unwrap() ^ (1u128 << (bits - 1)),
                10 => { // same exponent +- sig
                    let e = (prev.unwrap() >> sig) & esat;
                    let e = (e + r.below(2 * sig as u64 + 9) as u128).saturating_sub(sig as u128 + 4).min(esat);
                    let p = r.pattern(sig);
                    e << sig | p | (r.below(2) as u128) << (bits - 1)
                }
                _ => { let e = (prev.unwrap() >> sig) & esat; e << sig | (r.wide() & ((1u128 << sig) - 1)) }
            }
        } else {
            match r.below(6) {
                0 => r.wide(),
                1 => r.below(300) as u128,
                2 => (r.below(300) as u128).wrapping_neg(),
                3 => { // around the exponent ranges of the formats
                    let b = [15i128, 24, 126, 149, 254, 1022, 1074, 2046, 16382, 16494, 32766, 65536];
                    let v = b[r.below(b.len() as u64) as usize] + r.below(64) as i128 - 32;
                    (if r.below(2) == 0 { v } else { -v }) as u128
                }
                _ => r.pattern(w),
            }
        };
        out.push(v & mask);
    }
}

/// a call that does not return within 15 s is reported with its arguments
fn watchdog(state: &'static Vec<(AtomicU64, std::sync::Mutex<Vec<u128>>)>, split: Option<&'static [u32]>) {
    std::thread::spawn(move || {
        let mut last: Vec<(u64, u32)> = vec![(0, 0); state.len()];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for (k, s) in state.iter().enumerate() {
                let n = s.0.load(Ordering::Relaxed);
                if n == u64::MAX || n != last[k].0 { last[k] = (n, 0); continue; }
                last[k].1 += 1;
                if last[k].1 >= 30 && n > 0 {
                    let mut raw = s.1.lock().unwrap();
                    if let Some(ws) = split {
                        let mut x = n as u128 - 1;
                        *raw = ws.iter().map(|w| { let v = x & ((1u128 << w) - 1); x >>= w; v }).collect();
                    }
                    println!("TRIED {n}");
                    println!("FOUND {} :: does not return within 15 s", raw.iter().map(|x| format!("{x:#x}")).collect::<Vec<_>>().join(" "));
                    std::process::exit(3)
                }
            }
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let all = vh::all();
    let find = |n: &str| all.iter().copied().find(|c| c.name == n || c.name.strip_prefix("vh::") == Some(n));
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => for c in &all { println!("{} {:?}", c.name, c.args) },
        Some("run") => {
            let c = find(&a[2]).expect("no such contract");
            let raw: Vec<u128> = a[3..].iter().map(|s| u128::from_str_radix(s.trim_start_matches("0x"), 16).unwrap()).collect();
            match exec(c, &raw) {
                O::Held => println!("HELD"),
                O::Pre => println!("PRECONDITION-FALSE"),
                O::Failed(m) => { println!("FAILED {m}"); std::process::exit(3) }
            }
        }
        Some("search") => {
            let c = find(&a[2]).expect("no such contract");
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let threads: u64 = a.get(5).map(|s| s.parse().unwrap()).unwrap_or(1);
            let stop = AtomicBool::new(false);
            let tried = AtomicU64::new(0);
            let found = std::sync::Mutex::new(None);
            let t0 = std::time::Instant::now();
            // per thread: iterations begun, and the arguments in use (for the watchdog)
            let state: &'static Vec<(AtomicU64, std::sync::Mutex<Vec<u128>>)> = Box::leak(Box::new((0..threads).map(|_| Default::default()).collect()));
            watchdog(state, None);
            std::thread::scope(|s| for t in 0..threads {
                let (stop, tried, found) = (&stop, &tried, &found);
                s.spawn(move || {
                    let mut r = Rng(seed.wrapping_mul(0x2545f4914f6cdd1d).wrapping_add(t << 48));
                    let mut raw = Vec::new();
                    let mut n = 0u64;
                    while !stop.load(Ordering::Relaxed) {
                        gen(&mut r, c, &mut raw);
                        n += 1;
                        state[t as usize].1.lock().unwrap().clone_from(&raw);
                        state[t as usize].0.store(n, Ordering::Relaxed);
                        if let O::Failed(m) = exec(c, &raw) {
                            *found.lock().unwrap() = Some((raw.clone(), m));
                            stop.store(true, Ordering::Relaxed);
                        }
                        if n % 64 == 0 && t0.elapsed().as_secs_f64() > secs { break; }
                    }
                    state[t as usize].0.store(u64::MAX, Ordering::Relaxed);
                    tried.fetch_add(n, Ordering::Relaxed);
                });
            });
            println!("TRIED {}", tried.load(Ordering::Relaxed));
            if let Some((raw, m)) = found.into_inner().unwrap() {
                println!("FOUND {} :: {}", raw.iter().map(|x| format!("{x:#x}")).collect::<Vec<_>>().join(" "), m);
                std::process::exit(3)
            }
        }
        Some("exhaust") => {
            // every argument tuple (total width at most 32 bits)
            let c = find(&a[2]).expect("no such contract");
            let secs: f64 = a[3].parse().unwrap();
            let threads: u64 = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(1);
            let tw: u32 = c.widths.iter().sum();
            assert!(tw <= 32);
            let n = 1u64 << tw;
            let next = AtomicU64::new(0);
            let done = AtomicU64::new(0);
            let found = std::sync::Mutex::new(None);
            let stop = AtomicBool::new(false);
            let t0 = std::time::Instant::now();
            let chunk = 1u64 << tw.saturating_sub(10).min(18);
            let state: &'static Vec<(AtomicU64, std::sync::Mutex<Vec<u128>>)> = Box::leak(Box::new((0..threads).map(|_| Default::default()).collect()));
            watchdog(state, Some(c.widths));
            let (next, done, found, stop, t0) = (&next, &done, &found, &stop, &t0);
            std::thread::scope(|s| for t in 0..threads { s.spawn(move || {
                let mut raw = vec![0u128; c.widths.len()];
                while !stop.load(Ordering::Relaxed) && t0.elapsed().as_secs_f64() < secs {
                    let i = next.fetch_add(chunk, Ordering::Relaxed);
                    if i >= n { break; }
                    for v in i..(i + chunk).min(n) {
                        let mut x = v as u128;
                        for (k, w) in c.widths.iter().enumerate() { raw[k] = x & ((1u128 << w) - 1); x >>= w; }
                        state[t as usize].0.store(v + 1, Ordering::Relaxed);
                        if let O::Failed(m) = exec(c, &raw) {
                            *found.lock().unwrap() = Some((raw.clone(), m));
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                    done.fetch_add(chunk.min(n - i), Ordering::Relaxed);
                }
                state[t as usize].0.store(u64::MAX, Ordering::Relaxed);
            }); });
            println!("TRIED {}", done.load(Ordering::Relaxed));
            if done.load(Ordering::Relaxed) == n && found.lock().unwrap().is_none() { println!("COMPLETE"); }
            let hit = found.lock().unwrap().take();
            if let Some((raw, m)) = hit {
                println!("FOUND {} :: {}", raw.iter().map(|x| format!("{x:#x}")).collect::<Vec<_>>().join(" "), m);
                std::process::exit(3)
            }
        }
        Some("lines") => {
            let c = find(&a[2]).expect("no such contract");
            let mut r = Rng(a[3].parse::<u64>().unwrap().wrapping_mul(0x2545f4914f6cdd1d));
            let mut raw = Vec::new();
            vh::fw::LINES.with(|l| *l.borrow_mut() = Some(Default::default()));
            let t0 = std::time::Instant::now();
            let mut n = 0u64;
            while n < 200_000 && t0.elapsed().as_secs_f64() < 3.0 { gen(&mut r, c, &mut raw); let _ = exec(c, &raw); n += 1; }
            vh::fw::LINES.with(|l| println!("LINES {}", l.borrow().as_ref().unwrap().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
        }
        _ => { eprintln!("usage: vh-replay list|run|search"); std::process::exit(2) }
    }
}
