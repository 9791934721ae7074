//! X01: independence of instances and determinism.
//!
//! A script is a deterministic sequence of operations on instances of its own; each
//! step appends everything observable to a transcript. The transcript of a script run
//! alone is the oracle for the same script run among others.

use super::hcommon::{Dec, Enc, Hdr};
use super::u;
use crate::gen::*;
use crate::refhpack::RefTable;
use crate::refproto::{self as rp, PDec};
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt::*;
use crate::{ensure, fail};
use httlib_huffman as hf;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

const fn st(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> R) -> Stage {
    Stage { name, quick, thorough, run, exhaustive: false }
}

enum Body {
    Hpack { enc: Enc, dec: Dec, m: RefTable, pool: Pool, block: Vec<u8> },
    DecOnly { dec: Dec, buf: Vec<u8> },
    Table(httlib_hpack::table::Table<'static>, Pool),
    ProtoDec { d: PDec, wire: Vec<u8>, at: usize, buf: Vec<u8>, got: rp::Out },
    ProtoEnc { out: Vec<u8> },
    Huff { out: Vec<u8> },
    Tools,
}

pub struct Script {
    r: Rng,
    left: usize,
    body: Body,
    pub log: Vec<u64>, // one hash per step
    pub last: String,
}

const NAMES: [&str; 7] = ["encoder+decoder", "hostile decoder", "table", "protobuf decoder", "protobuf encoder", "huffman", "flattener+parser"];

impl Script {
    pub fn new(seed: u64, steps: usize) -> R<Script> {
        let mut r = Rng::new(seed);
        let body = match r.below(14) {
            0..=4 => {
                let max = *r.pick(&[0u32, 64, 100, 200, 500, 4096, 4096]);
                Body::Hpack { enc: Enc::new(max)?, dec: Dec::new(max)?, m: RefTable::new(max as u64), pool: Pool::new(&mut r), block: vec![] }
            }
            5 => Body::DecOnly { dec: Dec::new(*r.pick(&[0u32, 100, 4096]))?, buf: vec![] },
            6..=7 => {
                let max = *r.pick(&[0u32, 64, 120, 300, 4096]);
                Body::Table(sut("Table::with_dynamic_size", || httlib_hpack::table::Table::with_dynamic_size(max))?, Pool::tiny(&mut r))
            }
            8..=9 => {
                let wire = rp::wire_of(&rp::message(&mut r, 14));
                Body::ProtoDec { d: PDec::new()?, wire, at: 0, buf: vec![], got: vec![] }
            }
            10 => Body::ProtoEnc { out: vec![] },
            11..=12 => Body::Huff { out: vec![] },
            _ => Body::Tools,
        };
        Ok(Script { r, left: steps, body, log: vec![], last: String::new() })
    }
    pub fn kind(&self) -> &'static str {
        NAMES[match self.body {
            Body::Hpack { .. } => 0,
            Body::DecOnly { .. } => 1,
            Body::Table(..) => 2,
            Body::ProtoDec { .. } => 3,
            Body::ProtoEnc { .. } => 4,
            Body::Huff { .. } => 5,
            Body::Tools => 6,
        }]
    }
    pub fn done(&self) -> bool {
        self.left == 0
    }
    pub fn step(&mut self) -> R {
        self.left -= 1;
        let r = &mut self.r;
        let mut h = 0u64;
        fn heads(mut h: u64, got: &[Hdr]) -> u64 {
            for g in got {
                h = hash_bytes(hash_bytes(h ^ g.2 as u64, &g.0), &g.1);
            }
            h
        }
        match &mut self.body {
            Body::Hpack { enc, dec, m, pool, block } => match r.below(8) {
                0..=4 => {
                    let o = match r.below(8) {
                        0 => Op::Lit(family(r), family(r), *r.pick(&[0u8, 3, 4, 7, 8, 0x10, 0x17])),
                        1 => Op::Lit(pool.name(r), family(r), *r.pick(&[0u8, 2, 4, 7, 0x10, 0x17])),
                        _ => op(r, pool, m, m.max),
                    };
                    if let Op::Size(s) = o {
                        // keep the announced sizes inside the decoder's limit
                        let o = Op::Size(s.min(64));
                        let res = enc.call(&o, true, block)?;
                        apply(m, &o);
                        h = hash_bytes(h, format!("{:?}", res).as_bytes());
                    } else {
                        let res = enc.call(&o, r.bool(), block)?;
                        apply(m, &o);
                        h = hash_bytes(h, format!("{:?}", res).as_bytes());
                    }
                    h = hash_bytes(h, block);
                    self.last = format!("{} -> {}", show_op(&o), hex(block));
                }
                5 => {
                    // an invalid call must not disturb anybody either
                    let i = m.len() as u32 + 1 + r.below(5) as u32;
                    let res = enc.call(&Op::Idx(i), true, block)?;
                    h = hash_bytes(hash_bytes(h, format!("{:?}", res).as_bytes()), block);
                    self.last = format!("invalid index {} -> {:?}", i, res);
                }
                _ => {
                    let mut got = vec![];
                    let res = dec.decode(block, &mut got)?;
                    h = heads(hash_bytes(h, format!("{:?}", res).as_bytes()), &got);
                    h = hash_bytes(h, block);
                    h = mix(h ^ dec.max()? as u64 ^ (enc.max()? as u64) << 32);
                    self.last = format!("decode -> {:?} {:?}", res, got.iter().map(super::hcommon::show_hdr).collect::<Vec<_>>());
                }
            },
            Body::DecOnly { dec, buf } => {
                let n = r.us(12);
                buf.extend(r.bytes(n));
                let mut got = vec![];
                let res = dec.decode(buf, &mut got)?;
                h = heads(hash_bytes(h, format!("{:?}", res).as_bytes()), &got);
                h = hash_bytes(h, buf);
                if res.is_err() && r.bool() {
                    buf.clear();
                }
                self.last = format!("decode -> {:?}", res);
            }
            Body::Table(t, pool) => {
                let (n, v) = if r.chance(1, 4) { (family(r), family(r)) } else { (pool.name(r), pool.value(r)) };
                match r.below(4) {
                    0..=1 => sut("Table::insert", || t.insert(n, v))?,
                    2 => {
                        let s = r.range(0, 300) as u32;
                        sut("Table::update_max_dynamic_size", || t.update_max_dynamic_size(s))?
                    }
                    _ => {}
                }
                let all: Vec<Hdr> = sut("Table iteration", || t.iter().map(|(a, b)| (a.to_vec(), b.to_vec(), 0)).collect())?;
                let (a, b) = (pool.name(r), pool.value(r));
                let f = sut("Table::find", || format!("{:?}", t.find(&a, &b)))?;
                let tail = &all[61.min(all.len())..];
                h = heads(h, tail);
                h = hash_bytes(h ^ sut("Table::len", || t.len())? as u64, f.as_bytes());
                self.last = format!("{} entries, find {}", all.len(), f);
            }
            Body::ProtoDec { d, wire, at, buf, got } => {
                if *at == wire.len() && r.bool() {
                    *wire = rp::wire_of(&rp::message(r, 6));
                    *at = 0;
                }
                let n = r.us(30).min(wire.len() - *at);
                buf.extend_from_slice(&wire[*at..*at + n]);
                *at += n;
                let res = d.feed(buf, got)?;
                h = hash_bytes(hash_bytes(h, format!("{:?}", res).as_bytes()), buf);
                for (t, y, b) in got.drain(..) {
                    h = hash_bytes(h ^ t as u64 ^ (y as i64 as u64) << 32, &b);
                }
                self.last = format!("fed {} bytes -> {:?}", n, res);
            }
            Body::ProtoEnc { out } => {
                let t = if r.chance(1, 10) { 0 } else { rp::tag(r) };
                let v = if r.chance(1, 3) { rp::Val::Bytes(family(r)) } else { rp::Val::random(r) };
                let k = out.len();
                let res = v.put(r.below(3), t, out)?;
                h = hash_bytes(hash_bytes(h, format!("{:?}", res).as_bytes()), &out[k..]);
                let raw = v.raw();
                ensure!(v.same_when_read(raw)?, "value {:?} not read back", v);
                if out.len() > 5000 {
                    out.clear();
                }
                self.last = format!("encode tag {} -> {:?}", t, res);
            }
            Body::Huff { out } => {
                if out.len() > 3000 {
                    out.clear();
                }
                let n = len(r).min(300);
                let s = if r.bool() { family(r) } else { content(r, n) };
                let n = s.len();
                let sp = *r.pick(&u::SPEEDS);
                if r.bool() {
                    let res = u::enc(&s, out)?;
                    h = hash_bytes(h, format!("{:?}", res).as_bytes());
                } else {
                    // valid, or (half the time) cut short: the failure must not leak into the next call
                    let mut e = crate::refhuff::encode(&s);
                    if r.bool() {
                        e.truncate(r.us(e.len() + 1));
                        e.push(0xff);
                        e.push(0xff);
                    }
                    let res = u::dec(&e, out, sp)?;
                    h = hash_bytes(h, format!("{:?}", res).as_bytes());
                    if res.is_err() {
                        out.clear();
                    }
                }
                h = hash_bytes(h, out);
                self.last = format!("{} symbols at {:?}", n, sp);
            }
            Body::Tools => {
                let n = r.range(2, 6);
                let code: Vec<(u8, u32)> = (0..n).map(|i| (n as u8, i as u32)).collect();
                let sp = *r.pick(&u::SPEEDS);
                let m = sut("flattener::flatten", || format!("{:?}", hf::flattener::flatten(&code, sp)))?;
                h = hash_bytes(h, m.as_bytes());
                self.last = format!("flatten at {:?}", sp);
            }
        }
        self.log.push(h);
        Ok(())
    }
}

fn alone(seed: u64, steps: usize) -> R<(Vec<u64>, &'static str)> {
    let mut s = Script::new(seed, steps)?;
    while !s.done() {
        s.step()?;
    }
    let k = s.kind();
    Ok((s.log, k))
}

fn differ(what: &str, kind: &str, a: &[u64], b: &[u64], last: &str) -> R {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    if a.len() != b.len() || k < a.len() {
        fail!("{}: a {} instance gives another result at its step {} than when used alone; final operation: {}", what, kind, k, last)
    }
    Ok(())
}

fn x01_interleaved(c: &mut Case) -> R {
    let k = c.rng.range(2, 7) as usize;
    let steps = c.rng.range(5, 40) as usize;
    let mut seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
    if c.rng.bool() {
        seeds[1] = seeds[0]; // twins: same history, same results
    }
    let want: Vec<_> = seeds.iter().map(|&s| alone(s, steps)).collect::<R<Vec<_>>>()?;
    // again, alone: determinism
    let again = alone(seeds[0], steps)?;
    differ("repeated run", want[0].1, &want[0].0, &again.0, "")?;
    for _ in 0..2 {
        let mut live: Vec<Script> = seeds.iter().map(|&s| Script::new(s, steps)).collect::<R<Vec<_>>>()?;
        let mut order = 0u64;
        let mut open: Vec<usize> = (0..k).collect();
        while !open.is_empty() {
            let j = c.rng.us(open.len());
            let i = open[j];
            order = mix(order ^ i as u64);
            live[i].step()?;
            // now and then an instance dies in the middle of things
            if live[i].done() {
                open.swap_remove(j);
            }
        }
        for (i, s) in live.iter().enumerate() {
            differ("interleaved in one thread", want[i].1, &want[i].0, &s.log, &s.last)?;
        }
        c.distinct(order);
        c.count("interleavings", 1);
        c.count("interleaved steps", (k * steps) as u64);
    }
    for w in &want {
        c.count(w.1, 1);
    }
    c.sample(|| format!("{} instances x {} steps: {}", k, steps, want.iter().map(|w| w.1).collect::<Vec<_>>().join(", ")));
    Ok(())
}

fn x01_threads(c: &mut Case) -> R {
    let k = c.rng.range(2, 4) as usize;
    let steps = c.rng.range(20, 60) as usize;
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
    let want: Vec<_> = seeds.iter().map(|&s| alone(s, steps)).collect::<R<Vec<_>>>()?;
    let gate = Arc::new(Barrier::new(k));
    let res: Vec<R<(Vec<u64>, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&s| {
                let gate = gate.clone();
                sc.spawn(move || {
                    gate.wait();
                    let mut x = Script::new(s, steps)?;
                    while !x.done() {
                        x.step()?;
                        if x.left % 7 == 0 {
                            std::thread::yield_now();
                        }
                    }
                    Ok((x.log, x.last))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("script thread")).collect()
    });
    for (i, r) in res.into_iter().enumerate() {
        let (log, last) = r?;
        differ("in parallel threads", want[i].1, &want[i].0, &log, &last)?;
    }
    c.count("parallel runs", 1);
    c.count("parallel steps", (k * steps) as u64);
    c.distinct(mix(seeds[0] ^ seeds[1]));
    Ok(())
}

/// An instance moved between threads in the middle of its history.
fn x01_moved(c: &mut Case) -> R {
    let steps = c.rng.range(8, 30) as usize;
    let seed = c.rng.u64();
    let want = alone(seed, steps)?;
    let mut s = Some(Script::new(seed, steps)?);
    while !s.as_ref().unwrap().done() {
        let n = c.rng.range(1, 6);
        let mut x = s.take().unwrap();
        let (x, r) = std::thread::scope(|sc| {
            sc.spawn(move || {
                let mut r = Ok(());
                for _ in 0..n {
                    if !x.done() && r.is_ok() {
                        r = x.step();
                    }
                }
                (x, r)
            })
            .join()
            .expect("script thread")
        });
        r?;
        s = Some(x);
        c.count("moves between threads", 1);
    }
    let s = s.unwrap();
    differ("moved between threads", want.1, &want.0, &s.log, &s.last)?;
    c.distinct(mix(seed));
    Ok(())
}

/// The same script while a crowd of other instances is alive, and after it is gone.
fn x01_crowd(c: &mut Case) -> R {
    let steps = c.rng.range(60, 200) as usize;
    let seeds: Vec<u64> = (0..6).map(|_| c.rng.u64()).collect();
    let want: Vec<_> = seeds.iter().map(|&s| alone(s, steps)).collect::<R<Vec<_>>>()?;
    let top = if cfg!(miri) { 6 } else { 14 };
    let n = 1usize << c.rng.range(3, top);
    let n = n + c.rng.us(n);
    let mut crowd = vec![];
    for i in 0..n {
        let mut s = Script::new(mix(seeds[0] ^ i as u64), 3)?;
        if i % 8 == 0 {
            s.step()?; // some of them have a history
        }
        crowd.push(s);
    }
    for (i, &s) in seeds.iter().enumerate() {
        let got = alone(s, steps)?;
        differ(&format!("with {} other instances alive", n), want[i].1, &want[i].0, &got.0, "")?;
    }
    // one of the crowd goes on as if it had been alone all the time
    for k in [0, n / 2, n - 1] {
        let s = mix(seeds[0] ^ k as u64);
        while !crowd[k].done() {
            crowd[k].step()?;
        }
        differ(&format!("as one of {} instances", n), crowd[k].kind(), &alone(s, 3)?.0, &crowd[k].log, &crowd[k].last)?;
    }
    drop(crowd);
    for (i, &s) in seeds.iter().enumerate() {
        let got = alone(s, steps)?;
        differ(&format!("after {} other instances are gone", n), want[i].1, &want[i].0, &got.0, "")?;
    }
    c.count("crowds", 1);
    c.max("instances alive at once", n as u64);
    c.distinct(mix(seeds[0]));
    Ok(())
}

/// What a fresh process does: `n` threads are released together and run their
/// scripts as the first use of the library in that process. One line per thread.
pub fn first_use_child(seed: u64) -> String {
    let (n, steps, late, seeds) = first_use_plan(seed);
    let go = AtomicUsize::new(0);
    let meet = || {
        go.fetch_add(1, SeqCst);
        let mut k = 0u32;
        while go.load(SeqCst) < n {
            k += 1;
            if k % 4096 == 0 {
                std::thread::yield_now();
            }
            std::hint::spin_loop();
        }
    };
    let logs: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&s| {
                let meet = &meet;
                sc.spawn(move || {
                    // either building the instance or its first operation is the first use
                    let x = if late {
                        let x = Script::new(s, steps);
                        meet();
                        x
                    } else {
                        meet();
                        Script::new(s, steps)
                    };
                    let run = |mut x: Script| {
                        while !x.done() {
                            x.step()?;
                        }
                        Ok::<_, Fail>(x.log)
                    };
                    match x.and_then(run) {
                        Ok(l) => l.iter().map(|h| format!("{:x}", h)).collect::<Vec<_>>().join(" "),
                        Err(f) => format!("! {}", f.0.replace('\n', " ")),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "! the thread died".into())).collect()
    });
    logs.join("\n")
}

fn first_use_plan(seed: u64) -> (usize, usize, bool, Vec<u64>) {
    let mut r = Rng::new(seed);
    let n = r.range(2, 8) as usize;
    let steps = r.range(1, 8) as usize;
    let late = r.bool();
    let mut seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    if r.chance(3, 4) {
        // all do the same: any two results must be equal
        let s = seeds[0];
        seeds.iter_mut().for_each(|x| *x = s);
    }
    (n, steps, late, seeds)
}

fn x01_first_use(c: &mut Case) -> R {
    if cfg!(miri) {
        return Ok(()); // no processes under the interpreter
    }
    let seed = c.rng.u64();
    let (n, steps, _, seeds) = first_use_plan(seed);
    let want: Vec<_> = seeds.iter().map(|&s| alone(s, steps)).collect::<R<Vec<_>>>()?;
    let exe = std::env::current_exe().expect("own path");
    let mut ch = std::process::Command::new(exe)
        .args(["firstuse", &seed.to_string()])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .expect("start of a fresh process");
    let t0 = std::time::Instant::now();
    let dead = loop {
        match ch.try_wait().expect("wait for the fresh process") {
            Some(_) => break false,
            None if t0.elapsed().as_secs() > 120 => {
                let _ = ch.kill();
                break true;
            }
            None => std::thread::sleep(std::time::Duration::from_micros(500)),
        }
    };
    let o = ch.wait_with_output().expect("output of the fresh process");
    ensure!(!dead, "{} threads using the library for the first time in a process did not finish within 120 s", n);
    let (out, err) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    ensure!(o.status.success(), "{} threads using the library for the first time in a process: {}; {}", n, o.status, err.chars().take(1500).collect::<String>());
    let lines: Vec<&str> = out.lines().collect();
    ensure!(lines.len() == n, "{} threads, {} results: {}", n, lines.len(), out);
    for (i, l) in lines.iter().enumerate() {
        if let Some(m) = l.strip_prefix('!') {
            fail!("first use in a process by {} threads at once: {}", n, m);
        }
        let got: Vec<u64> = l.split_whitespace().map(|h| u64::from_str_radix(h, 16).expect("hash")).collect();
        differ(&format!("first use in a process by {} threads at once, thread {}", n, i), want[i].1, &want[i].0, &got, "")?;
    }
    c.count("fresh processes", 1);
    c.count("first uses", n as u64);
    c.distinct(mix(seed));
    c.sample(|| format!("fresh process, {} threads x {} steps: {}", n, steps, want[0].1));
    Ok(())
}

pub fn x01() -> Prop {
    Prop {
        id: "X01",
        rule: "one evaluation = several scripts (instances with histories of their own) run alone, then interleaved in a random order, in parallel threads, moved between threads, as the first use in a fresh process, or in a crowd of others, with the per-step transcripts compared; distinct: by interleaving order or seeds",
        stages: vec![st("interleaved", 2_500, 60_000, x01_interleaved), st("threads", 600, 10_000, x01_threads), st("moved", 300, 5_000, x01_moved), st("crowd", 40, 1000, x01_crowd), st("first use", 60, 3_000, x01_first_use)],
        floors: vec![("interleavings", 3000), ("parallel runs", 300), ("moves between threads", 300), ("fresh processes", 50), ("crowds", 15)],
    }
}
