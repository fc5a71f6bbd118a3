//! U01 BKDR hash, U02 Bloom filter, U03 dedup, U04 time precision, U05 durations and byte
//! sizes as text, U06 id generator.
use std::cell::Cell;
use std::collections::HashSet;
use std::hash::Hasher;
use std::rc::Rc;
use std::sync::{Arc, Barrier};
use std::time::Duration;

use mon::rand::seq::SliceRandom;
use mon::rand::Rng;
use mon::{json, quiet, Ctx, GenExt};
use utils::byte_nums::CnosByteNumber;
use utils::duration::CnosDuration;
use utils::id_generator::IDGenerator;
use utils::precision::{timestamp_convert, Precision};
use utils::{dedup_front_by, dedup_front_by_key, BkdrHasher, BloomFilter};

// ---- reference hashes, written from their published definitions -----------------------

fn ref_bkdr(b: &[u8], init: u64) -> u64 {
    b.iter().fold(init, |h, c| h.wrapping_mul(1313).wrapping_add(*c as u64))
}
fn ref_fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3))
}
fn ref_xxh64(d: &[u8]) -> u64 {
    const P1: u64 = 0x9E3779B185EBCA87;
    const P2: u64 = 0xC2B2AE3D27D4EB4F;
    const P3: u64 = 0x165667B19E3779F9;
    const P4: u64 = 0x85EBCA77C2B2AE63;
    const P5: u64 = 0x27D4EB2F165667C5;
    let rd = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    let round = |a: u64, x: u64| a.wrapping_add(x.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1);
    let mut i = 0;
    let mut h;
    if d.len() >= 32 {
        let mut v = [P1.wrapping_add(P2), P2, 0u64, 0u64.wrapping_sub(P1)];
        while i + 32 <= d.len() {
            for k in 0..4 {
                v[k] = round(v[k], rd(i + 8 * k));
            }
            i += 32;
        }
        h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
        for x in v {
            h = (h ^ round(0, x)).wrapping_mul(P1).wrapping_add(P4);
        }
    } else {
        h = P5;
    }
    h = h.wrapping_add(d.len() as u64);
    while i + 8 <= d.len() {
        h = (h ^ round(0, rd(i))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
        i += 8;
    }
    if i + 4 <= d.len() {
        let x = u32::from_le_bytes(d[i..i + 4].try_into().unwrap()) as u64;
        h = (h ^ x.wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
        i += 4;
    }
    while i < d.len() {
        h = (h ^ (d[i] as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
        i += 1;
    }
    h ^= h >> 33;
    h = h.wrapping_mul(P2);
    h ^= h >> 29;
    h = h.wrapping_mul(P3);
    h ^ (h >> 32)
}
fn ref_sip13(d: &[u8]) -> u64 {
    let mut v = [0x736f6d6570736575u64, 0x646f72616e646f6d, 0x6c7967656e657261, 0x7465646279746573];
    fn round(v: &mut [u64; 4]) {
        v[0] = v[0].wrapping_add(v[1]);
        v[1] = v[1].rotate_left(13) ^ v[0];
        v[0] = v[0].rotate_left(32);
        v[2] = v[2].wrapping_add(v[3]);
        v[3] = v[3].rotate_left(16) ^ v[2];
        v[0] = v[0].wrapping_add(v[3]);
        v[3] = v[3].rotate_left(21) ^ v[0];
        v[2] = v[2].wrapping_add(v[1]);
        v[1] = v[1].rotate_left(17) ^ v[2];
        v[2] = v[2].rotate_left(32);
    }
    let mut ch = d.chunks_exact(8);
    for c in &mut ch {
        let m = u64::from_le_bytes(c.try_into().unwrap());
        v[3] ^= m;
        round(&mut v);
        v[0] ^= m;
    }
    let mut last = [0u8; 8];
    last[..ch.remainder().len()].copy_from_slice(ch.remainder());
    last[7] = d.len() as u8;
    let m = u64::from_le_bytes(last);
    v[3] ^= m;
    round(&mut v);
    v[0] ^= m;
    v[2] ^= 0xff;
    for _ in 0..3 {
        round(&mut v);
    }
    v[0] ^ v[1] ^ v[2] ^ v[3]
}

fn u01(c: &mut Ctx) {
    c.rule("the id of a byte string equals the BKDR polynomial (seed 1313, mod 2^64), however the string is split into writes");
    let mut r = c.rng("u01");
    for _ in 0..c.n(20_000, 50) {
        let data = match r.gen_range(0..4) {
            _ if r.chance(0.002) => {
                // long: beyond every power of two a length could be cut at
                let n = *r.pick(&[4_095usize, 4_097, 32_769, 65_535, 65_537, 131_073, 1 << 20]) + r.gen_range(0..3);
                c.count("long_inputs", 1);
                (0..n).map(|_| r.gen()).collect()
            }
            0 => r.bytes(8),
            1 => r.bytes(64),
            2 => r.edgy_string(40).into_bytes(),
            _ => r.bytes(300),
        };
        let prefix = r.edgy_u64();
        let start = r.edgy_u64();
        // random segmentation, empty segments included
        let mut cuts: Vec<usize> = (0..r.gen_range(0..6)).map(|_| r.gen_range(0..=data.len())).collect();
        cuts.push(0);
        cuts.push(data.len());
        cuts.sort();
        let segs: Vec<&[u8]> = cuts.windows(2).map(|w| &data[w[0]..w[1]]).collect();
        let want = ref_bkdr(&data, 0);
        let det = || json!({"data": &data[..data.len().min(4000)], "len": data.len(), "segments": segs.iter().map(|s| s.len()).collect::<Vec<_>>(), "prefix": prefix, "start": start, "want": want});
        let got = c.guard("bkdr", det, || {
            let mut a = BkdrHasher::new();
            let mut b = BkdrHasher::with_prefix(prefix);
            let mut d = BkdrHasher::default();
            let mut e = BkdrHasher::with_number(start);
            for s in &segs {
                a.hash_with(s);
                b.write(s);
                d.write(s);
                e.hash_with(s);
            }
            (a.number(), a.finish(), a.number_with_prefix(), b.number(), b.number_with_prefix(), d.finish(), e.number())
        });
        let Some(g) = got else { continue };
        c.case(Some(&data));
        if segs.len() > 1 {
            c.count("split_inputs", 1);
        }
        if data.len() > 6 {
            c.count("inputs_wrapping_2^64", 1);
        }
        if g.0 != want || g.1 != want || g.5 != want || g.3 != want {
            c.violation("bkdr:value", json!({"got": format!("{g:?}"), "case": det()}));
        }
        if g.2 != want as u128 {
            c.violation("bkdr:noprefix128", json!({"got": g.2.to_string(), "case": det()}));
        }
        if g.4 != ((prefix as u128) << 64 | want as u128) {
            c.violation("bkdr:prefix128", json!({"got": g.4.to_string(), "case": det()}));
        }
        if g.6 != ref_bkdr(&data, start) {
            c.violation("bkdr:resumed", json!({"got": g.6, "case": det()}));
        }
    }
    c.need("split_inputs", 100);
    c.need("inputs_wrapping_2^64", 100);
}

fn u02(c: &mut Ctx) {
    c.rule("every inserted key is reported, directly and after bytes()/with_data; bits set are exactly those of the four hashes; keys whose bits are not all set are rejected");
    let mut r = c.rng("u02");
    for _ in 0..c.n(2_500, 40) {
        let m = match r.gen_range(0..5) {
            0 => r.gen_range(0..80),
            1 => 1u64 << r.gen_range(0..14),
            2 => (1u64 << r.gen_range(3..14)) + 1,
            3 => 512,
            _ => r.gen_range(1..20_000),
        };
        // now and then a large one
        let m = if r.chance(0.02) { r.gen_range(1u64 << 15..1 << 22) } else { m };
        let keys: Vec<Vec<u8>> = (0..r.gen_range(0..40)).map(|i| match i % 3 {
            0 => r.gen::<u32>().to_be_bytes().to_vec(),
            1 => r.bytes(70),
            _ => r.edgy_string(20).into_bytes(),
        }).collect();
        let others: Vec<Vec<u8>> = (0..60).map(|_| r.bytes(20)).collect();
        let det = || json!({"bits": m, "keys": keys});
        let Some(()) = c.guard("bloom", det, || ()) else { continue };
        let res = quiet(|| {
            let mut f = BloomFilter::new(m);
            for k in &keys {
                f.insert(k);
            }
            let g = BloomFilter::with_data(f.bytes());
            (f, g)
        });
        let Ok((f, g)) = res else {
            c.violation("panic:bloom", det());
            continue;
        };
        let nbits = (f.bytes().len() * 8) as u64;
        if nbits < m || !nbits.is_power_of_two() || f.len() != f.bytes().len() {
            c.violation("bloom:size", json!({"nbits": nbits, "case": det()}));
            continue;
        }
        // exact image
        let pos = |k: &[u8]| [ref_fnv(k), ref_xxh64(k), ref_sip13(k), ref_bkdr(k, 0)].map(|h| (h & (nbits - 1)) as usize);
        let mut want = vec![0u8; nbits as usize / 8];
        for k in &keys {
            for p in pos(k) {
                want[p >> 3] |= 1 << (p & 7);
            }
        }
        c.case(Some(&(m, &keys)));
        if want != f.bytes() {
            c.violation("bloom:image", json!({"case": det(), "got": f.bytes().iter().take(4096).collect::<Vec<_>>(), "want": want.iter().take(4096).collect::<Vec<_>>()}));
        }
        for k in &keys {
            c.count("present_queries", 2);
            if !f.maybe_contains(k) {
                c.violation("bloom:false-negative", json!({"key": k, "case": det()}));
            }
            if !g.maybe_contains(k) {
                c.violation("bloom:false-negative-after-reload", json!({"key": k, "case": det()}));
            }
        }
        for k in &others {
            let all = pos(k).iter().all(|p| want[p >> 3] & (1 << (p & 7)) != 0);
            for (which, x) in [("fresh", &f), ("reloaded", &g)] {
                let got = x.maybe_contains(k);
                c.count(if got { "absent_maybe" } else { "absent_rejected" }, 1);
                if got != all {
                    c.violation(&format!("bloom:verdict-{which}"), json!({"key": k, "want": all, "case": det()}));
                }
            }
        }
        if f.bytes() != g.bytes() || f != g {
            c.violation("bloom:reload-differs", det());
        }
        c.sample("filter", || json!({"bits": m, "keys": keys.len(), "set": want.iter().map(|b| b.count_ones()).sum::<u32>()}));
    }
    c.need("present_queries", 1000);
    c.need("absent_rejected", 1000);
}

// ---- dedup ---------------------------------------------------------------------------

#[derive(Debug)]
struct Tok {
    key: i32,
    id: usize,
    sum: u64,
    drops: Rc<Vec<Cell<u32>>>,
    bomb: bool,
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.drops[self.id].set(self.drops[self.id].get() + 1);
        if self.bomb {
            self.bomb = false;
            std::panic::panic_any("bomb");
        }
    }
}

fn u03(c: &mut Ctx) {
    c.rule("the vector left is the last element of each run of equal keys, each element dropped exactly once; if the predicate panics nothing is dropped twice and the survivors stay in order");
    // elements without a size
    for n in 0..20usize {
        let mut v = vec![(); n];
        if c.guard("dedup", || json!({"units": n}), || dedup_front_by_key(&mut v, |_| 0)).is_some() && v.len() != n.min(1) {
            c.violation("dedup:units", json!({"given": n, "left": v.len()}));
        }
        c.case(Some(&("units", n)));
    }
    let mut r = c.rng("u03");
    for _ in 0..c.n(20_000, 40) {
        let n = match r.gen_range(0..4) { 0 => r.gen_range(0..5), 1 => r.gen_range(0..200), _ => r.gen_range(0..30) };
        let k = r.gen_range(1..6);
        let mut keys: Vec<i32> = (0..n).map(|_| r.gen_range(0..k)).collect();
        if r.chance(0.5) {
            keys.sort();
        }
        let drops = Rc::new((0..n).map(|_| Cell::new(0)).collect::<Vec<_>>());
        let mk = |bomb: Option<usize>| keys.iter().enumerate().map(|(i, k)| Tok { key: *k, id: i, sum: 1, drops: drops.clone(), bomb: bomb == Some(i) }).collect::<Vec<_>>();
        let runs: Vec<(usize, u64)> = {
            let mut v: Vec<(usize, u64)> = vec![];
            for i in 0..n {
                if i > 0 && keys[i] == keys[i - 1] {
                    let l = v.last_mut().unwrap();
                    l.0 = i;
                    l.1 += 1;
                } else {
                    v.push((i, 1));
                }
            }
            v
        };
        let mode = r.gen_range(0..4);
        let det = || json!({"keys": keys, "mode": mode});
        c.case(Some(&(&keys, mode)));
        if runs.len() < n {
            c.count("inputs_with_duplicates", 1);
        }
        match mode {
            0 => {
                let mut v = mk(None);
                dedup_front_by_key(&mut v, |t| t.key);
                let got: Vec<usize> = v.iter().map(|t| t.id).collect();
                let want: Vec<usize> = runs.iter().map(|x| x.0).collect();
                if got != want {
                    c.violation("dedup:key", json!({"got": got, "want": want, "case": det()}));
                }
                drop(v);
                if drops.iter().any(|d| d.get() != 1) {
                    c.violation("dedup:drop-count", det());
                    std::mem::forget(drops.clone());
                }
            }
            1 => {
                // merge from the removed one into the kept one, like the write path does
                let mut v = mk(None);
                let mut order_ok = true;
                dedup_front_by(&mut v, |a, b| {
                    order_ok &= a.id < b.id;
                    if a.key == b.key {
                        b.sum += a.sum;
                        true
                    } else {
                        false
                    }
                });
                let got: Vec<(usize, u64)> = v.iter().map(|t| (t.id, t.sum)).collect();
                if got != runs || !order_ok {
                    c.violation("dedup:merge", json!({"got": got, "want": runs, "order_ok": order_ok, "case": det()}));
                }
                drop(v);
                if drops.iter().any(|d| d.get() != 1) {
                    c.violation("dedup:drop-count", det());
                }
            }
            2 => {
                // the predicate panics at its j-th call
                let j = r.gen_range(0..n.max(1));
                let mut v = mk(None);
                let mut calls = 0;
                let res = quiet(|| {
                    dedup_front_by(&mut v, |a, b| {
                        if calls == j {
                            panic!("predicate");
                        }
                        calls += 1;
                        a.key == b.key
                    })
                });
                if res.is_err() {
                    c.count("predicate_panics", 1);
                }
                let ids: Vec<usize> = v.iter().map(|t| t.id).collect();
                if ids.windows(2).any(|w| w[0] >= w[1]) {
                    c.violation("dedup:order-after-panic", json!({"ids": ids, "at": j, "case": det()}));
                }
                let dropped_before: Vec<u32> = drops.iter().map(|d| d.get()).collect();
                if ids.iter().any(|i| dropped_before[*i] != 0) {
                    c.violation("dedup:dangling-after-panic", json!({"ids": ids, "at": j, "case": det()}));
                    std::mem::forget(v);
                    continue;
                }
                drop(v);
                if drops.iter().any(|d| d.get() > 1) {
                    c.violation("dedup:double-drop", json!({"at": j, "case": det()}));
                }
            }
            _ => {
                // dropping a removed element panics
                if n == 0 {
                    continue;
                }
                let victim = r.gen_range(0..n);
                let mut v = mk(Some(victim));
                let res = quiet(|| dedup_front_by_key(&mut v, |t| t.key));
                if res.is_err() {
                    c.count("drop_panics", 1);
                }
                let ids: Vec<usize> = v.iter().map(|t| t.id).collect();
                if ids.windows(2).any(|w| w[0] >= w[1]) || ids.iter().any(|i| drops[*i].get() != 0) {
                    c.violation("dedup:dangling-after-drop-panic", json!({"ids": ids, "victim": victim, "case": det()}));
                    std::mem::forget(v);
                    continue;
                }
                for t in v.iter_mut() {
                    t.bomb = false;
                }
                drop(v);
                if drops.iter().any(|d| d.get() > 1) {
                    c.violation("dedup:double-drop", json!({"victim": victim, "case": det()}));
                }
            }
        }
        c.sample("dedup", || det());
    }
    c.need("inputs_with_duplicates", 500);
    c.need("predicate_panics", 200);
    c.need("drop_panics", 100);
}

// ---- precision -----------------------------------------------------------------------

fn u04(c: &mut Ctx) {
    c.rule("converted timestamps are exact scalings: towards finer units ×1000 or None on overflow, towards coarser units within one unit and monotone; coarse→fine→coarse is the identity");
    let mut r = c.rng("u04");
    let all = [Precision::MS, Precision::US, Precision::NS];
    let ns = |p: Precision| -> i128 { match p { Precision::MS => 1_000_000, Precision::US => 1_000, Precision::NS => 1 } };
    for _ in 0..c.n(30_000, 60) {
        let (f, t) = (*r.pick(&all), *r.pick(&all));
        let a = match r.gen_range(0..5) {
            4 => {
                // just beside a whole number of units, large enough that a double cannot hold it
                let k = *r.pick(&[1_000i64, 1_000_000]);
                r.gen_range(-(i64::MAX / k)..i64::MAX / k) * k + r.gen_range(-1..2)
            }
            0 => r.edgy_i64(),
            1 => r.gen_range(-3_000_000i64..3_000_000),
            2 => {
                let k = *r.pick(&[1_000i64, 1_000_000]);
                (i64::MAX / k).wrapping_add(r.gen_range(-2..3)) * *r.pick(&[1i64, -1])
            }
            _ => r.gen_range(1_500_000_000_000i64..1_900_000_000_000_000_000),
        };
        let det = || json!({"from": f.to_string(), "to": t.to_string(), "ts": a});
        let Some(got) = c.guard("convert", det, || timestamp_convert(f, t, a)) else { continue };
        c.case(Some(&(a, ns(f), ns(t))));
        let (nf, nt) = (ns(f), ns(t));
        if nf >= nt {
            let want = i64::try_from(a as i128 * (nf / nt)).ok();
            c.count(if want.is_none() { "overflows" } else { "finer" }, 1);
            if got != want {
                c.violation("precision:finer", json!({"got": got, "want": want, "case": det()}));
            }
            if let Some(g) = got {
                if timestamp_convert(t, f, g) != Some(a) {
                    c.violation("precision:roundtrip", det());
                }
            }
        } else {
            let k = nt / nf;
            c.count("coarser", 1);
            match got {
                None => c.violation("precision:coarser-none", det()),
                Some(g) => {
                    let err = g as i128 * k - a as i128;
                    if err.abs() >= k || (a >= 0 && err > 0) {
                        c.violation("precision:coarser", json!({"got": g, "case": det()}));
                    }
                    // monotone
                    let b = a.saturating_add(r.gen_range(0..3_000_000));
                    if timestamp_convert(f, t, b) < Some(g) {
                        c.violation("precision:monotone", json!({"next": b, "case": det()}));
                    }
                }
            }
        }
    }
    // names, codes and arrow units
    for p in all {
        use datafusion::arrow::datatypes::TimeUnit;
        for s in [p.to_string(), p.to_string().to_lowercase()] {
            if Precision::new(&s) != Some(p) {
                c.violation("precision:name", json!({"name": s}));
            }
        }
        if Precision::from(p as u8) != p {
            c.violation("precision:code", json!({"p": p.to_string()}));
        }
        let u: TimeUnit = p.into();
        let scale = match u { TimeUnit::Second => 1_000_000_000, TimeUnit::Millisecond => 1_000_000, TimeUnit::Microsecond => 1_000, TimeUnit::Nanosecond => 1i128 };
        if Precision::from(u) != p || scale != ns(p) {
            c.violation("precision:unit", json!({"p": p.to_string()}));
        }
        c.case(Some(&p.to_string()));
    }
    for _ in 0..2000 {
        let s = r.edgy_string(4);
        if let Some(p) = Precision::new(&s) {
            if p.to_string() != s.to_uppercase() {
                c.violation("precision:name", json!({"name": s}));
            }
        }
    }
    // a duration in database units
    for _ in 0..c.n(10_000, 20) {
        let nanos = match r.gen_range(0..3) { 0 => r.edgy_u64() as u128, 1 => r.gen_range(0..5_000_000_000u128), _ => (r.edgy_u64() as u128) * 1_000_003 };
        let nanos = nanos.min(u64::MAX as u128 * 1_000_000_000);
        let d = Duration::new((nanos / 1_000_000_000) as u64, (nanos % 1_000_000_000) as u32);
        let inf = r.chance(0.1);
        let cd = CnosDuration::init(d, inf);
        for p in all {
            let want = if inf { i64::MAX } else { (nanos / ns(p) as u128).min(i64::MAX as u128) as i64 };
            let det = || json!({"nanos": nanos.to_string(), "inf": inf, "p": p.to_string()});
            if let Some(g) = c.guard("duration", det, || cd.to_precision(p)) {
                c.case(Some(&(nanos as u64, inf, ns(p))));
                if want == i64::MAX {
                    c.count("saturated_durations", 1);
                }
                if g != want {
                    c.violation("precision:duration", json!({"got": g, "want": want, "case": det()}));
                }
            }
        }
    }
    for k in ["overflows", "finer", "coarser", "saturated_durations"] {
        c.need(k, 300);
    }
}

// ---- durations and sizes as text -----------------------------------------------------

fn u05(c: &mut Ctx) {
    c.rule("text written for a duration or byte size reads back as the same value; text a user writes means the sum of its units");
    let mut r = c.rng("u05");
    let units: [(&[&str], u128); 10] = [
        (&["ns", "nsec"], 1),
        (&["us", "usec"], 1_000),
        (&["ms", "msec"], 1_000_000),
        (&["s", "sec", "seconds"], 1_000_000_000),
        (&["m", "min", "minutes"], 60_000_000_000),
        (&["h", "hr", "hours"], 3_600_000_000_000),
        (&["d", "day", "days"], 86_400_000_000_000),
        (&["w", "week", "weeks"], 604_800_000_000_000),
        (&["M", "month", "months"], 2_630_016_000_000_000),
        (&["y", "year", "years"], 31_557_600_000_000_000),
    ];
    for _ in 0..c.n(15_000, 40) {
        // values → text → values
        let d = match r.gen_range(0..5) {
            0 => CnosDuration::new_inf(),
            1 => {
                let n = if r.chance(0.3) { u64::MAX / 86_400 - 2 + r.gen_range(0..5) } else { r.edgy_u64() };
                let d = CnosDuration::new_with_day(n);
                let want = if n as u128 * 86_400 > u64::MAX as u128 { CnosDuration::new_inf() } else { CnosDuration::new_with_duration(Duration::from_secs(n * 86_400)) };
                if d != want {
                    c.violation("duration:days", json!({"days": n, "got": format!("{d:?}")}));
                }
                d
            }
            2 => CnosDuration::new_with_duration(Duration::new(r.gen_range(0..100_000_000), r.gen_range(0..1_000_000_000))),
            3 => CnosDuration::new_with_duration(Duration::from_nanos(r.edgy_u64())),
            _ => CnosDuration::new_with_duration(Duration::from_secs(r.gen_range(0..1u64 << 60))),
        };
        let text = d.to_string();
        let back = c.guard("duration-parse", || json!({"text": text}), || CnosDuration::new(&text));
        c.case(Some(&text));
        c.count("duration_roundtrips", 1);
        if let Some(b) = back {
            if b.as_ref() != Some(&d) {
                c.violation("duration:roundtrip", json!({"text": text, "secs": d.duration.as_secs(), "nanos": d.duration.subsec_nanos(), "got": format!("{b:?}")}));
            }
        }
        // user text
        let (text, want): (String, Option<CnosDuration>) = match r.gen_range(0..6) {
            0 => {
                let n = if r.chance(0.3) { u64::MAX / 86_400 - 2 + r.gen_range(0..5) } else { r.edgy_u64() };
                // a bare number is days; too many days mean "forever"
                let want = if n as u128 * 86_400 > u64::MAX as u128 { CnosDuration::new_inf() } else { CnosDuration::new_with_duration(Duration::from_secs(n * 86_400)) };
                (n.to_string(), Some(want))
            }
            1 => (r.pick(&["inf", "INF", "Inf", "iNf"]).to_string(), Some(CnosDuration::new_inf())),
            2 => (r.pick(&["", "d", "-1", "1.5x", "1q", "infinite", "in", "5 lightyears", "--", "1d-2h"]).to_string(), None),
            _ => {
                let mut parts = vec![];
                let mut total = 0u128;
                for _ in 0..r.gen_range(1..4) {
                    let (names, k) = r.pick(&units);
                    let n = r.gen_range(0..5000u64);
                    let name = *r.pick(names);
                    total += n as u128 * k;
                    parts.push(format!("{n}{}{name}", if r.chance(0.2) { " " } else { "" }));
                }
                (parts.join(if r.chance(0.5) { " " } else { "" }), Some(CnosDuration::new_with_duration(Duration::new((total / 1_000_000_000) as u64, (total % 1_000_000_000) as u32))))
            }
        };
        let got = c.guard("duration-parse", || json!({"text": text}), || CnosDuration::new(&text));
        if let Some(g) = got {
            c.case(Some(&text));
            c.count(if want.is_some() { "user_durations" } else { "bad_durations" }, 1);
            if g != want {
                c.violation("duration:meaning", json!({"text": text, "want": format!("{want:?}"), "got": format!("{g:?}")}));
            }
        }
        // nothing panics on garbage
        let junk = r.edgy_string(12);
        c.guard("duration-junk", || json!({"text": junk}), || CnosDuration::new(&junk));
        c.guard("bytes-junk", || json!({"text": junk}), || CnosByteNumber::parse_bytes(&junk).is_ok() | CnosByteNumber::new(&junk).is_some());
        // sizes
        let n = match r.gen_range(0..5) {
            0 => r.edgy_u64(),
            1 => r.gen_range(0..5_000_000),
            2 => r.gen_range(0..5000u64) << r.gen_range(0..40),
            3 => r.gen_range(0..5000u64) * 10u64.pow(r.gen_range(0..12)),
            _ => r.gen_range(0..1u64 << 50),
        };
        if let Some((t, b)) = c.guard("bytes", || json!({"n": n}), || { let t = CnosByteNumber::format_bytes(n); let b = CnosByteNumber::parse_bytes(&t).ok(); (t, b) }) {
            c.case(Some(&("size", n)));
            c.count("size_roundtrips", 1);
            if b != Some(n) {
                c.violation("bytes:roundtrip", json!({"n": n, "text": t, "got": b}));
            }
        }
        let sz: [(&[&str], u64); 9] = [
            (&["", "b", "B"], 1),
            (&["k", "K", "kb", "KB", "Kb"], 1_000),
            (&["kib", "KiB", "Kib"], 1 << 10),
            (&["m", "M", "mb", "MB"], 1_000_000),
            (&["mib", "MiB"], 1 << 20),
            (&["g", "G", "gb", "GB"], 1_000_000_000),
            (&["gib", "GiB"], 1 << 30),
            (&["t", "T", "tb", "TB"], 1_000_000_000_000),
            (&["tib", "TiB"], 1 << 40),
        ];
        let (names, k) = r.pick(&sz);
        let q = r.gen_range(0..100_000u64);
        let qs = if r.chance(0.4) && q >= 1000 { let s = q.to_string(); format!("{}_{}", &s[..s.len() - 3], &s[s.len() - 3..]) } else { q.to_string() };
        let text = format!("{qs}{}{}", if r.chance(0.2) { " " } else { "" }, r.pick(names));
        if let Some(g) = c.guard("bytes", || json!({"text": text}), || CnosByteNumber::parse_bytes(&text).ok()) {
            c.case(Some(&text));
            c.count("user_sizes", 1);
            if g != Some(q * k) {
                c.violation("bytes:meaning", json!({"text": text, "want": q * k, "got": g}));
            }
        }
    }
    c.need("duration_roundtrips", 1000);
    c.need("user_durations", 500);
    c.need("bad_durations", 100);
    c.need("size_roundtrips", 1000);
    c.need("user_sizes", 1000);
}

// ---- ids -----------------------------------------------------------------------------

fn u06(c: &mut Ctx) {
    c.rule("ids handed out by clones of one generator on many threads are pairwise distinct, consecutive from the start value, and increasing on each thread");
    let mut r = c.rng("u06");
    for round in 0..c.n(150, 40) {
        let init = if r.chance(0.3) { r.gen_range(0..10) } else { r.gen::<u32>() as u64 };
        let g = IDGenerator::new(init);
        let base = if r.chance(0.5) { let v = r.gen_range(0..1 << 40); g.set(v); v } else { init };
        let threads = r.gen_range(2..=8usize);
        let per = r.gen_range(10..400usize);
        let bar = Arc::new(Barrier::new(threads));
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (g, bar) = (g.clone(), bar.clone());
                std::thread::spawn(move || {
                    bar.wait();
                    (0..per).map(|_| g.next_id()).collect::<Vec<_>>()
                })
            })
            .collect();
        let per_thread: Vec<Vec<u64>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        let mut switches = 0;
        let mut seen = HashSet::new();
        for (t, v) in per_thread.iter().enumerate() {
            for w in v.windows(2) {
                if w[0] >= w[1] {
                    c.violation("ids:not-increasing", json!({"thread": t, "pair": w}));
                }
                if w[1] != w[0] + 1 {
                    switches += 1;
                }
            }
            for x in v {
                if !seen.insert(*x) {
                    c.violation("ids:duplicate", json!({"id": x, "round": round}));
                }
            }
        }
        let total = (threads * per) as u64;
        if seen.iter().any(|x| *x < base || *x >= base + total) {
            c.violation("ids:range", json!({"base": base, "total": total}));
        }
        c.count("ids", total);
        c.count("interleaving_switches", switches);
        let mut sig: Vec<(u64, usize)> = per_thread.iter().enumerate().flat_map(|(t, v)| v.iter().map(move |x| (*x, t))).collect();
        sig.sort();
        let order: Vec<usize> = sig.iter().map(|x| x.1).collect();
        c.case(Some(&order));
        let _ = &mut order.clone()[..].choose(&mut r);
    }
    c.need("ids", 10_000);
    c.need("interleaving_switches", 100);
}

fn main() {
    mon::main(&[("U01", u01), ("U02", u02), ("U03", u03), ("U04", u04), ("U05", u05), ("U06", u06)]);
}
