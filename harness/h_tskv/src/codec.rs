//! Pages and codecs: what is encoded comes back, for every encoding a column may have.
use std::sync::Arc;

use datafusion::arrow::array::*;
use datafusion::arrow::datatypes::{DataType, TimeUnit};
use eng::{cell, Val};
use models::codec::Encoding;
use models::field_value::FieldVal;
use models::schema::tskv_table_schema::{ColumnType, TableColumn};
use models::ValueType;
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};
use tskv::tsm::mutable_column_ref::MutableColumnRef;
use tskv::tsm::page::Page;

use crate::e2e::encodings;

const TIME_ENC: [Encoding; 5] = [Encoding::Delta, Encoding::Default, Encoding::Null, Encoding::DeltaTs, Encoding::Quantile];

/// sequences with the shapes the integer encoders switch on: constant steps, small and
/// large steps, runs, steps that do not fit 60 bits, extremes
pub fn ints(g: &mut StdRng, n: usize) -> Vec<i64> {
    let mut v = vec![];
    let kind = g.gen_range(0..7);
    let step = *g.pick(&[0i64, 1, -1, 1000, 1_000_000_000, -7, i64::MAX / 3]);
    let mut x = *g.pick(&[0i64, -5, 1_600_000_000_000_000_000, i64::MAX, i64::MIN, i64::MIN / 2]);
    for i in 0..n {
        v.push(match kind {
            0 => x.wrapping_add(step.wrapping_mul(i as i64)),
            1 => g.gen_range(-8..8),
            2 => g.gen_range(0..1 << 20),
            3 => g.gen(),
            4 => g.edgy_i64(),
            5 => {
                x = x.wrapping_add(g.gen_range(0..3));
                x
            }
            _ => {
                if g.chance(0.05) {
                    x = x.wrapping_add(g.gen_range(-(1i64 << 61)..1 << 61));
                }
                x = x.wrapping_add(step);
                x
            }
        });
    }
    v
}
fn floats(g: &mut StdRng, n: usize) -> Vec<f64> {
    let kind = g.gen_range(0..4);
    let mut x = g.gen_range(-100.0..100.0);
    (0..n)
        .map(|_| match kind {
            0 => x,
            1 => {
                x += g.gen_range(-1.0..1.0);
                x
            }
            2 => g.edgy_f64(),
            _ => g.gen_range(-10..10) as f64 / 2.0,
        })
        .collect()
}
fn strings(g: &mut StdRng, n: usize) -> Vec<String> {
    let kind = g.gen_range(0..3);
    (0..n)
        .map(|_| match kind {
            0 => g.edgy_string(12),
            1 => String::new(),
            _ => {
                let n = *g.pick(&[0usize, 1, 127, 128, 129, 300, 20_000]);
                let c = *g.pick(&['a', 'é', '\0']);
                (0..n).map(|_| c).collect()
            }
        })
        .collect()
}

pub fn values(g: &mut StdRng, t: &ColumnType, n: usize) -> Vec<Val> {
    let nulls = if t.is_time() { 0.0 } else { *g.pick(&[0.0, 0.0, 0.3, 0.9, 1.0]) };
    let v: Vec<Val> = match t {
        ColumnType::Time(_) => {
            let mut x = ints(g, n);
            if g.chance(0.8) {
                x.sort();
            }
            x.into_iter().map(Val::T).collect()
        }
        ColumnType::Field(ValueType::Integer) => ints(g, n).into_iter().map(Val::I).collect(),
        ColumnType::Field(ValueType::Unsigned) => ints(g, n).into_iter().map(|x| Val::U(x as u64)).collect(),
        ColumnType::Field(ValueType::Float) => floats(g, n).into_iter().map(|x| Val::F(x.to_bits())).collect(),
        ColumnType::Field(ValueType::Boolean) => (0..n).map(|_| Val::B(g.gen())).collect(),
        _ => strings(g, n).into_iter().map(Val::S).collect(),
    };
    v.into_iter().map(|x| if nulls > 0.0 && g.chance(nulls) { Val::Null } else { x }).collect()
}
pub fn array(t: &ColumnType, v: &[Val]) -> ArrayRef {
    macro_rules! arr {
        ($a:ty, $p:pat => $e:expr) => {
            Arc::new(v.iter().map(|x| match x { $p => Some($e), _ => None }).collect::<$a>()) as ArrayRef
        };
    }
    match t {
        ColumnType::Time(TimeUnit::Second) => arr!(TimestampSecondArray, Val::T(x) => *x),
        ColumnType::Time(TimeUnit::Millisecond) => arr!(TimestampMillisecondArray, Val::T(x) => *x),
        ColumnType::Time(TimeUnit::Microsecond) => arr!(TimestampMicrosecondArray, Val::T(x) => *x),
        ColumnType::Time(_) => arr!(TimestampNanosecondArray, Val::T(x) => *x),
        ColumnType::Field(ValueType::Integer) => arr!(Int64Array, Val::I(x) => *x),
        ColumnType::Field(ValueType::Unsigned) => arr!(UInt64Array, Val::U(x) => *x),
        ColumnType::Field(ValueType::Float) => arr!(Float64Array, Val::F(x) => f64::from_bits(*x)),
        ColumnType::Field(ValueType::Boolean) => arr!(BooleanArray, Val::B(x) => *x),
        _ => arr!(StringArray, Val::S(x) => x.as_str()),
    }
}
fn back(a: &ArrayRef) -> Vec<Val> {
    (0..a.len()).map(|i| cell(a, i)).collect()
}
fn field(v: &Val) -> Option<FieldVal> {
    Some(match v {
        Val::I(x) => FieldVal::Integer(*x),
        Val::U(x) => FieldVal::Unsigned(*x),
        Val::F(x) => FieldVal::Float(f64::from_bits(*x)),
        Val::B(x) => FieldVal::Boolean(*x),
        Val::S(x) => FieldVal::Bytes(x.as_bytes().into()),
        _ => return None,
    })
}

pub fn v01(c: &mut Ctx) {
    let mut g = c.rng("v01");
    for _ in 0..c.n(6000, 30) {
        let t = match g.gen_range(0..6) {
            0 => ColumnType::Time(g.pick(&[TimeUnit::Nanosecond, TimeUnit::Microsecond, TimeUnit::Millisecond]).clone()),
            1 => ColumnType::Field(ValueType::Integer),
            2 => ColumnType::Field(ValueType::Unsigned),
            3 => ColumnType::Field(ValueType::Float),
            4 => ColumnType::Field(ValueType::Boolean),
            _ => ColumnType::Field(ValueType::String),
        };
        let enc = match &t {
            ColumnType::Time(_) => *g.pick(&TIME_ENC),
            ColumnType::Field(v) => *g.pick(encodings(*v)),
            _ => unreachable!(),
        };
        let n = *g.pick(&[0usize, 1, 2, 3, 7, 8, 9, 63, 64, 65, 120, 121, 240, 241, 500]);
        let v = values(&mut g, &t, n);
        let sig = format!("{t:?}/{enc:?}");
        let col = TableColumn::new(3, "x".into(), t.clone(), enc);
        let detail = |what: &str, w: &[Val], got: String| json!({"column": sig, "what": what, "n": w.len(), "values": w.iter().take(12).map(|x| x.show()).collect::<Vec<_>>(), "got": got.chars().take(600).collect::<String>()});
        // 1. a page made of an array (compaction), whole or a slice of a longer one
        let (a, w) = if g.chance(0.4) && n > 0 {
            let o = g.gen_range(0..n);
            let l = g.gen_range(0..=n - o);
            (array(&t, &v).slice(o, l), v[o..o + l].to_vec())
        } else {
            (array(&t, &v), v.clone())
        };
        let pages = [
            ("array page", mon::quiet(|| Page::arrow_array_to_page(a.clone(), col.clone()).map_err(|e| e.to_string())), &w),
            (
                "cache page",
                mon::quiet(|| {
                    let f: Vec<Option<FieldVal>> = v.iter().map(field).collect();
                    let mut m = MutableColumnRef::empty(col.clone()).map_err(|e| e.to_string())?;
                    for (x, f) in v.iter().zip(&f) {
                        match x {
                            Val::T(x) => m.push_ts(*x),
                            _ => m.push(f.as_ref()),
                        }
                        .map_err(|e| e.to_string())?;
                    }
                    Page::colref_to_page(m).map_err(|e| e.to_string())
                }),
                &v,
            ),
        ];
        for (what, p, w) in pages {
            let p = match p {
                Ok(Ok(p)) => p,
                e => {
                    c.violation(&format!("encode:{what}:{t:?}:{enc:?}"), detail(what, w, format!("{e:?}")));
                    continue;
                }
            };
            c.count("pages", 1);
            c.count("values", w.len() as u64);
            match mon::quiet(|| p.to_arrow_array().map(|a| (a.data_type().clone(), back(&a))).map_err(|e| e.to_string())) {
                Ok(Ok((dt, got))) => {
                    if got != **w || dt != *array(&t, &[]).data_type() {
                        c.violation(&format!("decode:{what}:{t:?}:{enc:?}"), detail(what, w, format!("{dt:?} {} {got:?}", got.len())));
                    }
                }
                e => c.violation(&format!("decode:{what}:{t:?}:{enc:?}"), detail(what, w, format!("{e:?}"))),
            }
            // 2. the checksum accepts the page and no page with a flipped data bit
            if p.crc_validation().is_err() {
                c.violation("crc:refused", detail(what, w, String::new()));
            }
            let data = p.data_buffer().len();
            if data > 0 {
                let mut b = p.bytes().to_vec();
                let at = b.len() - data + g.gen_range(0..data);
                b[at] ^= 1 << g.gen_range(0..8);
                if Page::new(b.into(), p.meta().clone()).crc_validation().is_ok() {
                    c.violation("crc:accepted", detail(what, w, format!("flipped byte {at}")));
                }
                c.count("flipped bits refused", 1);
            }
            // 3. the statistics bound the values: scans skip pages by them
            let m = serde_json::to_value(p.meta()).unwrap_or_default();
            stats(c, &sig, what, w, &m["statistics"]);
            if m["num_values"].as_u64() != Some(w.len() as u64) {
                c.violation("num-values", detail(what, w, m["num_values"].to_string()));
            }
        }
        c.case(Some(&format!("{sig}/{n}/{}", v.iter().filter(|x| **x == Val::Null).count() * 4 / n.max(1))));
    }
}

fn stats(c: &mut Ctx, sig: &str, what: &str, w: &[Val], s: &serde_json::Value) {
    let Some((k, s)) = s.as_object().and_then(|o| o.iter().next()) else { return };
    let (lo, hi) = (&s["min"], &s["max"]);
    if lo.is_null() || hi.is_null() {
        return;
    }
    for x in w {
        let ok = match (k.as_str(), x) {
            (_, Val::Null) => true,
            ("I64", Val::I(x) | Val::T(x)) => lo.as_i64().is_some_and(|l| l <= *x) && hi.as_i64().is_some_and(|h| h >= *x),
            ("U64", Val::U(x)) => lo.as_u64().is_some_and(|l| l <= *x) && hi.as_u64().is_some_and(|h| h >= *x),
            ("F64", Val::F(x)) => {
                let x = f64::from_bits(*x);
                !x.is_finite() || (lo.as_f64().is_some_and(|l| l <= x || !l.is_finite()) && hi.as_f64().is_some_and(|h| h >= x || !h.is_finite()))
            }
            ("Bool", Val::B(x)) => lo.as_bool().is_some_and(|l| l <= *x) && hi.as_bool().is_some_and(|h| h >= *x),
            ("Bytes", Val::S(x)) => {
                let b = |v: &serde_json::Value| v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect::<Vec<u8>>()).unwrap_or_default();
                b(lo).as_slice() <= x.as_bytes() && b(hi).as_slice() >= x.as_bytes()
            }
            _ => false,
        };
        if !ok {
            c.violation(&format!("statistics:{what}:{k}"), json!({"column": sig, "value": x.show(), "min": lo, "max": hi, "n": w.len()}));
            return;
        }
    }
    c.count("statistics checked", 1);
}
