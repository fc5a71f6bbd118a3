use std::collections::{BTreeMap, HashMap};

use flatbuffers::FlatBufferBuilder;
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};
use protos::models::{ColumnBuilder, ColumnType, FieldType, Points, PointsBuilder, TableBuilder, ValuesBuilder};
use protos::models_helper::*;

#[derive(Clone, Debug, PartialEq)]
enum Col {
    F(Vec<u64>),
    I(Vec<i64>),
    U(Vec<u64>),
    B(Vec<bool>),
    S(Vec<String>),
}

#[derive(Clone, Debug, PartialEq)]
struct Tab {
    name: String,
    rows: u64,
    cols: BTreeMap<String, (i32, i32, Col, Vec<u8>)>,
}

fn ones(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n.div_ceil(8)];
    for i in 0..n {
        v[i / 8] |= 1 << (i % 8);
    }
    v
}

/// read a batch through the accessors the engine uses
fn read(p: &Points) -> Result<(String, Vec<Tab>), String> {
    let e = |x: &dyn std::fmt::Display| x.to_string();
    let db = p.db_ext().map_err(|x| e(&x))?.to_string();
    let mut out = vec![];
    for t in p.tables_iter_ext().map_err(|x| e(&x))? {
        let mut tab = Tab { name: t.tab_ext().map_err(|x| e(&x))?.to_string(), rows: t.num_rows(), cols: BTreeMap::new() };
        for c in t.columns_iter_ext().map_err(|x| e(&x))? {
            let n = c.name_ext().map_err(|x| e(&x))?.to_string();
            let bits = c.nullbit_ext().map_err(|x| e(&x))?.bytes().to_vec();
            let lens = (
                c.float_values_len().map_err(|x| e(&x))?,
                c.int_values_len().map_err(|x| e(&x))?,
                c.uint_values_len().map_err(|x| e(&x))?,
                c.bool_values_len().map_err(|x| e(&x))?,
                c.string_values_len().map_err(|x| e(&x))?,
            );
            let f: Vec<u64> = c.float_values().map_err(|x| e(&x))?.iter().map(|x| x.to_bits()).collect();
            let i: Vec<i64> = c.int_values().map_err(|x| e(&x))?.iter().collect();
            let u: Vec<u64> = c.uint_values().map_err(|x| e(&x))?.iter().collect();
            let b: Vec<bool> = c.bool_values().map_err(|x| e(&x))?.iter().collect();
            let s: Vec<String> = c.string_values().map_err(|x| e(&x))?.iter().map(|x| x.to_string()).collect();
            if lens != (f.len(), i.len(), u.len(), b.len(), s.len()) {
                return Err(format!("{n}: lengths {lens:?} do not match the values"));
            }
            let full = [!f.is_empty(), !i.is_empty(), !u.is_empty(), !b.is_empty(), !s.is_empty()];
            if full.iter().filter(|x| **x).count() > 1 {
                return Err(format!("{n}: values of several types"));
            }
            let ft = c.field_type();
            let ct = c.column_type();
            let col = match ft {
                FieldType::Float => Col::F(f),
                FieldType::Integer => Col::I(i),
                FieldType::Unsigned => Col::U(u),
                FieldType::Boolean if full[1] => Col::I(i), // how the helper labels a constant batch's time column
                FieldType::Boolean => Col::B(b),
                FieldType::String => Col::S(s),
                x => return Err(format!("{n}: type {x:?}")),
            };
            if tab.cols.insert(n.clone(), (ct.0, ft.0, col, bits)).is_some() {
                return Err(format!("{n}: twice"));
            }
        }
        out.push(tab);
    }
    Ok((db, out))
}

fn name(r: &mut StdRng, i: usize) -> String {
    format!("{}.{}", r.edgy_string(5), i)
}

fn be(col: &Col, i: usize) -> Vec<u8> {
    match col {
        Col::F(v) => v[i].to_be_bytes().to_vec(),
        Col::I(v) => v[i].to_be_bytes().to_vec(),
        Col::U(v) => v[i].to_be_bytes().to_vec(),
        Col::B(v) => vec![v[i] as u8],
        Col::S(v) => v[i].clone().into_bytes(),
    }
}

fn col_of(r: &mut StdRng, n: usize) -> (Col, FieldType) {
    match r.gen_range(0..5) {
        0 => (Col::F((0..n).map(|_| r.edgy_f64().to_bits()).collect()), FieldType::Float),
        1 => (Col::I((0..n).map(|_| r.edgy_i64()).collect()), FieldType::Integer),
        2 => (Col::U((0..n).map(|_| r.edgy_u64()).collect()), FieldType::Unsigned),
        3 => (Col::B((0..n).map(|_| r.gen()).collect()), FieldType::Boolean),
        _ => (Col::S((0..n).map(|_| r.edgy_string(9)).collect()), FieldType::String),
    }
}

pub fn p01(c: &mut Ctx) {
    c.rule("a batch built from named columns verifies and reads back with the same database, table, column kinds, values and null bits; a part that is missing is reported as that part; a damaged buffer is refused or read without a fault");
    let mut r = c.rng("p01");
    for round in 0..c.n(500, 40) {
        let n = match r.gen_range(0..5) {
            // a few batches are large
            _ if round % 100 == 7 => r.gen_range(65_530..66_500),
            0 => 0,
            1 => 1,
            2 => *r.pick(&[7usize, 8, 9, 63, 64, 65]),
            _ => r.gen_range(0..40),
        };
        let db = r.edgy_string(8);
        let tb = r.edgy_string(8);
        let konst = r.chance(0.4);
        let mut want: BTreeMap<String, (i32, i32, Col, Vec<u8>)> = BTreeMap::new();
        let tags: Vec<(String, Vec<String>)> = (0..r.gen_range(0..4))
            .map(|i| {
                let nm = name(&mut r, i);
                let v = if konst { vec![r.edgy_string(6); n] } else { (0..n).map(|_| r.edgy_string(6)).collect() };
                (nm, v)
            })
            .collect();
        let fields: Vec<(String, Col, FieldType)> = (0..r.gen_range(0..5))
            .map(|i| {
                let nm = name(&mut r, 10 + i);
                if konst {
                    let (one, t) = col_of(&mut r, 1);
                    let all = match one {
                        Col::F(v) => Col::F(vec![v[0]; n.max(1)]),
                        Col::I(v) => Col::I(vec![v[0]; n.max(1)]),
                        Col::U(v) => Col::U(vec![v[0]; n.max(1)]),
                        Col::B(v) => Col::B(vec![v[0]; n.max(1)]),
                        Col::S(v) => Col::S(vec![v[0].clone(); n.max(1)]),
                    };
                    (nm, all, t)
                } else {
                    let (col, t) = col_of(&mut r, n);
                    (nm, col, t)
                }
            })
            .collect();
        for (k, v) in &tags {
            want.insert(k.clone(), (ColumnType::Tag.0, FieldType::String.0, Col::S(v.clone()), ones(n)));
        }
        for (k, v, t) in &fields {
            let mut v = v.clone();
            match &mut v {
                Col::F(x) => x.truncate(n),
                Col::I(x) => x.truncate(n),
                Col::U(x) => x.truncate(n),
                Col::B(x) => x.truncate(n),
                Col::S(x) => x.truncate(n),
            }
            want.insert(k.clone(), (ColumnType::Field.0, t.0, v, ones(n)));
        }
        let types: HashMap<&str, FieldType> = fields.iter().map(|(k, _, t)| (k.as_str(), *t)).collect();
        let mut fbb = FlatBufferBuilder::new();
        let times: Vec<i64> = (0..n).map(|_| r.edgy_i64()).collect();
        let bytes = {
            let one: Vec<(String, Vec<u8>)> = fields.iter().map(|(k, v, _)| (k.clone(), if konst { be(v, 0) } else { vec![] })).collect();
            let many: HashMap<String, Vec<Vec<u8>>> = fields.iter().map(|(k, v, _)| (k.clone(), if konst { vec![] } else { (0..n).map(|i| be(v, i)).collect() })).collect();
            let start = r.gen_range(-1000..1000i64);
            let p = if konst {
                want.insert("time".into(), (ColumnType::Field.0, FieldType::Boolean.0, Col::I(vec![start + n as i64; n]), ones(n)));
                if n == 0 {
                    // an empty column of the type its label says
                    want.insert("time".into(), (ColumnType::Field.0, FieldType::Boolean.0, Col::B(vec![]), ones(n)));
                }
                create_const_points(
                    &mut fbb,
                    &db,
                    &tb,
                    tags.iter().map(|(k, v)| (k.as_str(), v.first().map(|s| s.as_str()).unwrap_or(""))).collect(),
                    one.iter().map(|(k, v)| (k.as_str(), v.as_slice())).collect(),
                    types,
                    start,
                    n,
                )
            } else {
                want.insert("time".into(), (ColumnType::Time.0, FieldType::Integer.0, Col::I(times.clone()), ones(n)));
                create_points(
                    &mut fbb,
                    &db,
                    &tb,
                    tags.iter().map(|(k, v)| (k.as_str(), v.iter().map(|s| s.as_str()).collect())).collect(),
                    many.iter().map(|(k, v)| (k.as_str(), v.iter().map(|x| x.as_slice()).collect())).collect(),
                    types,
                    &times,
                    n,
                )
            };
            fbb.finish(p, None);
            fbb.finished_data().to_vec()
        };
        c.case(Some(&(n, want.len(), konst, round)));
        c.count(if konst { "constant batches" } else { "varied batches" }, 1);
        match flatbuffers::root::<Points>(&bytes) {
            Err(e) => c.violation("points:built batch does not verify", json!({"err": e.to_string()})),
            Ok(p) => {
                let got = read(&p);
                match got {
                    Ok((d, t)) if d == db && t.len() == 1 && t[0].name == tb && t[0].rows == n as u64 && t[0].cols == want => {
                        c.count("values", (want.len() * n) as u64);
                    }
                    x => c.violation("points:read back", json!({"db": db, "table": tb, "rows": n, "want": format!("{want:?}").chars().take(3000).collect::<String>(), "got": format!("{x:?}").chars().take(3000).collect::<String>()})),
                }
                match mon::quiet(|| format!("{p}")) {
                    Ok(s) if s.contains(&format!("Database: {db}")) && s.contains(&format!("Table: {tb}")) => {}
                    x => c.violation("points:display", json!({"got": x.err()})),
                }
            }
        }
        // damage
        for _ in 0..4 {
            let mut b = bytes.clone();
            match r.gen_range(0..3) {
                0 => b.truncate(r.gen_range(0..b.len())),
                1 => {
                    for _ in 0..r.gen_range(1..5) {
                        let i = r.gen_range(0..b.len());
                        b[i] = r.gen();
                    }
                }
                _ => {
                    let i = r.gen_range(0..b.len());
                    b[i] ^= 1 << r.gen_range(0..8);
                }
            }
            match flatbuffers::root::<Points>(&b) {
                Err(_) => c.count("damaged refused", 1),
                Ok(p) => {
                    c.count("damaged readable", 1);
                    if let Err(e) = mon::quiet(|| {
                        let _ = read(&p);
                        let _ = format!("{p}");
                    }) {
                        c.violation("points:panic on a verified buffer", json!({"panic": e}));
                    }
                }
            }
        }
    }
    // missing parts
    for mask in 0..64u32 {
        let has = |i: u32| mask >> i & 1 == 1;
        let mut fbb = FlatBufferBuilder::new();
        let db = fbb.create_string("d");
        let tn = fbb.create_string("t");
        let cn = fbb.create_string("c");
        let bits = fbb.create_vector(&[1u8]);
        let iv = fbb.create_vector(&[5i64]);
        let mut v = ValuesBuilder::new(&mut fbb);
        v.add_int_value(iv);
        let v = v.finish();
        let mut cb = ColumnBuilder::new(&mut fbb);
        cb.add_field_type(FieldType::Integer);
        cb.add_column_type(ColumnType::Field);
        if has(0) {
            cb.add_name(cn);
        }
        if has(1) {
            cb.add_col_values(v);
        }
        if has(2) {
            cb.add_nullbits(bits);
        }
        let col = cb.finish();
        let cols = fbb.create_vector(&[col]);
        let mut t = TableBuilder::new(&mut fbb);
        if has(3) {
            t.add_tab(tn);
        }
        if has(4) {
            t.add_columns(cols);
        }
        let t = t.finish();
        let ts = fbb.create_vector(&[t]);
        let mut p = PointsBuilder::new(&mut fbb);
        if has(5) {
            p.add_db(db);
        }
        p.add_tables(ts);
        let p = p.finish();
        fbb.finish(p, None);
        let b = fbb.finished_data().to_vec();
        let p = match flatbuffers::root::<Points>(&b) {
            Ok(p) => p,
            Err(e) => {
                c.violation("points:partial batch does not verify", json!({"mask": mask, "err": e.to_string()}));
                continue;
            }
        };
        c.case(Some(&("missing", mask)));
        c.count("missing part combinations", 1);
        let t = p.tables_iter_ext().ok().and_then(|mut i| i.next());
        let bad = match &t {
            None => Some("tables"),
            Some(t) => {
                let col = t.columns_iter_ext().ok().and_then(|mut i| i.next());
                if p.db_ext().ok() != has(5).then_some("d") {
                    Some("db")
                } else if t.tab_ext().ok() != has(3).then_some("t") {
                    Some("table name")
                } else if col.is_some() != has(4) {
                    Some("columns")
                } else if let Some(col) = col {
                    let vals = [
                        col.int_values_len().is_ok(),
                        col.float_values_len().is_ok(),
                        col.uint_values_len().is_ok(),
                        col.bool_values_len().is_ok(),
                        col.string_values_len().is_ok(),
                        col.int_values().is_ok(),
                        col.float_values().is_ok(),
                        col.uint_values().is_ok(),
                        col.bool_values().is_ok(),
                        col.string_values().is_ok(),
                    ];
                    if col.name_ext().ok() != has(0).then_some("c") {
                        Some("column name")
                    } else if vals != [has(1); 10] {
                        Some("values")
                    } else if col.nullbit_ext().is_ok() != has(2) {
                        Some("null bits")
                    } else if has(1) && col.int_values().map(|v| v.iter().collect::<Vec<_>>()).ok() != Some(vec![5]) {
                        Some("int values")
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
        };
        if let Some(b) = bad {
            c.violation("points:missing part", json!({"mask": mask, "part": b}));
        }
        // the error names the part
        let errs: Vec<(bool, Option<String>, &str)> = vec![
            (has(5), p.db_ext().err().map(|e| e.to_string()), "(db)"),
            (has(3), t.as_ref().and_then(|t| t.tab_ext().err().map(|e| e.to_string())), "(tab)"),
        ];
        for (present, e, part) in errs {
            if !present && !e.as_deref().unwrap_or("").contains(part) {
                c.violation("points:error names another part", json!({"part": part, "err": e}));
            }
        }
        if mon::quiet(|| format!("{p}")).is_err() {
            c.violation("points:display of a partial batch panics", json!({"mask": mask}));
        }
    }
    for (k, n) in [("constant batches", 100), ("varied batches", 100), ("values", 5000), ("damaged refused", 200), ("damaged readable", 200)] {
        c.need(k, n);
    }
}
