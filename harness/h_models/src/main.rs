//! Monitors of the data models: time ranges, predicates, privileges, and the memory pool.
use std::collections::{BTreeSet, HashMap, HashSet};
use std::ops::{Bound, RangeBounds};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;

use arrow_schema::{DataType, TimeUnit};
use datafusion::logical_expr::{binary_expr, BinaryExpr, Operator};
use datafusion::prelude::{col, Expr};
use datafusion::scalar::ScalarValue;
use memory_pool::{GreedyMemoryPool, MemoryConsumer, MemoryPool, MemoryReservation};
use models::predicate::domain::{ColumnDomains, Domain, Predicate, ResolvedPredicate, TimeRange, TimeRanges};
use models::predicate::transformation::DeleteSelectionExpressionToDomainsVisitor;
use models::predicate::utils::filter_to_time_ranges;
use models::schema::tskv_table_schema::{ColumnType, TableColumn, TskvTableSchema};
use models::ValueType;
use mon::rand::rngs::StdRng;
use mon::rand::Rng;
use mon::{json, quiet, Ctx, GenExt};

mod auth;

// ---------------------------------------------------------------- Q01 time ranges

fn ts(g: &mut StdRng) -> i64 {
    match g.gen_range(0..10) {
        0 => i64::MIN,
        1 => i64::MIN + g.gen_range(1..4),
        2 => i64::MAX,
        3 => i64::MAX - g.gen_range(1..4),
        _ => g.gen_range(-12..12),
    }
}

fn tr(g: &mut StdRng) -> TimeRange {
    let (a, b) = (ts(g), ts(g));
    if a <= b || g.chance(0.1) {
        TimeRange::new(a, b)
    } else {
        TimeRange::new(b, a)
    }
}

fn has(r: &TimeRange, t: i64) -> bool {
    r.min_ts <= t && t <= r.max_ts
}

fn in_any(rs: &[TimeRange], t: i64) -> bool {
    rs.iter().any(|r| has(r, t))
}

/// every instant at which membership in any of the ranges can change, and its neighbours
fn instants(rs: &[TimeRange]) -> Vec<i64> {
    let mut s = BTreeSet::from([i64::MIN, i64::MAX, 0]);
    for r in rs {
        for e in [r.min_ts, r.max_ts] {
            s.extend([e.saturating_sub(1), e, e.saturating_add(1)]);
        }
    }
    s.into_iter().collect()
}

fn q01(cx: &mut Ctx) {
    cx.rule("time ranges behave as the sets of their instants; oracle: membership tested at every endpoint and its neighbours");
    let mut g = cx.rng("q01");
    for _ in 0..cx.n(6000, 12) {
        let rs: Vec<TimeRange> = (0..g.gen_range(0..6)).map(|_| tr(&mut g)).collect();
        let (q, p) = (tr(&mut g), tr(&mut g));
        let txt = json!({"ranges": format!("{rs:?}"), "q": format!("{q:?}"), "p": format!("{p:?}")});
        let mut all = rs.clone();
        all.extend([q, p]);
        let at = instants(&all);
        cx.case(Some(&txt.to_string()));
        let r = quiet(|| {
            let mut bad: Vec<String> = vec![];
            let mut t = TimeRanges::new(rs.clone());
            if g.chance(0.5) {
                t = TimeRanges::empty();
                for r in &rs {
                    t.push(*r);
                }
            } else if g.chance(0.3) {
                t = TimeRanges::empty();
                let k = g.gen_range(0..rs.len() + 1);
                t.extend_from_slice(&rs[..k]);
                t.extend_from_slice(&rs[k..]);
            }
            let is = |what: &str, x: Option<&TimeRanges>, f: &dyn Fn(i64) -> bool, bad: &mut Vec<String>| {
                for &i in &at {
                    let got = x.is_some_and(|x| x.contains(i));
                    let listed = x.is_some_and(|x| x.time_ranges().any(|r| has(&r, i)));
                    if got != f(i) || listed != f(i) {
                        bad.push(format!("{what}: {i} is {}in the set but contains={got} listed={listed}", if f(i) { "" } else { "not " }));
                        return;
                    }
                }
                if let Some(x) = x {
                    let l: Vec<TimeRange> = x.time_ranges().collect();
                    if l.windows(2).any(|w| w[0].max_ts >= w[1].min_ts) || l.iter().any(|r| r.is_none()) {
                        bad.push(format!("{what}: {l:?} overlap or are empty"));
                    }
                }
            };
            let m = |i: i64| in_any(&rs, i);
            is("union", Some(&t), &m, &mut bad);
            if t.is_boundless() != t.time_ranges().any(|r| r.min_ts == i64::MIN && r.max_ts == i64::MAX) || t.is_empty() != !at.iter().any(|&i| m(i)) {
                bad.push(format!("is_boundless {} is_empty {} of {t:?}", t.is_boundless(), t.is_empty()));
            }
            if !t.is_empty() {
                let (lo, hi) = (*at.iter().find(|&&i| m(i)).unwrap(), *at.iter().rev().find(|&&i| m(i)).unwrap());
                if (t.min_ts(), t.max_ts()) != (lo, hi) || t.max_time_range() != TimeRange::new(lo, hi) {
                    bad.push(format!("hull {:?} of a set from {lo} to {hi}", t.max_time_range()));
                }
            }
            if !q.is_none() {
                let over = at.iter().any(|&i| m(i) && has(&q, i));
                if t.overlaps(&q) != over {
                    bad.push(format!("overlaps is {} instead of {over}", !over));
                }
                let incl = t.time_ranges().any(|r| r.min_ts <= q.min_ts && q.max_ts <= r.max_ts);
                if t.includes(&q) != incl {
                    bad.push(format!("includes is {} instead of {incl}", !incl));
                }
                is("intersection", t.intersect(&q).as_ref(), &|i| m(i) && has(&q, i), &mut bad);
                is("difference", Some(&t.exclude(&q)), &|i| m(i) && !has(&q, i), &mut bad);
                is("range minus ranges", q.exclude_time_ranges(&t).as_ref(), &|i| has(&q, i) && !m(i), &mut bad);
                if !p.is_none() {
                    is("difference of two", Some(&t.exclude_time_ranges(&[&q, &p])), &|i| m(i) && !has(&q, i) && !has(&p, i), &mut bad);
                    let (l, r) = q.exclude(&p);
                    for &i in &at {
                        if [l, r].iter().flatten().any(|x| has(x, i)) != (has(&q, i) && !has(&p, i)) {
                            bad.push(format!("{q:?} minus {p:?} is {l:?} {r:?}"));
                            break;
                        }
                        if q.intersect(&p).is_some_and(|x| has(&x, i)) != (has(&q, i) && has(&p, i)) {
                            bad.push(format!("{q:?} and {p:?} intersect in {:?}", q.intersect(&p)));
                            break;
                        }
                    }
                    let over = at.iter().any(|&i| has(&q, i) && has(&p, i));
                    let incl = at.iter().all(|&i| !has(&p, i) || has(&q, i));
                    if q.overlaps(&p) != over || q.includes(&p) != incl {
                        bad.push(format!("{q:?} {p:?}: overlaps {} includes {}", q.overlaps(&p), q.includes(&p)));
                    }
                    let mut u = q;
                    u.merge(&p);
                    if u != TimeRange::new(q.min_ts.min(p.min_ts), q.max_ts.max(p.max_ts)) {
                        bad.push(format!("{q:?} merged with {p:?} is {u:?}"));
                    }
                }
            }
            // bounds
            let bd = |g: &mut StdRng, v: i64| match g.gen_range(0..3) {
                0 => Bound::Included(v),
                1 => Bound::Excluded(v),
                _ => Bound::Unbounded,
            };
            let b = (bd(&mut g, q.min_ts), bd(&mut g, q.max_ts));
            let r: TimeRange = b.into();
            for &i in &at {
                if has(&r, i) != b.contains(&i) {
                    bad.push(format!("bounds {b:?} became {r:?}, which is wrong about {i}"));
                    break;
                }
            }
            // a stored copy is the same set
            let copy: TimeRanges = bincode::deserialize(&bincode::serialize(&t).unwrap()).unwrap();
            is("decoded copy", Some(&copy), &m, &mut bad);
            bad
        });
        match r {
            Ok(bad) if bad.is_empty() => cx.count("set operations compared", 12),
            Ok(bad) => cx.violation("time-ranges", json!({"case": txt, "bad": bad})),
            Err(e) => cx.violation("time-ranges-panic", json!({"case": txt, "panic": e})),
        }
        cx.sample("sets", || txt.clone());
    }
    cx.need("set operations compared", 10000);
}

// ---------------------------------------------------------------- Q02 predicates

const TAGS: [&str; 2] = ["t0", "t1"];
const WORDS: [&str; 5] = ["", "a", "ab", "b", "é"];

#[derive(Clone, Debug)]
struct Row {
    time: i64,
    tags: [Option<String>; 2],
    f: Option<i64>,
    b: Option<bool>,
}

/// SQL value
#[derive(Clone, Debug, PartialEq)]
enum V {
    N,
    I(i64),
    T(i64),
    S(String),
    B(bool),
}

fn eval(e: &Expr, r: &Row) -> V {
    match e {
        Expr::Column(c) => match c.name.as_str() {
            "time" => V::T(r.time),
            "t0" => r.tags[0].clone().map_or(V::N, V::S),
            "t1" => r.tags[1].clone().map_or(V::N, V::S),
            "f" => r.f.map_or(V::N, V::I),
            "b" => r.b.map_or(V::N, V::B),
            x => panic!("harness: column {x}"),
        },
        Expr::Literal(v) => match v {
            ScalarValue::Int64(v) => v.map_or(V::N, V::I),
            ScalarValue::TimestampNanosecond(v, _) => v.map_or(V::N, V::T),
            ScalarValue::Utf8(v) => v.clone().map_or(V::N, V::S),
            ScalarValue::Boolean(v) => v.map_or(V::N, V::B),
            ScalarValue::Null => V::N,
            x => panic!("harness: literal {x:?}"),
        },
        Expr::Cast(c) => match (eval(&c.expr, r), &c.data_type) {
            (V::T(t), DataType::Int64) => V::I(t),
            (V::S(s), DataType::Int64) => s.parse().map_or(V::N, V::I),
            (v, _) => v,
        },
        Expr::Not(e) => match eval(e, r) {
            V::B(b) => V::B(!b),
            _ => V::N,
        },
        Expr::IsNull(e) => V::B(eval(e, r) == V::N),
        Expr::IsNotNull(e) => V::B(eval(e, r) != V::N),
        Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
            let (a, b) = (eval(left, r), eval(right, r));
            match op {
                Operator::And => match (a, b) {
                    (V::B(false), _) | (_, V::B(false)) => V::B(false),
                    (V::B(true), V::B(true)) => V::B(true),
                    _ => V::N,
                },
                Operator::Or => match (a, b) {
                    (V::B(true), _) | (_, V::B(true)) => V::B(true),
                    (V::B(false), V::B(false)) => V::B(false),
                    _ => V::N,
                },
                _ => {
                    let o = match (&a, &b) {
                        (V::I(x), V::I(y)) => x.cmp(y),
                        (V::T(x), V::T(y)) => x.cmp(y),
                        (V::S(x), V::S(y)) => x.as_bytes().cmp(y.as_bytes()),
                        (V::B(x), V::B(y)) => x.cmp(y),
                        _ => return V::N,
                    };
                    V::B(match op {
                        Operator::Eq => o.is_eq(),
                        Operator::NotEq => o.is_ne(),
                        Operator::Lt => o.is_lt(),
                        Operator::LtEq => o.is_le(),
                        Operator::Gt => o.is_gt(),
                        Operator::GtEq => o.is_ge(),
                        x => panic!("harness: {x:?}"),
                    })
                }
            }
        }
        x => panic!("harness: {x:?}"),
    }
}

const CMP: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq];

fn comparison(g: &mut StdRng, del: bool) -> Expr {
    let null = g.chance(0.04);
    let cast = g.chance(0.06);
    let k = if del { g.gen_range(0..3) } else { g.gen_range(0..6) };
    let (c, l): (Expr, ScalarValue) = match k {
        0 => (col("time"), ScalarValue::TimestampNanosecond((!null).then(|| ts(g)), None)),
        1 | 2 => (col(TAGS[k - 1]), ScalarValue::Utf8((!null).then(|| g.pick(&WORDS).to_string()))),
        3 => (col("f"), ScalarValue::Int64((!null).then(|| g.gen_range(-2..3)))),
        4 => (col("b"), ScalarValue::Boolean((!null).then(|| g.gen()))),
        _ => (col("time"), ScalarValue::TimestampNanosecond(Some(g.gen_range(-3..3)), None)),
    };
    let (c, l) = match (cast, k) {
        (true, 0 | 5) if !del => (c.cast(DataType::Int64), ScalarValue::Int64(Some(g.gen_range(-5..5)))),
        (true, 1 | 2) if !del => (c.cast(DataType::Int64), ScalarValue::Int64(Some(g.gen_range(-2..3)))),
        (true, 0) => (c.cast(DataType::Timestamp(TimeUnit::Nanosecond, None)), l),
        (true, 1 | 2) => (c.cast(DataType::Utf8), l),
        _ => (c, l),
    };
    let op = *g.pick(&CMP);
    if g.chance(0.3) {
        binary_expr(Expr::Literal(l), op, c)
    } else {
        binary_expr(c, op, Expr::Literal(l))
    }
}

fn expr(g: &mut StdRng, depth: usize) -> Expr {
    if depth == 0 || g.chance(0.25) {
        return match g.gen_range(0..14) {
            0 => Expr::Not(Box::new(comparison(g, false))),
            1 => Expr::IsNull(Box::new(col(TAGS[g.gen_range(0..2)]))),
            2 => Expr::IsNotNull(Box::new(col("f"))),
            3 => col("b"),
            4 => binary_expr(comparison(g, false), *g.pick(&[Operator::Eq, Operator::NotEq]), comparison(g, false)),
            5 => binary_expr(col("t0"), *g.pick(&CMP), col("t1")),
            _ => comparison(g, false),
        };
    }
    let op = if g.chance(0.5) { Operator::And } else { Operator::Or };
    binary_expr(expr(g, depth - 1), op, expr(g, depth - 1))
}

fn conj(g: &mut StdRng, n: usize) -> Expr {
    if n <= 1 {
        return comparison(g, true);
    }
    let k = g.gen_range(1..n);
    binary_expr(conj(g, k), Operator::And, conj(g, n - k))
}

/// membership of a tag value in a domain, read off the domain's own listing
fn admits(d: &Domain, v: &str) -> bool {
    let sv = ScalarValue::Utf8(Some(v.to_string()));
    match d {
        Domain::All => true,
        Domain::None => false,
        Domain::Equtable(s) => s.entries().into_iter().any(|e| e.value() == &sv) == s.is_white_list(),
        Domain::Range(rs) => rs.low_indexed_ranges().into_iter().any(|(_, r)| {
            let s = |x: &ScalarValue| match x {
                ScalarValue::Utf8(Some(s)) => s.clone(),
                x => panic!("tag compared with {x:?}"),
            };
            let lo = match r.start_bound() {
                Bound::Unbounded => true,
                Bound::Included(x) => v.as_bytes() >= s(x).as_bytes(),
                Bound::Excluded(x) => v.as_bytes() > s(x).as_bytes(),
            };
            let hi = match r.end_bound() {
                Bound::Unbounded => true,
                Bound::Included(x) => v.as_bytes() <= s(x).as_bytes(),
                Bound::Excluded(x) => v.as_bytes() < s(x).as_bytes(),
            };
            lo && hi
        }),
    }
}

/// a missing tag is in no range, so it satisfies no pushed-down comparison
fn tags_admit(d: &ColumnDomains<String>, r: &Row) -> bool {
    let Some(m) = d.domains() else { return false };
    m.iter().all(|(c, d)| {
        let i = TAGS.iter().position(|t| t == c).expect("tag column");
        match &r.tags[i] {
            Some(v) => admits(d, v),
            None => matches!(d, Domain::All),
        }
    })
}

fn rows(g: &mut StdRng, near: &[i64]) -> Vec<Row> {
    (0..24)
        .map(|_| Row {
            time: if !near.is_empty() && g.chance(0.6) {
                let t = *g.pick(near);
                *g.pick(&[t, t.saturating_add(1), t.saturating_sub(1)])
            } else {
                ts(g)
            },
            tags: [0, 1].map(|_| (!g.chance(0.15)).then(|| g.pick(&WORDS).to_string())),
            f: (!g.chance(0.2)).then(|| g.gen_range(-3..4)),
            b: (!g.chance(0.2)).then(|| g.gen()),
        })
        .collect()
}

fn times_in(e: &Expr, out: &mut Vec<i64>) {
    match e {
        Expr::Literal(ScalarValue::TimestampNanosecond(Some(t), _)) => out.push(*t),
        Expr::BinaryExpr(b) => {
            times_in(&b.left, out);
            times_in(&b.right, out);
        }
        Expr::Not(e) => times_in(e, out),
        _ => {}
    }
}

fn q02(cx: &mut Ctx) {
    cx.rule("the pushed-down domains of a filter admit every row it matches; those of a DELETE admit exactly the rows it matches, or it is refused");
    let mut g = cx.rng("q02");
    let table = Arc::new(TskvTableSchema::new(
        "cnosdb".into(),
        "public".into(),
        "tb".into(),
        vec![
            TableColumn::new_time_column(0, TimeUnit::Nanosecond),
            TableColumn::new_tag_column(1, "t0".into()),
            TableColumn::new_tag_column(2, "t1".into()),
            TableColumn::new_with_default("f".into(), ColumnType::Field(ValueType::Integer)),
            TableColumn::new_with_default("b".into(), ColumnType::Field(ValueType::Boolean)),
        ],
    ));
    let (dfs, arrow) = (table.to_df_schema().unwrap(), table.to_arrow_schema());
    for _ in 0..cx.n(5000, 12) {
        let depth = g.gen_range(0..4);
        let e = expr(&mut g, depth);
        let mut near = vec![];
        times_in(&e, &mut near);
        let rows = rows(&mut g, &near);
        let txt = format!("{e}");
        cx.case(Some(&txt));
        let r = quiet(|| {
            let p = Predicate::push_down_filter(Some(e.clone()), &dfs, &arrow, None).map_err(|e| e.to_string())?;
            let p = p.resolve(&table).map_err(|e| e.to_string())?;
            let copy: ResolvedPredicate = bincode::deserialize(&bincode::serialize(p.as_ref()).unwrap()).map_err(|e| e.to_string())?;
            Ok::<_, String>((p, copy))
        });
        let (p, copy) = match r {
            Ok(Ok(x)) => x,
            Ok(Err(x)) | Err(x) => {
                cx.violation("filter-refused", json!({"filter": txt, "error": x}));
                continue;
            }
        };
        for r in &rows {
            let matched = eval(&e, r) == V::B(true);
            for (which, p) in [("as built", p.as_ref()), ("as shipped", &copy)] {
                let kept = p.time_ranges().contains(r.time) && tags_admit(p.tags_filter(), r);
                if matched {
                    cx.count("matching rows kept", kept as u64);
                }
                if !kept {
                    cx.count("rows pruned", 1);
                }
                if matched && !kept {
                    cx.violation("pushdown-loses-rows", json!({"filter": txt, "row": format!("{r:?}"), "time ranges": format!("{:?}", p.time_ranges()), "tags": format!("{:?}", p.tags_filter()), "which": which}));
                    break;
                }
            }
        }
        cx.sample("filters", || json!(txt));
    }
    for _ in 0..cx.n(5000, 12) {
        let n = g.gen_range(1..6);
        let e = if g.chance(0.05) { expr(&mut g, 2) } else { conj(&mut g, n) };
        let mut near = vec![];
        times_in(&e, &mut near);
        let rows = rows(&mut g, &near);
        let txt = format!("{e}");
        cx.case(Some(&txt));
        let r = quiet(|| {
            DeleteSelectionExpressionToDomainsVisitor::expr_to_tag_and_time_domains(&e).map(|(tag, time)| {
                let p = ResolvedPredicate::new(Arc::new(TimeRanges::new(filter_to_time_ranges(&time))), tag, None).unwrap();
                bincode::deserialize::<ResolvedPredicate>(&bincode::serialize(&p).unwrap()).unwrap()
            })
        });
        let p = match r {
            Ok(Ok(p)) => p,
            Ok(Err(_)) => {
                cx.count("deletes refused", 1);
                continue;
            }
            Err(x) => {
                cx.violation("delete-panic", json!({"filter": txt, "panic": x}));
                continue;
            }
        };
        // a delete names tags and time only; a comparison with a field or a NULL has to be refused
        let fields = p.tags_filter().domains().is_some_and(|m| m.keys().any(|k| !TAGS.contains(&k.as_str())));
        if fields {
            // refused by the planner, which knows the columns
            cx.count("deletes on fields", 1);
            continue;
        }
        for r in &rows {
            let matched = eval(&e, r) == V::B(true);
            let hit = p.time_ranges().contains(r.time) && tags_admit(p.tags_filter(), r);
            cx.count(if matched { "rows deleted" } else { "rows spared" }, 1);
            if matched != hit {
                cx.violation(if hit { "delete-too-much" } else { "delete-too-little" }, json!({"filter": txt, "row": format!("{r:?}"), "time ranges": format!("{:?}", p.time_ranges()), "tags": format!("{:?}", p.tags_filter())}));
                break;
            }
        }
    }
    cx.need("matching rows kept", 5000);
    cx.need("rows pruned", 5000);
    cx.need("rows deleted", 2000);
    cx.need("rows spared", 10000);
    cx.need("deletes refused", 50);
}

// ---------------------------------------------------------------- B01 memory pool

fn b01(cx: &mut Ctx) {
    cx.rule("a shared pool never grants tried growth beyond its size, and accounts for exactly the live reservations");
    let mut g = cx.rng("b01");
    // histories on one thread, against exact sums
    for _ in 0..cx.n(1500, 20) {
        let size = match g.gen_range(0..4) {
            0 => 0,
            1 => usize::MAX,
            _ => g.gen_range(1..500usize),
        };
        let pool: Arc<dyn MemoryPool> = Arc::new(GreedyMemoryPool::new(size));
        let mut rs: Vec<(MemoryReservation, usize)> = vec![];
        let mut log = vec![];
        let r = quiet(|| {
            for _ in 0..g.gen_range(1..60) {
                let sum: usize = rs.iter().map(|r| r.1).sum();
                match g.gen_range(0..7) {
                    0 => {
                        rs.push((MemoryConsumer::new("m").register(&pool), 0));
                        log.push("register".to_string());
                    }
                    1 | 2 | 3 if !rs.is_empty() => {
                        let i = g.gen_range(0..rs.len());
                        let n = if g.chance(0.1) { usize::MAX - g.gen_range(0..3usize) } else { g.gen_range(0..200usize) };
                        log.push(format!("try {i} {n}"));
                        let ok = rs[i].0.try_grow(n).is_ok();
                        let want = sum.checked_add(n).is_some_and(|x| x <= size);
                        if ok != want {
                            return Some(format!("try_grow({n}) with {sum} of {size} used: granted {ok}"));
                        }
                        if ok {
                            rs[i].1 += n;
                        }
                    }
                    4 if !rs.is_empty() && sum < 1 << 40 => {
                        let i = g.gen_range(0..rs.len());
                        let n = g.gen_range(0..200usize);
                        log.push(format!("grow {i} {n}"));
                        rs[i].0.grow(n);
                        rs[i].1 += n;
                    }
                    5 if !rs.is_empty() => {
                        let i = g.gen_range(0..rs.len());
                        let n = g.gen_range(0..rs[i].1.min(1 << 40) + 1);
                        log.push(format!("shrink {i} {n}"));
                        rs[i].0.shrink(n);
                        rs[i].1 -= n;
                    }
                    6 if !rs.is_empty() => {
                        let i = g.gen_range(0..rs.len());
                        log.push(format!("drop {i}"));
                        rs.swap_remove(i);
                    }
                    _ => {}
                }
                let sum: usize = rs.iter().map(|r| r.1).sum();
                if pool.reserved() != sum {
                    return Some(format!("{} reserved, {sum} held", pool.reserved()));
                }
            }
            rs.clear();
            (pool.reserved() != 0).then(|| format!("{} left after all were dropped", pool.reserved()))
        });
        cx.case(Some(&log));
        cx.count("pool steps", log.len() as u64);
        match r {
            Ok(None) => {}
            Ok(Some(x)) | Err(x) => cx.violation("pool", json!({"size": size, "log": log, "bad": x})),
        }
    }
    // racing consumers: the sum of what was granted never exceeds the size, at any instant
    for round in 0..cx.n(12, 12) {
        let size = g.gen_range(50..2000usize);
        let pool: Arc<dyn MemoryPool> = Arc::new(GreedyMemoryPool::new(size));
        let held = AtomicUsize::new(0);
        let (stop, over, refused, granted) = (AtomicBool::new(false), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
        let max_seen = AtomicUsize::new(0);
        let seeds: Vec<u64> = (0..4).map(|_| g.gen()).collect();
        std::thread::scope(|s| {
            let w: Vec<_> = seeds
                .iter()
                .map(|seed| {
                    let (pool, held, over, refused, granted) = (pool.clone(), &held, &over, &refused, &granted);
                    s.spawn(move || {
                        let mut g = <StdRng as mon::rand::SeedableRng>::seed_from_u64(*seed);
                        let mut mine: Vec<MemoryReservation> = (0..3).map(|_| MemoryConsumer::new("m").register(&pool)).collect();
                        for _ in 0..3000 {
                            let i = g.gen_range(0..3);
                            if g.chance(0.6) {
                                let n = g.gen_range(0..size / 2);
                                if mine[i].try_grow(n).is_ok() {
                                    granted.fetch_add(1, Ordering::Relaxed);
                                    // counted after the grant and uncounted before the release: never more than is granted
                                    if held.fetch_add(n, Ordering::SeqCst) + n > size {
                                        over.fetch_add(1, Ordering::Relaxed);
                                    }
                                } else {
                                    refused.fetch_add(1, Ordering::Relaxed);
                                }
                            } else {
                                let n = g.gen_range(0..mine[i].size() + 1);
                                held.fetch_sub(n, Ordering::SeqCst);
                                mine[i].shrink(n);
                            }
                            if g.chance(0.02) {
                                held.fetch_sub(mine[i].size(), Ordering::SeqCst);
                                mine[i].free();
                            }
                        }
                        for r in &mine {
                            held.fetch_sub(r.size(), Ordering::SeqCst);
                        }
                    })
                })
                .collect();
            s.spawn(|| {
                while !stop.load(Ordering::Relaxed) {
                    max_seen.fetch_max(pool.reserved(), Ordering::Relaxed);
                }
            });
            for w in w {
                w.join().unwrap();
            }
            stop.store(true, Ordering::Relaxed);
        });
        cx.case(Some(&("race", round, size)));
        cx.count("racing grants", granted.load(Ordering::Relaxed) as u64);
        cx.count("racing refusals", refused.load(Ordering::Relaxed) as u64);
        if over.load(Ordering::Relaxed) > 0 || max_seen.load(Ordering::Relaxed) > size || pool.reserved() != 0 {
            cx.violation("pool-race", json!({"size": size, "over": over.load(Ordering::Relaxed), "most reserved": max_seen.load(Ordering::Relaxed), "left": pool.reserved()}));
        }
    }
    cx.need("pool steps", 10000);
    cx.need("racing grants", 5000);
    cx.need("racing refusals", 5000);
}

fn main() {
    let _ = (HashMap::<u8, u8>::new(), HashSet::<u8>::new());
    mon::main(&[("Q01", q01), ("Q02", q02), ("B01", b01), ("E03", auth::e03)]);
}
