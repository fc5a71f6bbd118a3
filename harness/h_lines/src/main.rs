//! Monitors of the write protocols: text and protobuf in, points out.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use mon::rand::rngs::StdRng;
use mon::rand::seq::SliceRandom;
use mon::rand::Rng;
use mon::{json, quiet, Ctx, GenExt};
use protocol_parser::json_protocol::parser as jp;
use protocol_parser::line_protocol::line_protocol_to_lines;
use protocol_parser::lines_convert::{line_to_batches, mutable_batches_to_point};
use protocol_parser::open_tsdb::{open_tsdb_to_lines, parser::Parser as TsdbParser};
use protocol_parser::{DataPoint, Line};
use protos::FieldValue;

/// what the harness meant to write
#[derive(Clone, Debug)]
struct Row {
    table: String,
    tags: BTreeMap<String, String>,
    fields: BTreeMap<String, FieldValue>,
    ts: Option<i64>,
}

fn fv_eq(a: &FieldValue, b: &FieldValue) -> bool {
    match (a, b) {
        (FieldValue::F64(x), FieldValue::F64(y)) => x.to_bits() == y.to_bits() || x == y,
        _ => a == b,
    }
}

fn diff(row: &Row, line: &Line, default: i64) -> Option<String> {
    if line.table != row.table {
        return Some(format!("table {:?} became {:?}", row.table, line.table));
    }
    let tags: Vec<(String, String)> = line.tags.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let want: Vec<(String, String)> = row.tags.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let mut sorted = tags.clone();
    sorted.sort();
    if sorted != want {
        return Some(format!("tags {want:?} became {tags:?}"));
    }
    let mut fields: Vec<(&str, &FieldValue)> = line.fields.iter().map(|(k, v)| (k.as_ref(), v)).collect();
    fields.sort_by_key(|x| x.0.to_string());
    if fields.len() != row.fields.len() || !fields.iter().zip(&row.fields).all(|(a, b)| a.0 == b.0 && fv_eq(a.1, b.1)) {
        return Some(format!("fields {:?} became {fields:?}", row.fields));
    }
    if line.timestamp != row.ts.unwrap_or(default) {
        return Some(format!("timestamp {:?} became {}", row.ts, line.timestamp));
    }
    None
}

/// the FlatBuffer the write path ships, decoded row by row by an independent reader
fn decode_points(buf: &[u8]) -> Result<(String, BTreeMap<String, Vec<Row>>), String> {
    use protos::models::{ColumnType, FieldType, Points};
    let p = flatbuffers::root::<Points>(buf).map_err(|e| format!("invalid flatbuffer: {e}"))?;
    let mut out = BTreeMap::new();
    for t in p.tables().ok_or("no tables")? {
        let name = t.tab().ok_or("no table name")?.to_string();
        let n = t.num_rows() as usize;
        let mut rows = vec![Row { table: name.clone(), tags: BTreeMap::new(), fields: BTreeMap::new(), ts: None }; n];
        for c in t.columns().ok_or("no columns")? {
            let cn = c.name().ok_or("no column name")?.to_string();
            let bits: Vec<u8> = c.nullbits().ok_or("no nullbits")?.iter().collect();
            if bits.len() * 8 < n {
                return Err(format!("column {cn}: {} null bytes for {n} rows", bits.len()));
            }
            let v = c.col_values().ok_or("no values")?;
            for i in 0..n {
                if bits[i / 8] >> (i % 8) & 1 == 0 {
                    continue;
                }
                let val = match c.field_type() {
                    FieldType::Float => v.float_value().filter(|x| i < x.len()).map(|x| FieldValue::F64(x.get(i))),
                    FieldType::Integer => v.int_value().filter(|x| i < x.len()).map(|x| FieldValue::I64(x.get(i))),
                    FieldType::Unsigned => v.uint_value().filter(|x| i < x.len()).map(|x| FieldValue::U64(x.get(i))),
                    FieldType::Boolean => v.bool_value().filter(|x| i < x.len()).map(|x| FieldValue::Bool(x.get(i))),
                    FieldType::String => v.string_value().filter(|x| i < x.len()).map(|x| FieldValue::Str(x.get(i).as_bytes().to_vec())),
                    x => return Err(format!("column {cn}: type {x:?}")),
                }
                .ok_or(format!("column {cn}: row {i} valid but has no value"))?;
                match c.column_type() {
                    ColumnType::Time => match val {
                        FieldValue::I64(x) => rows[i].ts = Some(x),
                        x => return Err(format!("time is {x:?}")),
                    },
                    ColumnType::Tag => match val {
                        FieldValue::Str(x) => {
                            rows[i].tags.insert(cn.clone(), String::from_utf8(x).map_err(|e| e.to_string())?);
                        }
                        x => return Err(format!("tag is {x:?}")),
                    },
                    ColumnType::Field => {
                        rows[i].fields.insert(cn.clone(), val);
                    }
                    x => return Err(format!("column type {x:?}")),
                }
            }
        }
        out.insert(name, rows);
    }
    Ok((p.db().unwrap_or("").to_string(), out))
}

/// lines -> batches -> flatbuffer -> rows: nothing lost, nothing invented, order kept per table
fn check_points(c: &mut Ctx, rows: &[Row], lines: &[Line], default: i64) {
    // one column, one type per batch: what the writer may legitimately refuse
    let mut kinds: HashMap<(String, String), u8> = HashMap::new();
    let mut clash = false;
    for r in rows {
        let mut put = |n: &str, k: u8| {
            clash |= *kinds.entry((r.table.clone(), n.to_string())).or_insert(k) != k;
        };
        put("time", 100);
        r.tags.keys().for_each(|t| put(t, 99));
        r.fields.iter().for_each(|(f, v)| {
            put(f, match v { FieldValue::F64(_) => 0, FieldValue::I64(_) => 1, FieldValue::U64(_) => 2, FieldValue::Bool(_) => 3, FieldValue::Str(_) => 4 })
        });
    }
    let shown = || json!(rows.iter().take(6).map(|r| format!("{r:?}")).collect::<Vec<_>>());
    let Some(r) = c.guard("points", shown, || line_to_batches(lines).map(|b| mutable_batches_to_point("db", b))) else { return };
    match (r, clash) {
        (Err(_), true) => c.count("batches refused for a type clash", 1),
        (Ok(_), true) => c.violation("type clash in one batch accepted", json!({"rows": shown()})),
        (Err(e), false) => c.violation("valid lines refused", json!({"error": e.to_string(), "rows": shown()})),
        (Ok(buf), false) => match decode_points(&buf) {
            Err(e) => c.violation("points do not decode", json!({"error": e, "rows": shown()})),
            Ok((db, tables)) => {
                if db != "db" {
                    c.violation("database name", json!({"got": db}));
                }
                let mut want: BTreeMap<&str, Vec<&Row>> = BTreeMap::new();
                rows.iter().for_each(|r| want.entry(&r.table).or_default().push(r));
                if want.keys().map(|k| k.to_string()).collect::<Vec<_>>() != tables.keys().cloned().collect::<Vec<_>>() {
                    c.violation("tables of a batch", json!({"got": tables.keys().collect::<Vec<_>>(), "rows": shown()}));
                    return;
                }
                for (t, w) in want {
                    let g = &tables[t];
                    let same = w.len() == g.len()
                        && w.iter().zip(g).all(|(a, b)| {
                            a.tags == b.tags && Some(a.ts.unwrap_or(default)) == b.ts && a.fields.len() == b.fields.len()
                                && a.fields.iter().zip(&b.fields).all(|(x, y)| x.0 == y.0 && fv_eq(x.1, y.1))
                        });
                    c.count("rows decoded from points", g.len() as u64);
                    if !same {
                        c.violation("rows of a batch", json!({"want": w.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>(), "got": g.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>()}));
                    }
                }
            }
        },
    }
}

/// the same table and tags hash the same whatever the order, other series differ (mostly)
fn check_hash(c: &mut Ctx, seen: &mut HashMap<(String, BTreeMap<String, String>), u64>, row: &Row, line: &Line, by: &str) {
    if line.hash_id == 0 && !line.table.is_empty() {
        c.violation("line without a series hash", json!({"row": format!("{row:?}"), "by": by}));
    }
    let k = (row.table.clone(), row.tags.clone());
    let want = *seen.entry(k).or_insert_with(|| {
        Line::new(
            row.table.clone().into(),
            row.tags.iter().map(|(k, v)| (k.clone().into(), v.clone().into())).collect(),
            vec![],
            0,
        )
        .hash_id
    });
    c.count("series hashes compared", 1);
    if line.hash_id != want {
        c.violation("one series, two hashes", json!({"row": format!("{row:?}"), "by": by, "hash": line.hash_id, "other": want}));
    }
}

// ------------------------------------------------------------------- line protocol
fn lp_name(r: &mut StdRng, pool: &str) -> String {
    match r.gen_range(0..8) {
        0..=4 => format!("{pool}{}", r.gen_range(0..4)),
        5 => {
            let s: String = (0..r.gen_range(1..6)).map(|_| *r.pick(&['a', ',', ' ', 'é', '中', '_', '-', '.', '#', '/', ':', '1'])).collect();
            // a leading '#' is a comment, leading blanks are skipped between lines
            format!("{pool}{s}")
        }
        6 => format!("{pool}😀{}", r.gen_range(0..3)),
        _ => format!("{}{pool}", r.pick(&["T", "_", "é", "9", "-"])),
    }
}
fn lp_val(r: &mut StdRng) -> String {
    let n = r.gen_range(1..8);
    (0..n).map(|_| *r.pick(&['a', 'b', ',', ' ', '=', 'é', '中', '_', '-', '.', '#', '0', '/'])).collect()
}
fn esc(s: &str, eq: bool) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        if ch == ',' || ch == ' ' || (eq && ch == '=') {
            o.push('\\');
        }
        o.push(ch);
    }
    o
}
fn lp_field(r: &mut StdRng) -> (String, FieldValue) {
    match r.gen_range(0..6) {
        0 => {
            let v = r.edgy_i64();
            let plus = v >= 0 && v != i64::MAX && r.chance(0.0);
            (format!("{}{v}i", if plus { "+" } else { "" }), FieldValue::I64(v))
        }
        1 => {
            let v = r.edgy_u64();
            (format!("{v}u"), FieldValue::U64(v))
        }
        2 => {
            let v = loop {
                let v = r.edgy_f64();
                if v.is_finite() {
                    break v;
                }
            };
            let s = match r.gen_range(0..4) {
                0 => format!("{v:?}"),
                1 => format!("{v}"),
                2 => format!("{v:e}"),
                _ => format!("{v:E}"),
            };
            (s, FieldValue::F64(v))
        }
        3 => {
            let b: bool = r.gen();
            let s = if b { *r.pick(&["t", "T", "true", "True", "TRUE"]) } else { *r.pick(&["f", "F", "false", "False", "FALSE"]) };
            (s.to_string(), FieldValue::Bool(b))
        }
        4 => {
            let v = r.gen_range(-5i64..100);
            (format!("{v}"), FieldValue::F64(v as f64))
        }
        _ => {
            let n = r.gen_range(0..10);
            let s: String = (0..n).map(|_| *r.pick(&['a', ',', ' ', '=', '"', '\\', '\n', '\r', '#', 'é', '😀', '\'', 't', '1', '\t'])).collect();
            let mut o = String::from("\"");
            for ch in s.chars() {
                if ch == '"' || ch == '\\' {
                    o.push('\\');
                }
                o.push(ch);
            }
            o.push('"');
            (o, FieldValue::Str(s.into_bytes()))
        }
    }
}
fn gen_row(r: &mut StdRng, lp: bool) -> (Row, Vec<(String, String)>) {
    let table = lp_name(r, "m");
    let mut tags = BTreeMap::new();
    for _ in 0..r.gen_range(0..4) {
        tags.insert(if lp && r.chance(0.2) { format!("k={}", r.gen_range(0..3)) } else { lp_name(r, "k") }, lp_val(r));
    }
    let mut fields = BTreeMap::new();
    let mut texts = vec![];
    for _ in 0..r.gen_range(1..5) {
        let name = if r.chance(0.9) { lp_name(r, "f") } else { lp_name(r, "k") };
        if fields.contains_key(&name) {
            continue;
        }
        let (t, v) = lp_field(r);
        texts.push((name.clone(), t));
        fields.insert(name, v);
    }
    let ts = if r.chance(0.15) { None } else { Some(r.edgy_i64()) };
    (Row { table, tags, fields, ts }, texts)
}
fn render_lp(r: &mut StdRng, row: &Row, texts: &[(String, String)]) -> String {
    let mut s = esc(&row.table, false);
    let mut tags: Vec<_> = row.tags.iter().collect();
    tags.shuffle(r);
    for (k, v) in tags {
        s += &format!(",{}={}", esc(k, true), esc(v, true));
    }
    s += &" ".repeat(if r.chance(0.1) { r.gen_range(2..4) } else { 1 });
    let mut t = texts.to_vec();
    t.shuffle(r);
    s += &t.iter().map(|(k, v)| format!("{}={}", esc(k, true), v)).collect::<Vec<_>>().join(",");
    if let Some(ts) = row.ts {
        s += &" ".repeat(if r.chance(0.1) { r.gen_range(2..4) } else { 1 });
        s += &ts.to_string();
    }
    s
}

fn n01(c: &mut Ctx) {
    c.rule("every rendering of a random set of points (escapes, spellings of numbers and booleans, tag and field order, blanks, comments, line ends, missing times) parses to exactly those points; the FlatBuffer made of them decodes to the same rows");
    c.rule("any text at all is parsed or refused without a panic, and what is parsed from damaged text can be turned into a batch or refused without a panic");
    c.rule("the series hash depends on the table and the set of tags only");
    c.assume("numbers reach the parser through this framework's stand-ins for atoi_simd and fast-float (std's parsers)");
    c.assume("a backslash or a quote inside a table, tag or field name is outside the generated grammar: the parser documents no meaning for it");
    let mut r = c.rng("n01");
    let mut seen = HashMap::new();
    let mut corpus = vec![];
    for _ in 0..c.n(4000, 30) {
        let k = r.gen_range(1..6);
        let default = r.edgy_i64();
        let mut rows = vec![];
        let mut text = String::new();
        for _ in 0..k {
            if r.chance(0.1) {
                text += *r.pick::<&str>(&["\n", "# a comment, with=stuff\n", "   \n", "\r\n", "#\r\n", "\t\n"]);
            }
            let (row, texts) = gen_row(&mut r, true);
            if rows.len() > 1 && r.chance(0.3) {
                // the same series again, tags in another order
                let (mut again, _): (Row, _) = (Row::clone(r.pick(&rows)), ());
                again.fields = row.fields.clone();
                again.ts = row.ts;
                text += &render_lp(&mut r, &again, &texts);
                rows.push(again);
            } else {
                text += &render_lp(&mut r, &row, &texts);
                rows.push(row);
            }
            text += *r.pick::<&str>(&["\n", "\n", "\r\n", "\n\n"]);
        }
        if r.chance(0.5) {
            while text.ends_with(['\n', '\r']) {
                text.pop();
            }
        }
        c.case(Some(&text));
        let parsed = c.guard("line protocol", || json!({ "text": text }), || line_protocol_to_lines(&text, default));
        let Some(parsed) = parsed else { continue };
        match parsed {
            Err(e) => c.violation("valid line protocol refused", json!({"text": text, "error": e.to_string()})),
            Ok(lines) => {
                if lines.len() != rows.len() {
                    c.violation("number of lines", json!({"text": text, "want": rows.len(), "got": lines.len()}));
                    continue;
                }
                for (row, line) in rows.iter().zip(&lines) {
                    c.count("lines compared", 1);
                    if let Some(d) = diff(row, line, default) {
                        c.violation("line protocol meaning", json!({"text": text, "diff": d}));
                    }
                    if !line.tags.windows(2).all(|w| w[0].0 < w[1].0) {
                        c.violation("tags not in order", json!({"text": text}));
                    }
                    check_hash(c, &mut seen, row, line, "line protocol");
                }
                check_points(c, &rows, &lines, default);
            }
        }
        c.sample("line protocol", || json!(text));
        if corpus.len() < 400 {
            corpus.push(text);
        }
    }
    // damaged and hostile text
    for _ in 0..c.n(15000, 30) {
        let mut t: Vec<char> = if r.chance(0.8) { r.pick(&corpus).chars().collect() } else { r.edgy_string(30).chars().collect() };
        for _ in 0..r.gen_range(1..4) {
            let ch = *r.pick(&['\\', '"', ',', '=', ' ', '\n', '\r', '#', 'i', 'u', 'é', '-', '+', '.', '\0', '9']);
            if t.is_empty() {
                t.push(ch);
                continue;
            }
            let i = r.gen_range(0..t.len());
            match r.gen_range(0..4) {
                0 => t[i] = ch,
                1 => {
                    t.remove(i);
                }
                2 => t.insert(i, ch),
                _ => t.truncate(i),
            }
        }
        let text: String = t.into_iter().collect();
        c.case(Some(&text));
        let Some(got) = c.guard("damaged line protocol", || json!({ "text": text }), || line_protocol_to_lines(&text, 1)) else { continue };
        match got {
            Err(_) => c.count("damaged texts refused", 1),
            Ok(lines) => {
                c.count("damaged texts still valid", 1);
                let ok = c.guard("damaged line protocol to points", || json!({ "text": text }), || {
                    line_to_batches(&lines).map(|b| mutable_batches_to_point("db", b)).map_err(|e| e.to_string())
                });
                if let Some(Ok(buf)) = ok {
                    if let Err(e) = decode_points(&buf) {
                        c.violation("points of accepted text do not decode", json!({"text": text, "error": e}));
                    }
                }
            }
        }
    }
    c.need("lines compared", 5000);
    c.need("rows decoded from points", 3000);
    c.need("damaged texts refused", 1000);
    c.need("damaged texts still valid", 500);
    c.need("batches refused for a type clash", 20);
}

// ------------------------------------------------------------------------ OpenTSDB
fn tsdb_name(r: &mut StdRng, pool: &str) -> String {
    let s: String = (0..r.gen_range(0..6)).map(|_| *r.pick(&['a', 'Z', '0', '9', '-', '_', '.', '/', 'é', '中'])).collect();
    match r.gen_range(0..4) {
        0 => format!("{}{pool}{s}", r.pick(&["_", "-", ".", "/", "é"])),
        _ => format!("{pool}{s}"),
    }
}
fn tsdb_value(r: &mut StdRng) -> (String, f64) {
    let v = match r.gen_range(0..5) {
        0 => r.gen_range(0..1000) as f64,
        1 => r.gen_range(-1000..1000) as f64 / 8.0,
        2 => r.gen::<f64>(),
        _ => loop {
            let v = r.edgy_f64();
            if v.is_finite() {
                break v;
            }
        },
    };
    let s = match r.gen_range(0..3) {
        0 => format!("{v:?}"),
        1 => format!("{v}"),
        _ => format!("{v:e}"),
    };
    (s, v)
}
fn tsdb_row(r: &mut StdRng) -> (Row, String) {
    let (vt, v) = tsdb_value(r);
    let mut tags = BTreeMap::new();
    for _ in 0..r.gen_range(1..5) {
        tags.insert(tsdb_name(r, "t"), tsdb_name(r, "v"));
    }
    let ts = match r.gen_range(0..4) {
        0 => r.edgy_i64(),
        1 => r.gen_range(0..100),
        _ => r.gen_range(0..2_000_000_000_000),
    };
    (Row { table: tsdb_name(r, "m"), tags, fields: [("value".to_string(), FieldValue::F64(v))].into(), ts: Some(ts) }, vt)
}

fn n02(c: &mut Ctx) {
    c.rule("every rendering of a random set of data points as OpenTSDB put text, telnet commands or JSON parses to exactly those points (metric, millisecond or second time as given, value to the last bit, tags)");
    c.rule("a telnet feed cut into arbitrary chunks and handed to the parser the way main/src/tcp/tcp_service.rs does yields the same points as the uncut feed, each once");
    c.rule("any text is parsed or refused without a panic; a line with a broken tag, value or time is refused, not stored with the broken part dropped");
    let mut r = c.rng("n02");
    let mut seen = HashMap::new();
    let mut corpus = vec![];
    for round in 0..c.n(3000, 30) {
        let k = r.gen_range(1..6);
        let all: Vec<(Row, String)> = (0..k).map(|_| tsdb_row(&mut r)).collect();
        let rows: Vec<Row> = all.iter().map(|x| x.0.clone()).collect();
        // --- put text over HTTP
        let eol = *r.pick(&["\n", "\r\n"]);
        let comma = r.chance(0.3);
        let mut text = all
            .iter()
            .map(|(row, v)| {
                let mut tags: Vec<_> = row.tags.iter().map(|(k, v)| format!("{k}={v}")).collect();
                tags.shuffle(&mut r);
                format!("{} {} {} {}", row.table, row.ts.unwrap(), v, tags.join(if comma { "," } else { " " }))
            })
            .collect::<Vec<_>>()
            .join(eol);
        if r.chance(0.5) {
            text += eol;
        }
        c.case(Some(&text));
        match c.guard("opentsdb text", || json!({ "text": text }), || open_tsdb_to_lines(&text, 5)) {
            Some(Err(e)) => c.violation("valid OpenTSDB text refused", json!({"text": text, "error": e.to_string()})),
            Some(Ok(lines)) => {
                compare(c, &mut seen, &rows, &lines, "put text", &text);
                check_points(c, &rows, &lines, 5);
            }
            None => {}
        }
        if corpus.len() < 300 {
            corpus.push(text.clone());
        }
        // --- a broken part: the line must be refused
        let (row, v) = &all[0];
        let t0 = format!("{}={}", tsdb_name(&mut r, "t"), tsdb_name(&mut r, "v"));
        let broken = match r.gen_range(0..6) {
            0 => format!("{} {} {} {t0} host", row.table, row.ts.unwrap(), v),
            1 => format!("{} {} {} {t0} host=", row.table, row.ts.unwrap(), v),
            2 => format!("{} {} {} {t0},host", row.table, row.ts.unwrap(), v),
            3 => format!("{} {} {} {t0},", row.table, row.ts.unwrap(), v),
            4 => format!("{} {} 1x2 {t0}", row.table, row.ts.unwrap()),
            _ => format!("{} 12z4 {} {t0}", row.table, v),
        };
        match c.guard("broken opentsdb text", || json!({ "text": broken }), || open_tsdb_to_lines(&broken, 5).map_err(|_| ())) {
            Some(Ok(lines)) => c.violation("broken OpenTSDB line stored", json!({"text": broken, "lines": format!("{lines:?}")})),
            Some(Err(_)) => c.count("broken lines refused", 1),
            None => {}
        }
        // --- telnet, whole and cut
        let feed: String = all
            .iter()
            .map(|(row, v)| {
                let tags: Vec<_> = row.tags.iter().map(|(k, v)| format!("{k}={v}")).collect();
                format!("put {} {} {} {}{}", row.table, row.ts.unwrap(), v, tags.join(" "), if r.chance(0.1) { "\r\n\r\n" } else { "\r\n" })
            })
            .collect();
        let p = TsdbParser::new(5);
        let mut got: Vec<(Row, u64)> = vec![];
        let mut buffer: Vec<u8> = vec![];
        let bytes = feed.as_bytes();
        let mut at = 0;
        let mut cuts = vec![];
        while at < bytes.len() {
            let n = match round % 3 {
                0 => bytes.len(),
                1 => 1,
                _ => r.gen_range(1..=bytes.len()),
            }
            .min(bytes.len() - at);
            buffer.extend_from_slice(&bytes[at..at + n]);
            at += n;
            cuts.push(n);
            let step = quiet(|| match p.parse_tcp_opentsdb(&buffer) {
                Ok((lines, pos)) => {
                    if lines.is_empty() {
                        return (vec![], 0);
                    }
                    (lines.iter().map(own).collect::<Vec<_>>(), pos)
                }
                Err(_) => (vec![], 0),
            });
            match step {
                Err(e) => {
                    c.violation("panic:telnet", json!({"feed": feed, "panic": e}));
                    break;
                }
                Ok((l, pos)) => {
                    if pos > buffer.len() {
                        c.violation("telnet parser consumed more than it was given", json!({"feed": feed, "cuts": cuts, "pos": pos, "buffer": buffer.len()}));
                        break;
                    }
                    got.extend(l);
                    buffer.drain(..pos);
                }
            }
        }
        c.count("telnet chunks", cuts.len() as u64);
        c.case(Some(&(&feed, &cuts)));
        let same = got.len() == rows.len() && got.iter().zip(&rows).all(|(a, b)| a.0.table == b.table && a.0.tags == b.tags && a.0.ts == b.ts && a.0.fields.iter().zip(&b.fields).all(|(x, y)| x.0 == y.0 && fv_eq(x.1, y.1)));
        if !same {
            c.violation("telnet feed", json!({"feed": feed, "cuts": cuts.iter().take(20).collect::<Vec<_>>(), "got": got.iter().map(|x| format!("{:?}", x.0)).collect::<Vec<_>>()}));
        }
        // --- JSON
        let js = serde_json::Value::Array(
            rows.iter()
                .map(|row| {
                    let FieldValue::F64(v) = row.fields["value"] else { unreachable!() };
                    json!({"metric": row.table, "timestamp": row.ts.unwrap(), "value": v, "tags": row.tags})
                })
                .collect(),
        )
        .to_string();
        // serde_json (as configured by the repository) may be one unit in the last place off:
        // the points are compared with what its own parser makes of each number
        let read: Vec<serde_json::Value> = serde_json::from_str(&js).unwrap();
        let rows: Vec<Row> = rows
            .iter()
            .zip(&read)
            .map(|(row, v)| {
                let mut row = row.clone();
                let FieldValue::F64(want) = row.fields["value"] else { unreachable!() };
                let near = v["value"].as_f64().unwrap();
                assert!(near == want || (near - want).abs() <= want.abs() * 1e-15);
                row.fields.insert("value".into(), FieldValue::F64(near));
                row
            })
            .collect();
        match serde_json::from_str::<Vec<DataPoint>>(&js) {
            Err(e) => c.violation("valid JSON points refused", json!({"json": js, "error": e.to_string()})),
            Ok(pts) => {
                let lines: Vec<Line> = pts.into_iter().map(Line::from).collect();
                compare(c, &mut seen, &rows, &lines, "JSON", &js);
            }
        }
        c.sample("telnet", || json!({"feed": feed, "cuts": cuts.iter().take(10).collect::<Vec<_>>()}));
    }
    for _ in 0..c.n(8000, 30) {
        let mut t: Vec<char> = if r.chance(0.8) { r.pick(&corpus).chars().collect() } else { r.edgy_string(30).chars().collect() };
        for _ in 0..r.gen_range(1..4) {
            let ch = *r.pick(&['\\', '"', ',', '=', ' ', '\n', '\r', 'é', '\u{a0}', '-', '+', '.', '\0', '9', '\t']);
            if t.is_empty() {
                t.push(ch);
                continue;
            }
            let i = r.gen_range(0..t.len());
            match r.gen_range(0..4) {
                0 => t[i] = ch,
                1 => {
                    t.remove(i);
                }
                2 => t.insert(i, ch),
                _ => t.truncate(i),
            }
        }
        let text: String = t.into_iter().collect();
        c.case(Some(&text));
        if let Some(got) = c.guard("damaged opentsdb", || json!({ "text": text }), || open_tsdb_to_lines(&text, 1).map(|x| x.len()).map_err(|_| ())) {
            c.count(if got.is_ok() { "damaged texts still valid" } else { "damaged texts refused" }, 1);
        }
        let tel = format!("put {text}\r\n");
        c.guard("damaged telnet", || json!({ "text": tel }), || TsdbParser::new(1).parse_tcp_opentsdb(tel.as_bytes()).map(|x| x.1).map_err(|_| ()));
    }
    c.need("lines compared", 5000);
    c.need("telnet chunks", 3000);
    c.need("broken lines refused", 500);
    c.need("damaged texts refused", 500);
}
fn own(l: &Line) -> (Row, u64) {
    (
        Row {
            table: l.table.to_string(),
            tags: l.tags.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            fields: l.fields.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(),
            ts: Some(l.timestamp),
        },
        l.hash_id,
    )
}
fn compare(c: &mut Ctx, seen: &mut HashMap<(String, BTreeMap<String, String>), u64>, rows: &[Row], lines: &[Line], by: &str, text: &str) {
    if rows.len() != lines.len() {
        c.violation(&format!("{by}: number of points"), json!({"text": text, "want": rows.len(), "got": lines.len()}));
        return;
    }
    for (row, line) in rows.iter().zip(lines) {
        c.count("lines compared", 1);
        if let Some(d) = diff(row, line, 5) {
            c.violation(&format!("{by}: meaning"), json!({"text": text, "diff": d}));
        }
        check_hash(c, seen, row, line, by);
    }
}

// -------------------------------------------------------------- JSON logs and traces
fn jval(r: &mut StdRng, depth: usize) -> serde_json::Value {
    match r.gen_range(0..if depth == 0 { 4 } else { 6 }) {
        0 => json!(r.gen::<bool>()),
        1 => json!(r.gen_range(-1000i64..1000)),
        2 => json!(r.gen_range(-1000..1000) as f64 / 16.0),
        3 => json!(r.edgy_string(8)),
        4 => {
            let n = r.gen_range(1..4);
            (0..n).map(|_| jval(r, depth - 1)).collect()
        }
        _ => {
            let n = r.gen_range(1..4);
            serde_json::Value::Object((0..n).map(|i| (format!("{}{i}", r.pick(&["a", "b", "é", "x y"])), jval(r, depth - 1))).collect())
        }
    }
}
/// leaves with dotted paths: the documented flattening
fn leaves(path: String, v: &serde_json::Value, out: &mut BTreeMap<String, serde_json::Value>) {
    let join = |k: &str| if path.is_empty() { k.to_string() } else { format!("{path}.{k}") };
    match v {
        serde_json::Value::Object(m) => m.iter().for_each(|(k, v)| leaves(join(k), v, out)),
        serde_json::Value::Array(a) => a.iter().enumerate().for_each(|(i, v)| leaves(join(&i.to_string()), v, out)),
        _ => {
            out.insert(path, v.clone());
        }
    }
}
fn want_line(flat: &BTreeMap<String, serde_json::Value>, table: &str, tags: &[String], time_col: &str) -> Row {
    let mut row = Row { table: table.into(), tags: BTreeMap::new(), fields: BTreeMap::new(), ts: None };
    for (k, v) in flat {
        if tags.contains(k) {
            row.tags.insert(k.clone(), v.as_str().map(String::from).unwrap_or_else(|| v.to_string()));
        } else if k == time_col {
            row.ts = v.as_i64().or_else(|| {
                chrono::DateTime::parse_from_rfc3339(v.as_str()?).ok()?.timestamp_nanos_opt()
            });
        } else {
            row.fields.insert(
                k.clone(),
                match v {
                    serde_json::Value::Bool(b) => FieldValue::Bool(*b),
                    serde_json::Value::Number(n) => FieldValue::F64(n.as_f64().unwrap()),
                    serde_json::Value::String(s) => FieldValue::Str(s.clone().into_bytes()),
                    _ => unreachable!(),
                },
            );
        }
    }
    row
}

fn n03(c: &mut Ctx) {
    c.rule("random JSON documents sent as Elasticsearch bulk, ndjson or Loki chunks become one record each with exactly the leaves of their own document, under their dotted paths; tags, time and fields of the resulting line are those leaves");
    c.rule("random Loki and OTLP protobuf requests become one record per entry or span: its own attributes, events and links plus those of its own resource and scope, nothing of its neighbours");
    c.rule("truncated and bit-flipped requests are refused or parsed, never a panic");
    let mut r = c.rng("n03");
    let mut seen = HashMap::new();
    for _ in 0..c.n(1500, 30) {
        let n = r.gen_range(1..5);
        let docs: Vec<serde_json::Map<String, serde_json::Value>> = (0..n)
            .map(|_| {
                let mut m = serde_json::Map::new();
                for i in 0..r.gen_range(1..5) {
                    m.insert(format!("{}{i}", r.pick(&["k", "host", "é", "a b"])), jval(&mut r, 2));
                }
                let (t, _) = match r.gen_range(0..3) {
                    0 => (json!(r.edgy_i64()), 0),
                    1 => (json!(r.gen_range(0i64..2_000_000_000_000_000_000)), 0),
                    _ => {
                        let ns = r.gen_range(-1_000_000_000_000_000_000i64..2_000_000_000_000_000_000);
                        (json!(chrono::DateTime::from_timestamp(ns.div_euclid(1_000_000_000), ns.rem_euclid(1_000_000_000) as u32).unwrap().to_rfc3339()), 0)
                    }
                };
                m.insert("ts".into(), t);
                m
            })
            .collect();
        let flats: Vec<BTreeMap<String, serde_json::Value>> = docs
            .iter()
            .map(|d| {
                let mut o = BTreeMap::new();
                leaves(String::new(), &serde_json::Value::Object(d.clone()), &mut o);
                o
            })
            .collect();
        let docs: Vec<String> = docs.into_iter().map(|d| serde_json::Value::Object(d).to_string()).collect();
        let kind = r.gen_range(0..3);
        let head: Vec<String> = (0..n).map(|i| if r.chance(0.5) { format!("{{\"index\":{{\"_index\":\"t\",\"_id\":\"{i}\"}}}}") } else { "{\"create\":{}}".to_string() }).collect();
        let chunk: Vec<&str> = match kind {
            0 => head.iter().zip(&docs).flat_map(|(h, d)| [h.as_str(), d.as_str()]).collect(),
            _ => docs.iter().map(|s| s.as_str()).collect(),
        };
        c.case(Some(&chunk));
        let got = c.guard("json logs", || json!({"docs": docs}), || match kind {
            0 => jp::parse_json_to_eslog(chunk.clone()),
            1 => jp::parse_json_to_ndjsonlog(chunk.clone()),
            _ => jp::parse_json_to_lokilog(chunk.clone()),
        });
        let logs = match got {
            None => continue,
            Some(Err(e)) => {
                c.violation("valid JSON logs refused", json!({"docs": docs, "error": e.to_string()}));
                continue;
            }
            Some(Ok(l)) => l,
        };
        if logs.len() != flats.len() {
            c.violation("number of log records", json!({"docs": docs, "got": logs.len()}));
            continue;
        }
        for (log, flat) in logs.iter().zip(&flats) {
            c.count("log records compared", 1);
            if log.get_fields() != flat {
                c.violation("fields of a log record", json!({"docs": docs, "got": format!("{:?}", log.get_fields()), "want": format!("{flat:?}")}));
                continue;
            }
            let keys: Vec<&String> = flat.keys().filter(|k| *k != "ts" && !k.contains(',') && k.trim() == k.as_str()).collect();
            let mut tagc: Vec<String> = keys.iter().filter(|_| r.chance(0.4)).map(|s| s.to_string()).collect();
            tagc.dedup();
            let tagtext = tagc.join(if r.chance(0.5) { "," } else { " , " });
            let want = want_line(flat, "tbl", &tagc, "ts");
            match c.guard("json to line", || json!(format!("{flat:?}")), || jp::parse_to_line(log, "tbl", "ts", &tagtext).map_err(|e| e.to_string())) {
                Some(Ok(line)) => {
                    if let Some(d) = diff(&want, &line, want.ts.unwrap_or(0)) {
                        c.violation("line of a log record", json!({"log": format!("{flat:?}"), "tags": tagtext, "diff": d}));
                    }
                    check_hash(c, &mut seen, &want, &line, "JSON log");
                }
                Some(Err(e)) => {
                    // an RFC 3339 time outside i64 nanoseconds cannot be generated here
                    c.violation("valid log record refused", json!({"log": format!("{flat:?}"), "error": e}));
                }
                None => {}
            }
        }
        c.sample("json log", || json!(docs));
    }
    // ---- Loki protobuf
    use prost::Message;
    use protos::logproto::{Entry, PushRequest, Stream};
    let mut blobs: Vec<Vec<u8>> = vec![];
    for _ in 0..c.n(300, 30) {
        let mut want = vec![];
        let req = PushRequest {
            streams: (0..r.gen_range(0..4))
                .map(|_| {
                    let labels = r.edgy_string(10);
                    Stream {
                        labels: labels.clone(),
                        entries: (0..r.gen_range(0..4))
                            .map(|_| {
                                let (s, ns) = (r.gen_range(0i64..9_000_000_000), r.gen_range(0..1_000_000_000));
                                let line = r.edgy_string(20);
                                want.push((labels.clone(), s * 1_000_000_000 + ns as i64, line.clone()));
                                let mut e = Entry { line, ..Default::default() };
                                let t = e.timestamp.get_or_insert_with(Default::default);
                                t.seconds = s;
                                t.nanos = ns;
                                e
                            })
                            .collect(),
                        ..Default::default()
                    }
                })
                .collect(),
            ..Default::default()
        };
        let raw = req.encode_to_vec();
        let mut z = vec![];
        models::snappy::SnappyCodec {}.compress(&raw, &mut z).unwrap();
        c.case(Some(&z));
        match c.guard("loki", || json!({"request": format!("{req:?}")}), || jp::parse_protobuf_to_lokilog(z.clone().into())) {
            Some(Ok(logs)) => {
                let got: Vec<_> = logs
                    .iter()
                    .map(|l| {
                        let f = l.get_fields();
                        (f["lables"].as_str().unwrap_or("?").to_string(), f["time"].as_i64().unwrap_or(-1), f["msg"].as_str().unwrap_or("?").to_string())
                    })
                    .collect();
                c.count("loki entries compared", want.len() as u64);
                if got != want {
                    c.violation("loki entries", json!({"want": format!("{want:?}"), "got": format!("{got:?}")}));
                }
            }
            Some(Err(e)) => c.violation("valid loki request refused", json!({"error": e.to_string()})),
            None => {}
        }
        if blobs.len() < 60 {
            blobs.push(z);
        }
    }
    otlp(c, &mut r, &mut blobs);
    for _ in 0..c.n(3000, 30) {
        let mut b = r.pick(&blobs).clone();
        for _ in 0..r.gen_range(1..4) {
            if b.is_empty() {
                break;
            }
            let i = r.gen_range(0..b.len());
            match r.gen_range(0..3) {
                0 => b[i] ^= 1 << r.gen_range(0..8),
                1 => b.truncate(i),
                _ => b[i] = r.gen(),
            }
        }
        c.case(Some(&b));
        c.guard("damaged loki", || json!(b), || jp::parse_protobuf_to_lokilog(b.clone().into()).map(|x| x.len()).map_err(|_| ()));
        if let Some(x) = c.guard("damaged otlp", || json!(b), || jp::parse_protobuf_to_otlptrace(b.clone().into()).map(|x| x.len()).map_err(|_| ())) {
            c.count(if x.is_ok() { "damaged requests still valid" } else { "damaged requests refused" }, 1);
        }
    }
    c.need("log records compared", 2000);
    c.need("loki entries compared", 200);
    c.need("spans compared", 400);
    c.need("damaged requests refused", 100);
}

fn otlp(c: &mut Ctx, r: &mut StdRng, blobs: &mut Vec<Vec<u8>>) {
    use prost::Message;
    use protos::common::{any_value::Value as V, AnyValue, InstrumentationScope, KeyValue};
    use protos::trace::{span, ResourceSpans, ScopeSpans, Span, Status};
    use protos::resource::Resource;
    use protos::trace_service::ExportTraceServiceRequest;
    type F = BTreeMap<String, serde_json::Value>;
    let attrs = |r: &mut StdRng, at: &str, out: &mut F| -> Vec<KeyValue> {
        let mut keys = BTreeSet::new();
        for _ in 0..r.gen_range(0..4) {
            keys.insert(format!("{}{}", r.pick(&["http.", "db.", "x"]), r.gen_range(0..4)));
        }
        keys.into_iter()
            .map(|k| {
                let (v, t) = match r.gen_range(0..4) {
                    0 => { let s = r.edgy_string(6); (V::StringValue(s.clone()), s) }
                    1 => { let b: bool = r.gen(); (V::BoolValue(b), b.to_string()) }
                    2 => { let i: i64 = r.gen(); (V::IntValue(i), i.to_string()) }
                    _ => { let d = r.gen_range(-100..100) as f64 / 4.0; (V::DoubleValue(d), d.to_string()) }
                };
                out.insert(format!("{at}attributes/{k}"), json!(t));
                KeyValue { key: k, value: Some(AnyValue { value: Some(v) }) }
            })
            .collect()
    };
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    for _ in 0..c.n(300, 30) {
        let mut want: Vec<F> = vec![];
        let mut req = ExportTraceServiceRequest::default();
        for _ in 0..r.gen_range(1..3) {
            let mut rf = F::new();
            let mut rs = ResourceSpans::default();
            if r.chance(0.8) {
                let a = attrs(r, "ResourceSpans/Resource/", &mut rf);
                let d = r.gen_range(0..5u32);
                rf.insert("ResourceSpans/Resource/dropped_attributes_count".into(), json!(d));
                rs.resource = Some(Resource { attributes: a, dropped_attributes_count: d });
            }
            rs.schema_url = r.edgy_string(4);
            rf.insert("ResourceSpans/schema_url".into(), json!(rs.schema_url));
            for _ in 0..r.gen_range(1..3) {
                let mut sf = rf.clone();
                let mut ss = ScopeSpans::default();
                let sp = "ResourceSpans/ScopeSpans/";
                if r.chance(0.8) {
                    let p = format!("{sp}InstrumentationScope/");
                    let a = attrs(r, &p, &mut sf);
                    let sc = InstrumentationScope { name: r.edgy_string(4), version: r.edgy_string(4), attributes: a, dropped_attributes_count: r.gen_range(0..5) };
                    sf.insert(format!("{p}name"), json!(sc.name));
                    sf.insert(format!("{p}version"), json!(sc.version));
                    sf.insert(format!("{p}dropped_attributes_count"), json!(sc.dropped_attributes_count));
                    ss.scope = Some(sc);
                }
                ss.schema_url = r.edgy_string(4);
                sf.insert(format!("{sp}schema_url"), json!(ss.schema_url));
                for _ in 0..r.gen_range(0..4) {
                    let mut f = sf.clone();
                    let p = format!("{sp}Span/");
                    let a = attrs(r, &p, &mut f);
                    let start = r.gen_range(0u64..1 << 60);
                    let end = if r.chance(0.1) { r.gen_range(0..1 << 60) } else { start + r.gen_range(0..1 << 40) };
                    let mut s = Span {
                        trace_id: r.bytes(16), span_id: r.bytes(8), trace_state: r.edgy_string(4), parent_span_id: r.bytes(8),
                        flags: r.gen(), name: r.edgy_string(6), kind: r.gen_range(0..6), start_time_unix_nano: start, end_time_unix_nano: end,
                        attributes: a, dropped_attributes_count: r.gen_range(0..4), dropped_events_count: r.gen_range(0..4), dropped_links_count: r.gen_range(0..4),
                        ..Default::default()
                    };
                    for (k, v) in [
                        ("trace_id", json!(hex(&s.trace_id))), ("span_id", json!(hex(&s.span_id))), ("trace_state", json!(s.trace_state)),
                        ("parent_span_id", json!(hex(&s.parent_span_id))), ("flags", json!(s.flags)), ("name", json!(s.name)),
                        ("kind", json!(s.kind().as_str_name())), ("start_time_unix_nano", json!(start)), ("end_time_unix_nano", json!(end)),
                        ("dropped_attributes_count", json!(s.dropped_attributes_count)), ("dropped_events_count", json!(s.dropped_events_count)),
                        ("dropped_links_count", json!(s.dropped_links_count)),
                    ] {
                        f.insert(format!("{p}{k}"), v);
                    }
                    if end >= start {
                        f.insert(format!("{p}duration_nano"), json!(end - start));
                    }
                    for i in 0..r.gen_range(0..3) {
                        let ep = format!("{p}Event_{i}/");
                        let a = attrs(r, &ep, &mut f);
                        let e = span::Event { time_unix_nano: r.gen(), name: r.edgy_string(4), attributes: a, dropped_attributes_count: r.gen_range(0..4) };
                        f.insert(format!("{ep}time_unix_nano"), json!(e.time_unix_nano));
                        f.insert(format!("{ep}name"), json!(e.name));
                        f.insert(format!("{ep}dropped_attributes_count"), json!(e.dropped_attributes_count));
                        s.events.push(e);
                    }
                    for i in 0..r.gen_range(0..3) {
                        let lp = format!("{p}Link_{i}/");
                        let a = attrs(r, &lp, &mut f);
                        let l = span::Link { trace_id: r.bytes(16), span_id: r.bytes(8), trace_state: r.edgy_string(4), attributes: a, dropped_attributes_count: r.gen_range(0..4), flags: r.gen() };
                        for (k, v) in [("trace_id", json!(hex(&l.trace_id))), ("span_id", json!(hex(&l.span_id))), ("trace_state", json!(l.trace_state)), ("dropped_attributes_count", json!(l.dropped_attributes_count)), ("flags", json!(l.flags))] {
                            f.insert(format!("{lp}{k}"), v);
                        }
                        s.links.push(l);
                    }
                    if r.chance(0.6) {
                        let st = Status { message: r.edgy_string(4), code: r.gen_range(0..3) };
                        f.insert(format!("{p}Status/code"), json!(st.code().as_str_name()));
                        f.insert(format!("{p}Status/message"), json!(st.message));
                        s.status = Some(st);
                    }
                    ss.spans.push(s);
                    want.push(f);
                }
                rs.scope_spans.push(ss);
            }
            req.resource_spans.push(rs);
        }
        let raw = req.encode_to_vec();
        c.case(Some(&raw));
        match c.guard("otlp", || json!({"request": format!("{req:?}")}), || jp::parse_protobuf_to_otlptrace(raw.clone().into())) {
            Some(Ok(logs)) => {
                if logs.len() != want.len() {
                    c.violation("number of spans", json!({"want": want.len(), "got": logs.len()}));
                    continue;
                }
                for (l, w) in logs.iter().zip(&want) {
                    c.count("spans compared", 1);
                    let mut g = l.get_fields().clone();
                    // a span that ends before it starts has no meaningful duration
                    if !w.contains_key("ResourceSpans/ScopeSpans/Span/duration_nano") {
                        g.remove("ResourceSpans/ScopeSpans/Span/duration_nano");
                    }
                    if &g != w {
                        let extra: Vec<_> = g.iter().filter(|x| w.get(x.0) != Some(x.1)).take(5).collect();
                        let missing: Vec<_> = w.iter().filter(|x| g.get(x.0) != Some(x.1)).take(5).collect();
                        c.violation("fields of a span", json!({"extra": format!("{extra:?}"), "missing": format!("{missing:?}")}));
                    }
                }
            }
            Some(Err(e)) => c.violation("valid otlp request refused", json!({"error": e.to_string()})),
            None => {}
        }
        if blobs.len() < 120 {
            blobs.push(raw);
        }
    }
}

fn main() {
    mon::main(&[("N01", n01), ("N02", n02), ("N03", n03)]);
}
