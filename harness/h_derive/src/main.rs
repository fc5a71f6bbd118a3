//! D01: what the ErrorCoder and Keys derives generate. Random types are compiled with the
//! real macros and the compiled program is observed; types that must be refused are compiled
//! one by one.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::process::Command;

use mon::rand::rngs::StdRng;
use mon::rand::seq::SliceRandom;
use mon::rand::Rng;
use mon::{json, Ctx, GenExt};

/// the documented method name of a variant: words split before capitals and around digits
fn snake(s: &str) -> String {
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        let prev = if i == 0 { None } else { Some(cs[i - 1]) };
        let digit = c.is_ascii_digit();
        let pdigit = prev.map_or(false, |p| p.is_ascii_digit());
        if (digit && !pdigit) || (!digit && pdigit) || (c.is_ascii_uppercase() && i > 0) {
            out.push('_');
        }
        out.push(c.to_ascii_lowercase());
    }
    out
}

fn variant_name(r: &mut StdRng) -> String {
    let words = ["Io", "Read", "Write", "File", "Not", "Found", "Bad", "A", "X", "Meta", "DB", "Ttl", "V2", "N64", "Invalid", "Utf8", "E1b"];
    (0..r.gen_range(1..4)).map(|_| *r.pick(&words)).collect()
}

struct Var {
    name: String,
    kind: usize, // 0 unit, 1 tuple, 2 named, 3 named with source
    code: Option<u64>,
}
struct Enum {
    name: String,
    mod_code: Option<String>,
    vars: Vec<Var>,
}

fn random_enum(r: &mut StdRng, i: usize) -> Enum {
    let mod_code = if r.chance(0.7) { Some(match r.gen_range(0..3) { 0 => format!("{:02}", r.gen_range(0..100)), 1 => "xx".into(), _ => "0a".to_string() }) } else { None };
    let mut names = HashSet::new();
    let mut methods = HashSet::new();
    let mut codes = HashSet::new();
    let mut vars = vec![];
    for _ in 0..r.gen_range(1..12) {
        let name = variant_name(r);
        if !names.insert(name.clone()) || !methods.insert(snake(&name)) {
            continue;
        }
        let code = if r.chance(0.8) {
            let c = match r.gen_range(0..4) { 0 => r.gen_range(0..10), 1 => 9999 - r.gen_range(0..3), _ => r.gen_range(0..10_000) };
            codes.insert(c).then_some(c)
        } else {
            None
        };
        vars.push(Var { name, kind: r.gen_range(0..4), code });
    }
    vars.shuffle(r);
    Enum { name: format!("E{i}"), mod_code, vars }
}

fn source_of(e: &Enum) -> String {
    let mut s = String::new();
    s.push_str("#[derive(Debug, ErrorCoder)]\n");
    if let Some(m) = &e.mod_code {
        writeln!(s, "#[error_code(mod_code = \"{m}\")]").unwrap();
    }
    writeln!(s, "pub enum {} {{", e.name).unwrap();
    for v in &e.vars {
        if let Some(c) = v.code {
            writeln!(s, "    #[error_code(code = {c})]").unwrap();
        }
        let body = match v.kind { 0 => "", 1 => "(u32)", 2 => "{ a: u32, b: String }", _ => "{ source: std::io::Error }" };
        writeln!(s, "    {}{body},", v.name).unwrap();
    }
    s.push_str("}\n");
    writeln!(s, "impl std::fmt::Display for {0} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ write!(f, \"msg of {0} {{:?}}\", self) }} }}\nimpl std::error::Error for {0} {{}}", e.name).unwrap();
    s
}
fn build_of(v: &Var) -> &'static str {
    match v.kind { 0 => "", 1 => "(7)", 2 => "{ a: 1, b: String::from(\"q\") }", _ => "{ source: std::io::Error::new(std::io::ErrorKind::Other, \"s\") }" }
}

struct Rustc {
    deps: String,
    traits: String,
    work: String,
}
impl Rustc {
    fn find() -> Option<Rustc> {
        let ws = std::env::var("VERIF_DIR").ok()? + "/build/ws";
        let o = Command::new("cargo").args(["build", "--offline", "-p", "derive_traits", "--message-format=json"]).current_dir(ws).output().ok()?;
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        let mut traits = None;
        for l in t.lines() {
            let v: mon::Value = match serde_json_from(l) { Some(v) => v, None => continue };
            if v["reason"] == "compiler-artifact" && v["target"]["name"] == "derive_traits" {
                for f in v["filenames"].as_array()? {
                    if f.as_str()?.ends_with(".rlib") {
                        traits = Some(f.as_str()?.to_string());
                    }
                }
            }
        }
        let traits = traits?;
        let target = traits.rsplit_once('/')?.0.to_string();
        let deps = if target.ends_with("deps") { target } else { format!("{target}/deps") };
        Some(Rustc { deps, traits, work: std::env::var("VERIF_WORK").ok()? })
    }
    /// compile; Err(stderr) when refused
    fn compile(&self, name: &str, src: &str, link: bool) -> Result<String, String> {
        let f = format!("{}/{name}.rs", self.work);
        std::fs::write(&f, src).unwrap();
        let out = format!("{}/{name}{}", self.work, if link { "" } else { ".rmeta" });
        let mut c = Command::new("rustc");
        c.args(["--edition", "2021", "-A", "warnings", "-L", &format!("dependency={}", self.deps), "--extern", &format!("derive_traits={}", self.traits), "-o", &out, &f]);
        if !link {
            c.args(["--emit", "metadata", "--crate-type", "lib"]);
        }
        let o = c.output().map_err(|e| e.to_string())?;
        if o.status.success() { Ok(out) } else { Err(String::from_utf8_lossy(&o.stderr).to_string()) }
    }
}
fn serde_json_from(l: &str) -> Option<mon::Value> {
    mon::parse(l)
}

fn d01(c: &mut Ctx) {
    c.rule("compiled with the real macros: code() is the module code and the 4-digit variant code, message() the display text, code_<variant>() the same code; field keys are the dotted upper-case paths of the leaves; duplicate, oversized or malformed codes do not compile");
    let mut r = c.rng("d01");
    let Some(rc) = Rustc::find() else {
        c.inconclusive("cannot find derive_traits among the build products");
        return;
    };
    for round in 0..c.n(2, 15) {
        let enums: Vec<Enum> = (0..25).map(|i| random_enum(&mut r, i)).collect();
        let mut src = String::from("use derive_traits::{ErrorCode, ErrorCoder, FieldKeys, Keys};\nuse std::time::Duration;\n");
        let mut main = String::new();
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        for e in &enums {
            src.push_str(&source_of(e));
            let m = e.mod_code.clone().unwrap_or("00".into());
            for v in &e.vars {
                let full = format!("{m}{:04}", v.code.unwrap_or(0));
                let key = format!("{}::{}", e.name, v.name);
                writeln!(main, "{{ let x = {key}{}; println!(\"code {key} {{}}\", x.code()); println!(\"msg {key} {{}}\", x.message() == x.to_string()); println!(\"dyn {key} {{}}\", {{ let d: &dyn ErrorCode = x.source_error_code(); d.code() }}); }}", build_of(v)).unwrap();
                want.insert(format!("code {key}"), full.clone());
                want.insert(format!("dyn {key}"), full.clone());
                want.insert(format!("msg {key}"), "true".into());
                if v.code.is_some() {
                    writeln!(main, "println!(\"fn {key} {{}}\", {{ const C: &str = {}::code_{}(); C }});", e.name, snake(&v.name)).unwrap();
                    want.insert(format!("fn {key}"), full);
                }
                c.case(Some(&(&v.name, v.code, v.kind, &e.mod_code)));
                c.count("variants", 1);
            }
        }
        // structs: leaves and nesting
        let mut structs: Vec<Vec<String>> = vec![];
        for i in 0..15 {
            let n = r.gen_range(1..6);
            let mut keys = vec![];
            let mut body = String::new();
            let mut used = BTreeSet::new();
            for _ in 0..n {
                let f = *r.pick(&["a", "max_size", "node_id", "x1", "path", "tls_config", "very_long_field_name", "two__scores", "_first", "last_", "camelCase", "x_1_2"]);
                if !used.insert(f) {
                    continue;
                }
                let up = f.to_uppercase();
                let nested = !structs.is_empty() && r.chance(0.45);
                let (inner, sub) = if nested {
                    let k = r.gen_range(0..structs.len());
                    (format!("S{k}"), structs[k].clone())
                } else {
                    (r.pick(&["u8", "i64", "String", "bool", "f64", "Duration", "usize", "char"]).to_string(), vec![])
                };
                let ty = match r.gen_range(0..4) { 0 => format!("Option<{inner}>"), 1 => format!("Vec<{inner}>"), _ => inner };
                writeln!(body, "    pub {f}: {ty},").unwrap();
                if sub.is_empty() {
                    keys.push(up);
                } else {
                    keys.extend(sub.iter().map(|s| format!("{up}.{s}")));
                }
            }
            writeln!(src, "#[derive(Keys)]\npub struct S{i} {{\n{body}}}").unwrap();
            writeln!(main, "println!(\"keys S{i} {{}}\", S{i}::field_keys().join(\"|\"));").unwrap();
            want.insert(format!("keys S{i}"), keys.join("|"));
            c.case(Some(&keys));
            c.count("structs", 1);
            structs.push(keys);
        }
        writeln!(src, "fn main() {{\n{main}}}").unwrap();
        match rc.compile(&format!("ok{round}"), &src, true) {
            Err(e) => c.violation("derive:refused", json!({"error": e.lines().take(12).collect::<Vec<_>>(), "source": src.chars().take(1500).collect::<String>()})),
            Ok(exe) => {
                let o = Command::new(exe).output().unwrap();
                let t = String::from_utf8_lossy(&o.stdout).to_string();
                let mut got: BTreeMap<String, String> = BTreeMap::new();
                for l in t.lines() {
                    let mut p = l.splitn(3, ' ');
                    let k = format!("{} {}", p.next().unwrap_or(""), p.next().unwrap_or(""));
                    got.insert(k, p.next().unwrap_or("").into());
                }
                c.count("observed_values", got.len() as u64);
                for (k, v) in &want {
                    if got.get(k) != Some(v) {
                        let kind = k.split(' ').next().unwrap_or("");
                        c.violation(&format!("derive:{kind}"), json!({"what": k, "want": v, "got": got.get(k)}));
                    }
                }
            }
        }
    }
    // must be refused
    let err = "impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }\nimpl std::error::Error for E {}\n";
    let head = "use derive_traits::{ErrorCode, ErrorCoder, Keys};\n";
    let bad: Vec<(&str, String)> = vec![
        ("same code twice", format!("#[derive(Debug, ErrorCoder)] enum E {{ #[error_code(code = 3)] A, #[error_code(code = 4)] B, #[error_code(code = 3)] C }}")),
        ("code of five digits", format!("#[derive(Debug, ErrorCoder)] enum E {{ #[error_code(code = {})] A }}", 10_000 + r.gen_range(0..5))),
        ("module code of one letter", "#[derive(Debug, ErrorCoder)] #[error_code(mod_code = \"1\")] enum E { #[error_code(code = 3)] A }".into()),
        ("module code of three letters", "#[derive(Debug, ErrorCoder)] #[error_code(mod_code = \"123\")] enum E { A }".into()),
        ("two module codes", "#[derive(Debug, ErrorCoder)] #[error_code(mod_code = \"12\")] #[error_code(mod_code = \"13\")] enum E { A }".into()),
        ("two codes on a variant", "#[derive(Debug, ErrorCoder)] enum E { #[error_code(code = 1)] #[error_code(code = 2)] A }".into()),
        ("unknown attribute", "#[derive(Debug, ErrorCoder)] enum E { #[error_code(kode = 1)] A }".into()),
        ("a struct", "#[derive(Debug, ErrorCoder)] struct E;".into()),
    ];
    for (i, (what, s)) in bad.iter().enumerate() {
        c.case(Some(what));
        c.count("refused_types", 1);
        if rc.compile(&format!("bad{i}"), &format!("{head}{s}\n{err}"), false).is_ok() {
            c.violation("derive:accepted", json!({"what": what, "source": s}));
        }
    }
    // the refusals are about the attribute, not the scaffold
    if let Err(e) = rc.compile("good", &format!("{head}#[derive(Debug, ErrorCoder)] #[error_code(mod_code = \"12\")] enum E {{ #[error_code(code = 9999)] A, #[error_code(code = 4)] B, C }}\n{err}"), false) {
        c.violation("derive:refused", json!({"error": e}));
    }
    c.need("observed_values", 500);
    c.need("refused_types", 8);
}

fn main() {
    mon::main(&[("D01", d01)]);
}
