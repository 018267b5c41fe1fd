//! Test driver: runs the repository's library on requests read from standard input.
//!
//! One JSON request per line, one JSON answer per line. Operations:
//!   gen     run code generation through one of the library's entry points
//!   opts    parse an options block and report the resulting options
//!   ast     extract the declarations of generated Rust code
//!   par     run several gen requests at the same time from several threads
//!   pump    as gen, the texts made of repeated pieces, with a stack of a given size
//!   start   begin a gen request in a thread of its own; wait: its answer
//! A panic of the code under test is caught and reported as data.

mod ast;

use json_typegen_shared as jt;
use serde_json::{Map, Value, json};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::thread::JoinHandle;

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}

fn apply(options: &mut jt::Options, o: &Map<String, Value>) -> Result<(), String> {
    for (k, v) in o {
        let st = v.as_str().unwrap_or("").to_string();
        match k.as_str() {
            "output_mode" => {
                options.output_mode = jt::OutputMode::parse(&st).ok_or(format!("drv: mode {}", st))?
            }
            "import_style" => {
                options.import_style =
                    jt::ImportStyle::parse(&st).ok_or(format!("drv: import style {}", st))?
            }
            "property_name_format" => {
                options.property_name_format =
                    if v.is_null() { None } else { Some(jt::StringTransform::parse(&st).ok_or(format!("drv: format {}", st))?) }
            }
            "type_visibility" => options.type_visibility = st,
            "field_visibility" => {
                options.field_visibility = if v.is_null() { None } else { Some(st) }
            }
            "derives" => options.derives = st,
            "unwrap" => options.unwrap = st,
            "collect_additional" => options.collect_additional = v.as_bool().unwrap(),
            "deny_unknown_fields" => options.deny_unknown_fields = v.as_bool().unwrap(),
            "use_default_for_missing_fields" => {
                options.use_default_for_missing_fields = v.as_bool().unwrap()
            }
            "infer_map_threshold" => {
                options.infer_map_threshold = v.as_u64().map(|n| n as usize)
            }
            _ => return Err(format!("drv: unknown option {}", k)),
        }
    }
    Ok(())
}

fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2)
        .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

fn error_text(e: &dyn std::error::Error) -> String {
    jt::internal_util::display_error_with_causes(e)
}

fn shape(v: &Value) -> jt::Shape {
    use jt::Shape::*;
    let e = || Box::new(shape(&v["e"]));
    match s(v, "k") {
        "bottom" => Bottom,
        "any" => Any,
        "bool" => Bool,
        "string" => StringT,
        "integer" => Integer,
        "floating" => Floating,
        "null" => Null,
        "vec" => VecT { elem_type: e() },
        "map" => MapT { val_type: e() },
        "tuple" => Tuple(
            v["es"].as_array().unwrap().iter().map(shape).collect(),
            v["c"].as_u64().unwrap_or(1),
        ),
        "optional" => Optional(e()),
        "nullable" => Nullable(e()),
        "opaque" => Opaque(s(v, "n").to_string()),
        "struct" => Struct {
            fields: v["f"]
                .as_array()
                .unwrap()
                .iter()
                .map(|f| (s(f, "n").to_string(), shape(&f["s"])))
                .collect(),
        },
        k => panic!("drv: no shape {}", k),
    }
}

fn gen_inner(r: &Value) -> Value {
    // "hex": the bytes of the sample, put into a scratch file whose path becomes the input
    let path;
    let input = match r.get("hex").and_then(|h| h.as_str()) {
        Some(h) => {
            path = s(r, "path").to_string();
            std::fs::write(&path, unhex(h)).unwrap();
            path.as_str()
        }
        None => s(r, "input"),
    };
    let res = match s(r, "via") {
        "macro" => jt::codegen_from_macro(input),
        "macro_input" => jt::codegen_from_macro_input(input),
        via => {
            let mut options = match r.get("block").and_then(|b| b.as_str()) {
                Some(block) => match jt::parse::options(block) {
                    Ok(o) => o,
                    Err(e) => return json!({"err": e, "stage": "options"}),
                },
                None => jt::Options::default(),
            };
            if let Some(o) = r.get("opts").and_then(|o| o.as_object()) {
                if let Err(e) = apply(&mut options, o) {
                    // a value that the library does not know is its answer
                    return if e.starts_with("drv: unknown option") { json!({ "drv": e }) } else { json!({"err": e, "stage": "options"}) };
                }
            }
            if via == "shape" {
                jt::codegen_from_shape(s(r, "name"), &shape(&r["shape"]), options)
            } else {
                jt::codegen(s(r, "name"), input, options)
            }
        }
    };
    match res {
        Ok(code) => {
            let mut out = json!({ "ok": code });
            if r.get("ast").and_then(|a| a.as_bool()) == Some(true) {
                out["ast"] = ast::extract(&code);
            }
            out
        }
        Err(e) => json!({"err": error_text(&e), "stage": "run"}),
    }
}

fn guarded(f: impl FnOnce() -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({ "panic": m })
        }
    }
}

fn options_json(o: &jt::Options) -> Value {
    json!({
        "output_mode": format!("{:?}", o.output_mode),
        "input_mode": format!("{:?}", o.input_mode),
        "use_default_for_missing_fields": o.use_default_for_missing_fields,
        "deny_unknown_fields": o.deny_unknown_fields,
        "type_visibility": o.type_visibility,
        "field_visibility": o.field_visibility,
        "derives": o.derives,
        "property_name_format": o.property_name_format.as_ref().map(|f| format!("{:?}", f)),
        "unwrap": o.unwrap,
        "import_style": format!("{:?}", o.import_style),
        "collect_additional": o.collect_additional,
        "infer_map_threshold": o.infer_map_threshold.map(|n| n.to_string()),
        "debug": format!("{:?}", o),
    })
}

fn opts(r: &Value) -> Value {
    let text = s(r, "block");
    let macro_answer = |m: Result<jt::parse::MacroInput, String>| match m {
        Err(e) => json!({ "err": e }),
        Ok(m) => json!({"ok": options_json(&m.options), "name": m.name, "sample": m.sample_source}),
    };
    match s(r, "via") {
        "macro" => macro_answer(jt::parse::full_macro(text)),
        "macro_input" => macro_answer(jt::parse::macro_input(text)),
        _ => match jt::parse::options(text) {
            Err(e) => json!({ "err": e }),
            Ok(o) => json!({ "ok": options_json(&o) }),
        },
    }
}

fn par(r: &Value) -> Value {
    let reqs = r["reqs"].as_array().unwrap().clone();
    let n = r["threads"].as_u64().unwrap() as usize;
    let mut results: Vec<Vec<Value>> = Vec::new();
    std::thread::scope(|scope| {
        let handles: Vec<_> = (0..n)
            .map(|t| {
                let reqs = &reqs;
                scope.spawn(move || {
                    (0..reqs.len())
                        .map(|i| {
                            // every thread starts at another request
                            let j = (i * (t + 1) + t * 7) % reqs.len();
                            json!({"i": j, "r": guarded(|| gen_inner(&reqs[j]))})
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        results = handles.into_iter().map(|h| h.join().unwrap()).collect();
    });
    json!({ "par": results })
}

/// Pieces [[text, times], ...] put together; a plain string is itself.
fn pieces(v: &Value) -> Value {
    match v.as_array() {
        None => v.clone(),
        Some(ps) => json!(
            ps.iter()
                .map(|p| match p.as_array() {
                    Some(a) => a[0].as_str().unwrap().repeat(a[1].as_u64().unwrap() as usize),
                    None => p.as_str().unwrap().to_string(),
                })
                .collect::<String>()
        ),
    }
}

/// A request with texts made of pieces, in a thread with a stack of the given size; the answer is cut short.
fn pump(r: &Value) -> Value {
    let mut q = r.clone();
    for k in ["name", "input", "block"] {
        if r.get(k).is_some() {
            q[k] = pieces(&r[k]);
        }
    }
    if let Some(o) = q.get_mut("opts").and_then(|o| o.as_object_mut()) {
        for (_, v) in o.iter_mut() {
            if v.is_array() {
                *v = pieces(v);
            }
        }
    }
    if let Some(times) = r.get("nest").and_then(|n| n.as_u64()) {
        // the shape "nest" times inside of the frame, whose hole is {"k": "hole"}
        q["shape"] = Value::Null;
        let frame = r["frame"].clone();
        let leaf = r["shape"].clone();
        let run = move || {
            let mut options = jt::Options::default();
            if let Some(o) = q.get("opts").and_then(|o| o.as_object()) {
                if let Err(e) = apply(&mut options, o) {
                    // a value that the library does not know is its answer
                    return if e.starts_with("drv: unknown option") { json!({ "drv": e }) } else { json!({"err": e, "stage": "options"}) };
                }
            }
            let mut sh = shape(&leaf);
            for _ in 0..times {
                sh = fill(&frame, sh);
            }
            match jt::codegen_from_shape(s(&q, "name"), &sh, options) {
                Ok(code) => json!({ "ok": code }),
                Err(e) => json!({"err": error_text(&e)}),
            }
        };
        return in_thread(r, run);
    }
    if s(r, "op2") == "sqlparser" {
        // the SQL parser alone, for telling its failures from those of the repository
        return in_thread(r, move || {
            match sqlparser::parser::Parser::parse_sql(&sqlparser::dialect::GenericDialect {}, s(&q, "input")) {
                Ok(_) => json!({"ok": ""}),
                Err(e) => json!({"err": e.to_string()}),
            }
        });
    }
    if s(r, "op2") == "opts" {
        return in_thread(r, move || opts(&q));
    }
    in_thread(r, move || gen_inner(&q))
}

fn fill(frame: &Value, hole: jt::Shape) -> jt::Shape {
    let mut h = Some(hole);
    fn go(f: &Value, h: &mut Option<jt::Shape>) -> jt::Shape {
        use jt::Shape::*;
        match s(f, "k") {
            "hole" => h.take().unwrap(),
            "vec" => VecT { elem_type: Box::new(go(&f["e"], h)) },
            "map" => MapT { val_type: Box::new(go(&f["e"], h)) },
            "optional" => Optional(Box::new(go(&f["e"], h))),
            "nullable" => Nullable(Box::new(go(&f["e"], h))),
            "tuple" => Tuple(f["es"].as_array().unwrap().iter().map(|e| go(e, h)).collect(), 1),
            "struct" => Struct {
                fields: f["f"].as_array().unwrap().iter().map(|m| (s(m, "n").to_string(), go(&m["s"], h))).collect(),
            },
            _ => shape(f),
        }
    }
    go(frame, &mut h)
}

fn in_thread(r: &Value, f: impl FnOnce() -> Value + Send + 'static) -> Value {
    let stack = r["stack"].as_u64().unwrap_or(8 << 20) as usize;
    let start = std::time::Instant::now();
    let mut v = std::thread::Builder::new().stack_size(stack).spawn(move || guarded(f)).unwrap().join().unwrap();
    for k in ["ok", "err"] {
        if let Some(t) = v.get(k).and_then(|t| t.as_str()) {
            let n = t.len();
            let cut: String = t.chars().take(300).collect();
            v[k] = json!(cut);
            v["length"] = json!(n);
        }
    }
    v["ms"] = json!(start.elapsed().as_millis() as u64);
    v
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut started: HashMap<u64, JoinHandle<Value>> = HashMap::new();
    for line in stdin.lock().lines() {
        let r: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let slot = r["slot"].as_u64().unwrap_or(0);
        let mut out = guarded(|| match s(&r, "op") {
            "start" => {
                let req = r["req"].clone();
                started.insert(slot, std::thread::spawn(move || guarded(|| gen_inner(&req))));
                json!({})
            }
            "wait" => started.remove(&slot).unwrap().join().unwrap(),
            "gen" => gen_inner(&r),
            "opts" => opts(&r),
            "ast" => json!({"ast": ast::extract(s(&r, "code"))}),
            "par" => par(&r),
            "pump" => pump(&r),
            op => json!({"drv": format!("unknown op {}", op)}),
        });
        out["id"] = r["id"].clone();
        let mut w = stdout.lock();
        writeln!(w, "{}", out).unwrap();
        w.flush().unwrap();
    }
}
