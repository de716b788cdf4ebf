//! C36: the work done on a document stays polynomial in its size. Documents are ladders of some
//! forty levels whose every level mentions the next one more than once, or nests the next one;
//! each is processed by a process of its own under a limit on CPU time and memory which is
//! hundreds of times what is needed.
use crate::engine::{listed, CaseResult, Ctx, Prop};
use crate::src::Src;
use bluejay_parser::ast::{
    definition::{DefaultContext, DefinitionDocument, SchemaDefinition},
    executable::ExecutableDocument,
    Parse,
};
use bluejay_validator::executable::{
    document::BuiltinRulesValidator,
    operation::{
        analyzers::{
            complexity_cost::{DefaultCostComputer, RelayCostComputer},
            ComplexityCost, Deprecation, InputSize, QueryDepth, VariableValuesAreValid,
        },
        Orchestrator,
    },
    Cache,
};
use bluejay_visibility as vis;
use serde_json::{json, Value as Json};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

const CPU_SECONDS: u64 = 30;
const MEMORY: u64 = 3 << 30;

// ---------------------------------------------------------------- the process under limits

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn clock() -> i64;
    fn setrlimit(resource: i32, r: *const RLimit) -> i32;
}

pub fn child() -> i32 {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    let j: Json = serde_json::from_str(&t).unwrap();
    // SIGXCPU when the time is up; no core files
    unsafe {
        setrlimit(0, &RLimit { cur: j["cpu"].as_u64().unwrap(), max: 2 * CPU_SECONDS });
        setrlimit(9, &RLimit { cur: MEMORY, max: MEMORY });
        setrlimit(4, &RLimit { cur: 0, max: 0 });
    }
    let h = std::thread::Builder::new().stack_size((j["stack"].as_u64().unwrap_or(512) as usize) << 20).spawn(move || run(&j)).unwrap();
    match h.join() {
        Ok(s) => {
            // the CPU time this process took, in milliseconds
            print!("{s}\n{}", unsafe { clock() } / 1000);
            0
        }
        Err(_) => 101,
    }
}

type Sd<'a> = SchemaDefinition<'a, DefaultContext>;

fn run(j: &Json) -> String {
    if let Some(t) = j["parse"].as_str() {
        return format!("{} {}", ExecutableDocument::parse(t).is_ok(), DefinitionDocument::<DefaultContext>::parse(t).is_ok());
    }
    let mut out = vec![];
    let text = |k: &str| j[k].as_str();
    let mut schema_texts = vec![];
    for k in ["sdl", "sdl2"] {
        let Some(t) = text(k) else { continue };
        match DefinitionDocument::<DefaultContext>::parse(t) {
            Ok(d) => schema_texts.push(d),
            Err(e) => out.push(format!("{k}: {} syntax errors", e.len())),
        }
    }
    let mut schemas: Vec<Sd> = vec![];
    for d in &schema_texts {
        match SchemaDefinition::try_from(d) {
            Ok(s) => schemas.push(s),
            Err(e) => out.push(format!("{} schema errors", bluejay_parser::Error::into_graphql_errors("", Vec::<bluejay_parser::Error>::from_iter(e.into_iter().map(Into::into))).len())),
        }
    }
    let flag = |k: &str| j[k].as_bool().unwrap_or(false);
    if flag("schema") {
        for s in &schemas {
            out.push(format!("definition errors {}", bluejay_validator::definition::BuiltinRulesValidator::validate(s).count()));
            out.push(format!("printed {}", bluejay_printer::definition::SchemaDefinitionPrinter::to_string(s).len()));
            let c = vis::Cache::new(vis::NullWarden::default(), s);
            match vis::SchemaDefinition::new(&c) {
                Ok(v) => out.push(format!("visible {}", bluejay_printer::definition::SchemaDefinitionPrinter::to_string(&v).len())),
                Err(_) => out.push("nothing visible".into()),
            }
        }
        if let [a, b] = &schemas[..] {
            out.push(format!("changes {}", bluejay_schema_comparator::compare(a, b).changes.len()));
        }
    }
    if let Some(t) = text("doc") {
        match ExecutableDocument::parse(t) {
            Err(e) => {
                let n = e.len();
                out.push(format!("doc: {n} syntax errors, {} reported", bluejay_parser::Error::into_graphql_errors(t, e).len()));
            }
            Ok(d) => {
                out.push(format!("printed {}", bluejay_printer::executable::ExecutableDocumentPrinter::to_string(&d).len()));
                if let Some(s) = schemas.first() {
                    let c = Cache::new(&d, s);
                    out.push(format!("errors {}", BuiltinRulesValidator::validate(&d, s, &c).count()));
                    if flag("analyze") {
                        let v = j["vars"].as_object().cloned().unwrap_or_default();
                        macro_rules! an {
                            ($t:ty, $x:expr) => {
                                Orchestrator::<_, _, _, $t>::analyze(&d, s, None, &v, &c, $x).is_ok()
                            };
                        }
                        out.push(format!(
                            "{} {} {} {} {} {}",
                            an!(QueryDepth, ()),
                            an!(ComplexityCost<_, _, _, DefaultCostComputer>, ()),
                            an!(ComplexityCost<_, _, _, RelayCostComputer<_, _, _>>, ()),
                            an!(InputSize<_, _>, 4),
                            an!(Deprecation<_, _, _>, ()),
                            an!(VariableValuesAreValid<_, _, _>, ()),
                        ));
                    }
                }
            }
        }
    }
    out.join("; ")
}

// ---------------------------------------------------------------- the process that watches

fn watch(j: Json, cpu: u64) -> Result<String, String> {
    watch_time(j, cpu).map(|r| r.0)
}

fn watch_time(mut j: Json, cpu: u64) -> Result<(String, u64), String> {
    j["cpu"] = json!(cpu);
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe).arg("--scale-child").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    c.stdin.take().unwrap().write_all(j.to_string().as_bytes()).expect("feed");
    let o = c.wait_with_output().expect("wait");
    let err = String::from_utf8_lossy(&o.stderr);
    match (o.status.code(), o.status.signal()) {
        (Some(0), _) => {
            let out = String::from_utf8_lossy(&o.stdout);
            let (out, ms) = out.rsplit_once('\n').expect("time");
            Ok((out.to_string(), ms.parse().expect("time")))
        }
        (_, Some(24)) => Err(format!("work explodes: not done after {cpu} s of CPU time")),
        (_, Some(6)) if err.contains("memory allocation") => Err("work explodes: not done within 3 GB of memory".into()),
        (_, Some(6 | 11)) if err.contains("overflowed its stack") => Err("stack overflow".into()),
        (Some(c), _) => Err(format!("the process failed with {c}: {err}")),
        (_, s) => Err(format!("the process was ended by signal {s:?}: {err}")),
    }
}

// ---------------------------------------------------------------- ladders of fragments

const SDL: &str = "type Query { q(x: Int): Query qs: [Query!]! i: I u: U t: T a(x: Int, y: [Int!]): Int b: Int }
interface I { q(x: Int): Query qs: [Query!]! i: I u: U t: T a(x: Int, y: [Int!]): Int b: Int }
type T implements I { q(x: Int): Query qs: [Query!]! i: I u: U t: T a(x: Int, y: [Int!]): Int b: Int }
type T2 implements I { q(x: Int): Query qs: [Query!]! i: I u: U t: T a(x: Int, y: [Int!]): Int b: Int @deprecated }
union U = T | T2 | Query";

/// one level: its text, with `@1`/`@2` standing for the names of the next levels
struct Level {
    on: &'static str,
    body: String,
    spreads: usize,
}

struct LOpts {
    args: bool,
    aliases: bool,
    conflicts: bool,
    invalid: bool,
    /// at most this many mentions of the next level
    max: usize,
}

fn can_spread(ty: &str, on: &str) -> bool {
    let poss = |t: &str| -> Vec<&str> {
        match t {
            "I" => vec!["T", "T2"],
            "U" => vec!["T", "T2", "Query"],
            "T" => vec!["T"],
            "T2" => vec!["T2"],
            _ => vec!["Query"],
        }
    };
    poss(ty).iter().any(|t| poss(on).contains(t))
}

/// selections on a type; `next` is what the next level is on
fn sels(s: &mut Src, ty: &str, next: &str, o: &LOpts, depth: usize, left: &mut usize, out: &mut String) {
    let n = s.range(1, 3);
    for _ in 0..n {
        let fits = can_spread(ty, next) || (o.invalid && s.chance(1, 10));
        match s.weighted(&[if *left > 0 && fits { 8 } else { 0 }, 3, if depth > 0 { 6 } else { 0 }, if depth > 0 { 3 } else { 0 }]) {
            0 => {
                *left -= 1;
                out.push_str(if s.chance(1, 6) { "...@2 " } else { "...@1 " });
            }
            1 => {
                if ty == "U" {
                    out.push_str("__typename ");
                } else {
                    if o.aliases && s.chance(1, 3) {
                        out.push_str(*s.pick(&["x: ", "y: ", "b: "]));
                    }
                    let f = if o.conflicts { *s.pick(&["a", "b", "a(x: 1)"]) } else { "a" };
                    out.push_str(if o.args && s.bool() { "a(x: $v)" } else { f });
                    out.push(' ');
                }
            }
            2 if ty != "U" => {
                let f = *s.pick(&["q", "qs", "i", "u", "t"]);
                if o.aliases && s.chance(1, 3) {
                    let same = *s.pick(&["p", "r"]);
                    out.push_str(&format!("{same}{f}: "));
                }
                out.push_str(f);
                if o.args && f == "q" && s.chance(1, 3) {
                    out.push_str("(x: $v)");
                }
                out.push_str(" { ");
                sels(s, match f { "q" | "qs" => "Query", "i" => "I", "u" => "U", _ => "T" }, next, o, depth - 1, left, out);
                out.push_str("} ");
            }
            2 | 3 => {
                let on = *s.pick(&["Query", "I", "U", "T", "T2"]);
                let on = if can_spread(ty, on) || (o.invalid && s.chance(1, 10)) { on } else { ty };
                if on == ty && s.bool() {
                    out.push_str("... { ");
                } else {
                    out.push_str(&format!("... on {on} {{ "));
                }
                sels(s, on, next, o, depth - 1, left, out);
                out.push_str("} ");
            }
            _ => {}
        }
    }
}

/// a document of fragments, each mentioning the next ones
fn ladder(s: &mut Src, ctx: &mut Ctx, max: usize, n: usize) -> String {
    let o = LOpts { args: s.chance(1, 3), aliases: s.bool(), conflicts: s.chance(1, 4), invalid: s.chance(1, 4), max };
    let towers = if s.chance(1, 4) { 2 } else { 1 };
    ctx.tag_if(towers == 2, "two ladders side by side");
    let kinds = s.range(1, 3);
    let ons: Vec<&'static str> = (0..kinds).map(|_| *s.pick(&["Query", "I", "T", "U"])).collect();
    let mut levels: Vec<Level> = vec![];
    for i in 0..kinds {
        let next = ons[(i + 1) % kinds];
        let mut body = String::new();
        let want = if o.max == 1 { 1 } else { s.range(2, o.max) };
        let mut left = want;
        sels(s, ons[i], next, &o, 2, &mut left, &mut body);
        // what was not placed goes to the end
        while left > 0 {
            left -= 1;
            let w = match next {
                "Query" => ("q", "Query"),
                "I" => ("i", "I"),
                "U" => ("u", "U"),
                _ => ("t", "T"),
            };
            let _ = w.1;
            if ons[i] == "U" {
                body.push_str(&format!("... on T {{ {} {{ ...@1 }} }} ", w.0));
            } else {
                body.push_str(&format!("{} {{ ...@1 }} ", w.0));
            }
        }
        levels.push(Level { on: ons[i], body, spreads: want });
    }
    ctx.tag_if(levels.iter().any(|l| l.spreads > 1), "a level mentions the next more than once");
    let end = s.weighted(&[6, 2, 1]);
    ctx.tag(["ends with a leaf", "ends in a cycle", "ends with an undefined fragment"][end]);
    let mut parts = vec![];
    let mut heads = String::new();
    for tower in 0..towers {
        let name = |i: usize| format!("{}{i}", ["F", "G"][tower]);
        for i in 0..n {
            let l = &levels[i % kinds];
            let cap = |k: usize| name((i + k).min(n));
            let mut b = l.body.replace("@1", &cap(1));
            // two levels on may be on another type; keep to the one the level was written for
            let skip = if (i + 1 + kinds) <= n && kinds > 0 { 1 + kinds } else { 1 };
            b = b.replace("@2", &cap(skip));
            parts.push(format!("fragment {} on {} {{ {b}}}", name(i), l.on));
        }
        let on = levels[n % kinds].on;
        let leaf = if on == "U" { "__typename".to_string() } else if tower == 1 && s.chance(1, 3) { "a: b".into() } else { "a".into() };
        match end {
            0 => parts.push(format!("fragment {} on {on} {{ {leaf} }}", name(n))),
            1 => {
                let back = s.below(n);
                parts.push(format!("fragment {} on {on} {{ {leaf} ...{} }}", name(n), name(back)));
            }
            _ => {}
        }
        let top = match levels[0].on {
            "Query" => "q",
            "I" => "i",
            "U" => "u",
            _ => "t",
        };
        let times = if max == 1 { 1 } else { s.range(1, 2) };
        for _ in 0..times {
            heads.push_str(&format!("{top} {{ ...{} }} ", name(0)));
        }
    }
    let v = if o.args { "($v: Int)" } else { "" };
    let ops = if max > 1 && s.chance(1, 5) { 3 } else { 1 };
    ctx.tag_if(ops > 1, "several operations");
    for k in 0..ops {
        parts.push(format!("query O{k}{v} {{ {heads}}}"));
    }
    if s.bool() {
        parts.reverse();
    }
    if s.chance(1, 3) {
        s.shuffle(&mut parts);
    }
    parts.join("\n")
}

// ---------------------------------------------------------------- nesting in one text

fn nested_sels(s: &mut Src, n: usize) -> String {
    let mut ty = *s.pick(&["Query", "I", "T", "U"]);
    let leaf = |t: &str| if t == "U" { "__typename" } else { "a" };
    let mut t = leaf(ty).to_string();
    for _ in 0..n {
        // wrap a set of selections on `ty` into one on `outer`
        let outer = *s.pick(&["Query", "I", "T", "U"]);
        let field = match ty {
            "Query" => *s.pick(&["q", "qs"]),
            "I" => "i",
            "U" => "u",
            _ => "t",
        };
        let small = leaf(ty);
        let (times, after) = (s.below(3), s.bool());
        let mut w = String::new();
        let piece = match s.below(4) {
            0 => format!("{field} {{ {t} }} "),
            1 => format!("{field} {{ ... {{ {t} }} }} "),
            2 => format!("{field} {{ ... on {ty} {{ {t} }} {small} }} "),
            _ => format!("k: {field} {{ {t} }} "),
        };
        if after {
            w.push_str(&piece);
        }
        for _ in 0..times {
            w.push_str(&format!("{field} {{ {small} }} "));
        }
        if !after {
            w.push_str(&piece);
        }
        if outer == "U" {
            w = format!("... on {} {{ {w} }} ", s.pick(&["T", "T2", "I", "Query"]));
        }
        t = w;
        ty = outer;
    }
    match ty {
        "Query" => format!("{{ {t} }}"),
        "I" => format!("{{ i {{ {t} }} }}"),
        "U" => format!("{{ u {{ {t} }} }}"),
        _ => format!("{{ t {{ {t} }} }}"),
    }
}

/// a value nested to the given depth, each level with a few small companions
fn nested_value(s: &mut Src, n: usize, json: bool) -> String {
    let mut t = "1".to_string();
    let key = |k: &str| if json { format!("\"{k}\"") } else { k.to_string() };
    for _ in 0..n {
        t = match s.below(4) {
            0 => format!("{{{}: {t}}}", key("a")),
            1 => format!("{{{}: 1, {}: [{t}]}}", key("n"), key("l")),
            2 => format!("{{{}: {t}, {}: {{{}: 2}}, {}: [{{}}, {{{}: 3}}]}}", key("b"), key("a"), key("n"), key("l"), key("n")),
            _ => format!("{{{}: [{{}}, {t}]}}", key("l")),
        }
    }
    // the innermost is a number where an object may be due: wrap it as the field n
    t
}

// ---------------------------------------------------------------- ladders of types

fn type_ladder(s: &mut Src, n: usize, change: bool) -> String {
    let mut t = String::new();
    let kinds = s.range(1, 3);
    let bodies: Vec<(usize, usize)> = (0..kinds).map(|_| (s.range(2, 4), s.below(4))).collect();
    let req = |s: &mut Src| *s.pick(&["", "!", "", ""]);
    let marks: Vec<String> = (0..8).map(|_| req(s).to_string()).collect();
    let cyc = s.chance(1, 3);
    let back = s.below(n);
    for i in 0..n {
        let (k, mode) = bodies[i % kinds];
        let m = |x: usize| marks[x % marks.len()].as_str();
        // input objects
        t.push_str(&format!("input N{i} {{ "));
        for f in 0..k {
            let r = if cyc { "" } else { m(f) };
            match (f + mode) % 3 {
                0 => t.push_str(&format!("f{f}: N{}{r} ", i + 1)),
                1 => t.push_str(&format!("f{f}: N{}! ", i + 1)),
                _ => t.push_str(&format!("f{f}: [N{}!]{r} ", i + 1)),
            }
        }
        t.push_str("}\n");
        // output types: interfaces, objects, unions
        t.push_str(&format!("interface J{i} {{ "));
        for f in 0..k {
            t.push_str(&format!("j{f}(x: N{i}): J{}{} ", i + 1, m(f)));
        }
        t.push_str(&format!("}}\ntype P{i} implements J{i} {{ "));
        for f in 0..k {
            t.push_str(&format!("j{f}(x: N{i}): J{}{} p{f}: P{} ", i + 1, m(f), i + 1));
        }
        t.push_str(&format!("w: W{} }}\nunion W{i} = P{i} | P{}\n", i + 1, i + 1));
        t.push_str(&format!("directive @d{i}(x: N{i}) repeatable on FIELD_DEFINITION\n"));
    }
    let e = if change { "b" } else { "a" };
    let (nn, jj) = if cyc { (format!("N{back}"), format!("J{back}")) } else { ("Int".into(), "Int".into()) };
    let bang = if cyc && s.bool() { "!" } else { "" };
    t.push_str(&format!("input N{n} {{ {e}: {nn}{bang} }}\ninterface J{n} {{ {e}: {jj} }}\ntype P{n} implements J{n} {{ {e}: {jj} }}\nunion W{n} = P{n}\n"));
    t.push_str("type Query { j: J0 p(n: N0): P0 w: W0 }\n");
    t
}

// ---------------------------------------------------------------- texts for the parsers

fn syntax_text(s: &mut Src, n: usize) -> String {
    let open = ["{", "[", "(", "{ a ", "{ a: ", "[1 ", "(a: ", "... on T {", "a {", "@d(x: ", "\"\"\"", "\"", "$", "... ", "#"];
    let close = ["}", "]", ")", "} a", ", ]", ":) ", "\"\"\" ", "\"", "\n", "!"];
    let starts = ["query ", "fragment F on T ", "{ a(x: ", "query ($v: ", "type T ", "input I { a: ", "enum E ", "directive @d(", "schema ", "union U = ", "", "subscription S @a(b: "];
    let mut t = s.pick(&starts).to_string();
    let (a, b) = (s.range(1, 3), s.range(0, 3));
    let up: Vec<&str> = (0..a).map(|_| *s.pick(&open)).collect();
    let down: Vec<&str> = (0..b).map(|_| *s.pick(&close)).collect();
    for i in 0..n {
        t.push_str(up[i % a]);
    }
    t.push_str(*s.pick(&["", "1", "a", "a: b", "\\", "T"]));
    if b > 0 {
        let m = if s.bool() { n } else { s.below(2 * n) };
        for i in 0..m {
            t.push_str(down[i % b]);
        }
    }
    let times = s.weighted(&[4, 1, 1]);
    for _ in 0..times {
        let c = t.clone();
        t.push('\n');
        t.push_str(&c);
    }
    t
}

fn long_token(s: &mut Src) -> String {
    let n = 20_000;
    let (a, b): (&str, &str) = *s.pick(&[("\"", "\""), ("\"\"\"", "\"\"\""), ("#", "\n"), ("", ""), ("\"", ""), ("\"\"\"", ""), ("-", "e"), ("1.", "")]);
    let k = s.range(1, 3);
    let pieces: Vec<&str> = (0..k).map(|_| *s.pick(&["a", " ", "\n", "\\\"", "\\u0041", "\\", "\"", "\\\"\"\"", "\n    ", "\t", "é", "0", "_", "\r\n", ",", "..", "\u{feff}", "\u{1f600}"])).collect();
    let mut t = format!("{{ f(x: {a}");
    for i in 0..n {
        t.push_str(pieces[i % k]);
    }
    t.push_str(b);
    t.push_str(") }");
    t
}

// ---------------------------------------------------------------- deep nesting (part of C01)

/// what a parser that recurses must survive on an ordinary stack, and what it need not
pub fn deep(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (what, pre, open, mid, close, post, ok) = *s.pick(&[
        ("lists", "{f(x:", "[", "1", "]", ")}", "true false"),
        ("objects", "{f(x:", "{a:", "1", "}", ")}", "true false"),
        ("lists and objects", "{f(x:", "[{a:", "1", "}]", ")}", "true false"),
        ("selections", "", "{a", "", "}", "", "true false"),
        ("inline fragments", "{", "...{", "a", "}", "}", "true false"),
        ("variable types", "query($x:", "[", "A", "]", "){a}", "true false"),
        ("field types", "type A{a:", "[", "A", "]", "}", "false true"),
        ("default values", "input A{a:A=", "{a:[", "1", "]}", "}", "false true"),
    ]);
    let deep = s.chance(1, 3);
    let n = if deep { 200_000 } else { s.range(150, 300) };
    let closed = s.chance(2, 3);
    let t = if closed { format!("{pre}{}{mid}{}{post}", open.repeat(n), close.repeat(n)) } else { format!("{pre}{}", open.repeat(n)) };
    ctx.tag(if deep { "nested 200000 deep" } else { "nested some 200 deep" });
    ctx.show("text", &format!("{what}, {n} deep, {}", if closed { "closed" } else { "not closed" }));
    ctx.nontrivial = true;
    let r = watch(json!({"parse": t, "stack": 8}), CPU_SECONDS);
    match r {
        Ok(o) if o == if closed { ok } else { "false false" } => Ok(()),
        Ok(o) => Err(format!("nested text: {o}")),
        Err(e) if deep && e == "stack overflow" => {
            ctx.known("deep-nesting", "text nested hundreds of thousands deep overflows the stack and ends the process".into());
            Ok(())
        }
        Err(e) => Err(format!("nested text: {e}")),
    }
}

// ---------------------------------------------------------------- the property

fn case(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let kind = s.weighted(&[200, 30, 40, 40, 60, 30, 20, 1]);
    let n = s.range(30, 45);
    let mut j = json!({});
    match kind {
        0 => {
            ctx.tag("fragments that spread the next ones repeatedly");
            j["sdl"] = json!(SDL);
            let max = s.range(2, 4);
            j["doc"] = json!(ladder(s, ctx, max, n));
        }
        1 => {
            ctx.tag("fragments that spread the next one, analysed");
            j["sdl"] = json!(SDL);
            j["doc"] = json!(ladder(s, ctx, 1, n));
            j["analyze"] = json!(true);
        }
        2 => {
            ctx.tag("nested selections, analysed");
            j["sdl"] = json!(SDL);
            j["doc"] = json!(nested_sels(s, n));
            j["analyze"] = json!(true);
        }
        3 => {
            ctx.tag("nested values, analysed");
            let bang = *s.pick(&["", "!"]);
            let d = if bang.is_empty() { *s.pick(&["", " = []", " = [{}, {n: 1}]", " = {n: 2}"]) } else { "" };
            j["sdl"] = json!(format!("type Query {{ f(x: N, y: [N]): Int }} input N {{ n: Int a: N b: N l: [N{bang}]{d} }}"));
            let v = s.bool();
            j["doc"] = json!(if v { "query($x: N, $y: [N]) { f(x: $x, y: $y) }".to_string() } else { format!("{{ f(x: {}, y: {}) }}", nested_value(s, n, false), nested_value(s, n, false)) });
            if v {
                let a: Json = serde_json::from_str(&nested_value(s, n, true)).unwrap();
                let b: Json = serde_json::from_str(&nested_value(s, n, true)).unwrap();
                j["vars"] = json!({"x": a, "y": b});
            }
            j["analyze"] = json!(true);
        }
        4 => {
            ctx.tag("types that refer to the next ones repeatedly");
            j["sdl"] = json!(type_ladder(s, n, false));
            j["sdl2"] = json!(type_ladder(s, n, true));
            j["schema"] = json!(true);
            j["doc"] = json!(format!("query($n: N0 = {}) {{ p(n: $n) {{ __typename }} }}", nested_value(s, 20, false)));
        }
        5 => {
            ctx.tag("brackets of the parsers");
            let t = syntax_text(s, 20 * n);
            j["doc"] = json!(t);
            j["sdl"] = json!(t);
        }
        6 => {
            ctx.tag("long tokens");
            let t = long_token(s);
            j["doc"] = json!(t);
            j["sdl"] = json!(t);
        }
        _ => {
            ctx.tag("fragments that spread the next ones repeatedly, analysed");
            j["sdl"] = json!(SDL);
            j["doc"] = json!(ladder(s, ctx, 2, n));
            j["analyze"] = json!(true);
            let d = j.clone();
            // validation alone stays within its limits
            j.as_object_mut().unwrap().remove("analyze");
            watch(j, CPU_SECONDS)?;
            ctx.nontrivial = true;
            ctx.show("document", d["doc"].as_str().unwrap());
            if listed("C36", "analysis-expands-fragments") {
                if watch(d, 2).is_err() {
                    ctx.known("analysis-expands-fragments", "analysing an operation visits every path through its fragments".into());
                }
            } else {
                watch(d, CPU_SECONDS)?;
            }
            return Ok(());
        }
    }
    for k in ["sdl", "sdl2", "doc"] {
        if let Some(t) = j[k].as_str() {
            let t: String = t.chars().take(2500).collect();
            ctx.show(k, &t);
        }
    }
    let (out, ms) = watch_time(j, CPU_SECONDS)?;
    ctx.tag(match ms {
        0..=99 => "below 0.1 s of CPU time",
        100..=499 => "0.1 to 0.5 s of CPU time",
        500..=1999 => "0.5 to 2 s of CPU time",
        _ => "more than 2 s of CPU time",
    });
    ctx.show("outcome", &out);
    ctx.tag_if(out.contains("errors 0"), "valid");
    ctx.nontrivial = kind != 6 && kind != 5 || out.contains("syntax errors");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C36",
        quick: 4000,
        thorough: 60_000,
        rule: "the document has 30 levels or more (fragments, selections, values or types) that mention the next level, or is a text of nested brackets or one long token that the parser refuses",
        case,
        assumptions: &["30 s of CPU time and 3 GB of memory are far above what any of the documents needs when work is polynomial (most take milliseconds, the worst 1 to 2 s)", "documents of 30-45 levels"],
    }]
}
