//! C19, C20: coercion of values and of variable values.
use super::exec::{fault, gen_sch, parse_doc, with_schema, MySchema};
use crate::ast::*;
use crate::coerce::{coerce, Fault, From};
use crate::engine::{CaseResult, Ctx, Prop};
use crate::gen_doc::{self, DOpts};
use crate::gen_schema;
use crate::gen_syn;
use crate::render;
use crate::schema::Schema;
use crate::src::Src;
use bluejay_core::definition::{ArgumentsDefinition, DirectiveDefinition, InputValueDefinition, SchemaDefinition as _};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::{ConstValue, Parse, VariableValue};
use bluejay_validator::executable::operation::{
    analyzers::{VariableValueError, VariableValuesAreValid},
    Orchestrator,
};
use bluejay_validator::executable::Cache;
use bluejay_validator::value::input_coercion::CoerceInput;
use serde_json::Value as Json;

/// input types of a schema, for building arbitrary types over
pub fn input_names(m: &Schema) -> Vec<String> {
    m.types.values().filter(|t| m.is_input(&t.name) && !t.name.starts_with("__")).map(|t| t.name.clone()).collect()
}

/// alters one place of a value
pub fn mangle(s: &mut Src, m: &Schema, v: &mut Val, konst: bool) {
    fn nodes(v: &Val) -> usize {
        1 + match v {
            Val::List(l) => l.iter().map(nodes).sum(),
            Val::Obj(o) => o.iter().map(|x| nodes(&x.1)).sum(),
            _ => 0,
        }
    }
    fn at(v: &mut Val, k: &mut usize, f: &mut dyn FnMut(&mut Val)) {
        if *k == 0 {
            f(v);
            *k = usize::MAX;
            return;
        }
        *k -= 1;
        match v {
            Val::List(l) => {
                for x in l {
                    if *k == usize::MAX {
                        return;
                    }
                    at(x, k, f)
                }
            }
            Val::Obj(o) => {
                for x in o {
                    if *k == usize::MAX {
                        return;
                    }
                    at(&mut x.1, k, f)
                }
            }
            _ => {}
        }
    }
    let mut k = s.below(nodes(v));
    at(v, &mut k, &mut |v| {
        let alt = |s: &mut Src| -> Val {
            match s.below(9) {
                0 => Val::Null,
                1 => Val::Int(1),
                2 => Val::Float(1.5),
                3 => Val::Str(s.pick(&["RED", "x", "bad", "on", "1", ""]).to_string()),
                4 => Val::Bool(true),
                5 => Val::Enum(s.pick(&["RED", "GREEN", "on", "type", "NOPE"]).to_string()),
                6 => Val::List(vec![]),
                7 => Val::Obj(vec![]),
                _ => {
                    if konst {
                        Val::Null
                    } else {
                        Val::Var("v".into())
                    }
                }
            }
        };
        match v {
            Val::Obj(o) if s.chance(4, 5) => match s.below(5) {
                0 if !o.is_empty() => {
                    let i = s.below(o.len());
                    o.remove(i);
                }
                1 if !o.is_empty() => {
                    let i = s.below(o.len());
                    let x = (o[i].0.clone(), if s.bool() { o[i].1.clone() } else { alt(s) });
                    let j = s.below(o.len() + 1);
                    o.insert(j, x);
                }
                2 if !o.is_empty() => {
                    let i = s.below(o.len());
                    o[i].0 = s.pick(&["nope", "a", "b", "A"]).to_string();
                }
                3 if !o.is_empty() => {
                    let i = s.below(o.len());
                    o[i].1 = alt(s);
                }
                _ => {
                    let names: Vec<String> = m.types.values().filter_map(|t| if let Kind::Input { fields } = &t.kind { Some(fields.iter().map(|f| f.name.clone())) } else { None }).flatten().chain(["nope".to_string()]).collect();
                    let n = s.pick(&names).clone();
                    o.push((n, alt(s)));
                }
            },
            Val::List(l) if s.chance(2, 3) => match s.below(3) {
                0 if !l.is_empty() => {
                    // unwrap
                    let x = l[0].clone();
                    *v = x;
                }
                1 => {
                    let x = alt(s);
                    let i = s.below(l.len() + 1);
                    l.insert(i, x);
                }
                _ => *v = Val::List(vec![v.clone()]),
            },
            v => {
                if s.chance(1, 3) {
                    *v = Val::List(vec![v.clone()])
                } else if s.chance(1, 6) {
                    *v = Val::List(vec![v.clone(), alt(s)])
                } else {
                    *v = alt(s)
                }
            }
        }
    });
}

pub fn some_value(s: &mut Src, m: &Schema, ty: &Ty, konst: bool) -> (Val, &'static str) {
    let mut fresh = |s: &mut Src, _: &Ty, _: bool| if !konst && s.chance(1, 10) { Some(Val::Var("v".into())) } else { None };
    let mut v = gen_schema::value(s, &m.types, ty, 3, true, false, &mut fresh);
    match s.weighted(&[3, 8, 1]) {
        0 => (v, "generated to conform"),
        1 => {
            let n = s.weighted(&[4, 2, 1]) + 1;
            for _ in 0..n {
                mangle(s, m, &mut v, konst);
            }
            (v, "corrupted")
        }
        _ => (gen_syn::val(s, konst, 3), "arbitrary"),
    }
}

/// what a JSON rendering of the value is: enums are strings, keys are unique (and ordered)
pub fn json(v: &Val) -> Json {
    match v {
        Val::Var(_) | Val::Null => Json::Null,
        Val::Int(i) => (*i).into(),
        Val::Float(f) => serde_json::Number::from_f64(*f).map(Json::Number).unwrap_or(Json::Null),
        Val::Str(s) | Val::Enum(s) => s.clone().into(),
        Val::Bool(b) => (*b).into(),
        Val::List(l) => l.iter().map(json).collect(),
        Val::Obj(o) => Json::Object(o.iter().map(|(k, v)| (k.clone(), json(v))).collect()),
    }
}

pub fn unjson(j: &Json) -> Val {
    match j {
        Json::Null => Val::Null,
        Json::Bool(b) => Val::Bool(*b),
        Json::Number(n) => match n.as_i64().and_then(|i| i32::try_from(i).ok()) {
            Some(i) => Val::Int(i),
            None => Val::Float(n.as_f64().unwrap_or(0.0)),
        },
        Json::String(s) => Val::Str(s.clone()),
        Json::Array(l) => Val::List(l.iter().map(unjson).collect()),
        Json::Object(o) => Val::Obj(o.iter().map(|(k, v)| (k.clone(), unjson(v))).collect()),
    }
}

fn cmp(label: &str, mut got: Vec<Fault>, mut want: Vec<Fault>) -> CaseResult {
    // objects with a repeated field: which of the values counts is left open
    let dups: Vec<String> = want.iter().filter(|f| f.1 == "Dup").map(|f| f.0.clone()).collect();
    let open = |f: &Fault| f.1 != "Dup" && dups.iter().any(|d| f.0 == *d || f.0.starts_with(&format!("{d}/")));
    got.retain(|f| !open(f));
    want.retain(|f| !open(f));
    got.sort();
    want.sort();
    got.dedup();
    want.dedup();
    if got == want {
        return Ok(());
    }
    let miss: Vec<_> = want.iter().filter(|f| !got.contains(f)).collect();
    let extra: Vec<_> = got.iter().filter(|f| !want.contains(f)).collect();
    Err(format!("faults differ: {label}: not reported {miss:?}, reported without cause {extra:?}"))
}

fn c19(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (mut sdl, m) = gen_sch(s);
    let names = input_names(&m);
    let base = if s.chance(2, 3) {
        let leaf = s.chance(1, 3);
        let l: Vec<&String> = names.iter().filter(|n| if leaf { m.user_types.contains(*n) && m.is_leaf(n) } else { matches!(m.kind(n), Some(Kind::Input { .. })) }).collect();
        if l.is_empty() {
            s.pick(&names).clone()
        } else {
            (*s.pick(&l)).clone()
        }
    } else {
        s.pick(&names).clone()
    };
    let ty = gen_schema::wrap(s, &base, (1, 3), (1, 3));
    sdl.defs.push(SDef::Directive(DirDef {
        desc: None,
        name: "probe".into(),
        args: vec![InputVal { desc: None, name: "p".into(), ty: ty.clone(), default: None, dirs: vec![] }],
        repeatable: false,
        locs: vec!["FIELD".into()],
    }));
    let konst = s.chance(1, 3);
    let (v, how) = some_value(s, &m, &ty, konst);
    let st = render::sdoc_text(&sdl);
    let vt = render::val_text(&v);
    ctx.show("schema", &st);
    ctx.show("value", &format!("{vt}\nfor {}", ty.show()));
    ctx.tag(how);
    ctx.nontrivial = matches!(v, Val::List(_) | Val::Obj(_)) || !matches!(ty, Ty::Named(_, false));
    let lit = coerce(&m, &ty, &v, From::Literal);
    let mut j = json(&v);
    let ids = base == "ID" || m.types.values().any(|t| matches!(&t.kind, Kind::Input { fields } if fields.iter().any(|f| f.ty.base() == "ID")));
    if !ids && s.chance(1, 6) && big(&mut j, *s.pick(&[i32::MAX as i64 + 1, i32::MIN as i64 - 1, 1 << 40, i64::MAX])) {
        ctx.tag("number beyond 32 bits");
        ctx.show("JSON", &j.to_string());
    }
    let jw = coerce(&m, &ty, &unjson(&j), From::Json);
    ctx.tag(if lit.is_empty() { "accepted" } else { "refused" });
    ctx.tag_if(lit.len() > 1, "several faults");
    for f in &lit {
        ctx.tag(f.1);
    }
    with_schema(&st, |sd: &MySchema| {
        let dd = sd.get_directive_definition("probe").unwrap();
        let t = dd.arguments_definition().unwrap().get("p").unwrap().r#type();
        let vv: VariableValue = VariableValue::parse(&vt).map_err(|_| "the value does not parse".to_string())?;
        if let Err(e) = &sd.coerce_value(t, &vv, Default::default()) {
            check_messages(e.iter().map(|e| e.message().into_owned()), e.is_empty())?;
        }
        cmp("literal", sd.coerce_value(t, &vv, Default::default()).err().into_iter().flatten().map(|e| fault(&e)).collect(), lit.clone())?;
        if konst {
            let cv: ConstValue = ConstValue::parse(&vt).map_err(|_| "the value does not parse".to_string())?;
            let got: Vec<Fault> = sd.coerce_const_value(t, &cv, Default::default()).err().into_iter().flatten().map(|e| fault(&e)).collect();
            cmp("constant literal", got, lit.clone())?;
        }
        let r = sd.coerce_const_value(t, &j, Default::default());
        if let Err(e) = &r {
            check_messages(e.iter().map(|e| e.message().into_owned()), e.is_empty())?;
        }
        cmp("JSON", r.err().into_iter().flatten().map(|e| fault(&e)).collect(), jw.clone())?;
        Ok(())
    })
}

/// makes the first number a large integer (whether an ID may be one is the service's choice)
fn big(j: &mut Json, n: i64) -> bool {
    match j {
        Json::Number(x) => {
            *x = n.into();
            true
        }
        Json::Array(l) => l.iter_mut().any(|x| big(x, n)),
        Json::Object(o) => o.values_mut().any(|x| big(x, n)),
        _ => false,
    }
}

fn check_messages(mut m: impl Iterator<Item = String>, none: bool) -> CaseResult {
    if none {
        return Err("refused without an error".into());
    }
    if m.any(|m| m.is_empty()) {
        return Err("an error without a message".into());
    }
    Ok(())
}

fn sorted(mut f: Vec<Fault>) -> Vec<Fault> {
    f.sort();
    f.dedup();
    f
}

fn c20(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (sdl, m) = gen_sch(s);
    let mut d = gen_doc::doc(s, &m, DOpts { introspection: false, ..Default::default() });
    let names = input_names(&m);
    for o in &mut d.ops {
        let n = s.weighted(&[1, 3, 3, 2]);
        for i in 0..n {
            let base = s.pick(&names).clone();
            let ty = gen_schema::wrap(s, &base, (1, 3), (1, 4));
            let default = if s.chance(1, 3) { Some(gen_schema::value(s, &m.types, &ty, 2, true, false, &mut gen_schema::no_var)) } else { None };
            o.vars.push(VarDef { name: format!("w{i}"), ty, default, dirs: vec![] });
        }
        o.short = false;
    }
    let i = s.below(d.ops.len());
    let op = d.ops[i].clone();
    let mut map = serde_json::Map::new();
    let mut want: Vec<(String, String)> = vec![];
    for v in &op.vars {
        if s.chance(1, 4) {
            if v.ty.is_req() && v.default.is_none() {
                want.push((v.name.clone(), "missing".into()));
            }
            continue;
        }
        let x = json(&some_value(s, &m, &v.ty, true).0);
        let f = sorted(coerce(&m, &v.ty, &unjson(&x), From::Json));
        if !f.is_empty() {
            want.push((v.name.clone(), format!("invalid {f:?}")));
        }
        map.insert(v.name.clone(), x);
    }
    let n = s.weighted(&[4, 2, 1]);
    for _ in 0..n {
        // names of other operations' variables included
        let all: Vec<String> = d.ops.iter().flat_map(|o| o.vars.iter().map(|v| v.name.clone())).chain(["extra".to_string(), "".to_string(), "$w0".to_string(), "W0".to_string()]).collect();
        let k = s.pick(&all).clone();
        if !map.contains_key(&k) && !op.vars.iter().any(|v| v.name == k) {
            let v = s.pick(&[Json::Null, Json::Bool(true), Json::from(3)]).clone();
            map.insert(k.clone(), v);
            want.push((k, "unused".into()));
        }
    }
    let st = render::sdoc_text(&sdl);
    let t = render::doc_text(&d);
    ctx.show("schema", &st);
    ctx.show("document", &t);
    ctx.show("operation and variable values", &format!("{:?} {}", op.name, Json::Object(map.clone())));
    ctx.nontrivial = !op.vars.is_empty();
    for w in &want {
        ctx.tag(match w.1.split(' ').next().unwrap() {
            "missing" => "missing value",
            "unused" => "undeclared value",
            _ => "value that does not coerce",
        });
    }
    ctx.tag_if(want.is_empty(), "no problem");
    let mut got: Vec<(String, String)> = with_schema(&st, |sd| {
        let doc = parse_doc(&t)?;
        let cache = Cache::new(&doc, sd);
        let out = Orchestrator::<ExecutableDocument, MySchema, _, VariableValuesAreValid<_, _, _>>::analyze(&doc, sd, op.name.as_deref(), &map, &cache, ()).map_err(|e| format!("operation not found: {}", e.message()))?;
        if out.iter().any(|e| e.message().is_empty()) {
            return Err("an error without a message".into());
        }
        Ok(out
            .iter()
            .map(|e| match e {
                VariableValueError::MissingValue { variable_definition } => (bluejay_core::executable::VariableDefinition::variable(*variable_definition).to_string(), "missing".to_string()),
                VariableValueError::InvalidValue { variable_definition, errors, .. } => (bluejay_core::executable::VariableDefinition::variable(*variable_definition).to_string(), format!("invalid {:?}", sorted(errors.iter().map(fault).collect()))),
                VariableValueError::UnusedValue { key, .. } => (key.to_string(), "unused".to_string()),
            })
            .collect())
    })?;
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("problems differ: reported {got:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            quick: 300_000,
            thorough: 6_000_000,
            rule: "the value is a list or object, or the type is a list or non-null; distinct = distinct (schema, type, value)",
            case: c19,
            assumptions: &["items of an explicit list are not wrapped implicitly (the library's documented choice)", "where an object repeats a field, the faults of its other content are left open"],
        },
        Prop {
            id: "C20",
            quick: 200_000,
            thorough: 4_000_000,
            rule: "the analysed operation declares a variable; distinct = distinct (schema, document, operation, variable values)",
            case: c20,
            assumptions: &["variable values are JSON objects"],
        },
    ]
}
