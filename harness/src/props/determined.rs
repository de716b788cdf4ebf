//! C37: the same input gives the same result, in the same order. Everything is done several times
//! over from the text on, with fresh hash tables, other addresses and other questions in between.
use super::analysis as an;
use super::exec::{self, parse_doc, tidy, with_schema, MySchema};
use super::syntax::{any_text, err_text, parse_def, parse_exec};
use super::{comparator, schema as ps, visibility as pv};
use crate::engine::{CaseResult, Ctx, Prop};
use crate::gen_doc::{self, DOpts};
use crate::render;
use crate::schema::Schema;
use crate::refop::Tariff;
use crate::src::Src;
use crate::tangle;
use crate::view::view;
use bluejay_core::definition::SchemaDefinition as CoreSchema;
use bluejay_parser::ast::definition::SchemaDefinition;
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::Error;
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_printer::executable::ExecutableDocumentPrinter;
use bluejay_validator::executable::document::BuiltinRulesValidator;
use bluejay_validator::executable::operation::{
    analyzers::{Deprecation, InputSize, VariableValuesAreValid},
    Orchestrator,
};
use bluejay_validator::executable::Cache;
use serde_json::{Map, Value as Json};

/// what is compared: labelled lists
type Report = Vec<(&'static str, Vec<String>)>;

fn errors(t: &str, e: impl Fn() -> Vec<Error>) -> Vec<String> {
    let mut l: Vec<String> = e().into_iter().map(|e| err_text(t, vec![e])).collect();
    if let Some(x) = l.last_mut() {
        // the report goes with the last
        x.push_str(&format!("\n{}", Error::format_errors(t, None, e())));
    }
    l
}

fn lines(t: &str) -> Vec<String> {
    t.lines().map(Into::into).collect()
}

fn texts(t: &str, compat: bool) -> Report {
    let mut r = vec![];
    match parse_exec(t, compat) {
        Ok(d) => r.push(("printed document", lines(&ExecutableDocumentPrinter::to_string(&d)))),
        Err(_) => r.push(("errors of the document", errors(t, || parse_exec(t, compat).err().unwrap()))),
    }
    match parse_def(t, compat) {
        Ok(d) => match SchemaDefinition::try_from(&d) {
            Ok(s) => r.extend(one_schema(t, &s)),
            Err(e) => {
                r.push(("errors of the schema", e.into_iter().map(|e| err_text(t, vec![e.into()])).collect()));
            }
        },
        Err(_) => r.push(("errors of the schema document", errors(t, || parse_def(t, compat).err().unwrap()))),
    }
    r
}

fn one_schema<S: CoreSchema>(_t: &str, s: &S) -> Report {
    use bluejay_validator::definition::{BuiltinRulesValidator, Error as E};
    let errs = || {
        BuiltinRulesValidator::validate(s)
            .map(|e| match e {
                E::NonUniqueInputValueDefinitionNames { name, input_value_definitions } => format!("field {name} {}", input_value_definitions.len()),
                E::NonUniqueEnumValueDefinitionNames { name, enum_value_definitions } => format!("value {name} {}", enum_value_definitions.len()),
                E::InputObjectTypeDefinitionCircularReferences { input_object_type_definition: i, circular_references: c } => {
                    use bluejay_core::definition::{InputObjectTypeDefinition as _, InputType as _};
                    format!("circular {} {:?}", i.name(), c.iter().map(|c| c.display_name()).collect::<Vec<_>>())
                }
            })
            .collect::<Vec<_>>()
    };
    vec![("errors of the definitions", errs()), ("printed schema", lines(&SchemaDefinitionPrinter::to_string(s)))]
}

fn document<S: CoreSchema>(t: &str, d: &ExecutableDocument, s: &S, name: Option<&str>, vars: &Map<String, Json>) -> Report {
    let cache = Cache::new(d, s);
    let mut r = vec![("errors of the document", errors(t, || BuiltinRulesValidator::validate(d, s, &cache).map(Error::from).collect()))];
    // operations are analysed once they are valid (but for variables and values)
    if BuiltinRulesValidator::validate(d, s, &cache).any(|e| !["C12", "C15"].contains(&exec::key(&e).0)) {
        return r;
    }
    macro_rules! an {
        ($what:expr, $t:ty, $extra:expr, $f:expr) => {
            match Orchestrator::<_, _, _, $t>::analyze(d, s, name, vars, &cache, $extra) {
                Ok(l) => r.push(($what, l.into_iter().map($f).collect())),
                Err(e) => r.push(($what, vec![e.message().into_owned()])),
            }
        };
    }
    an!("lists", InputSize<_, _>, 0, |o| format!("{} {}", o.size, o.name));
    an!("deprecated elements", Deprecation<_, _, _>, (), |o| format!("{:?} {} {}", o.offense_type, o.name, o.reason));
    an!("variable values at fault", VariableValuesAreValid<_, _, _>, (), |o| o.message().to_string());
    r.push(("numbers", vec![format!("{:?} {:?} {:?}", an::depth(d, s, name, vars), an::cost(d, s, name, vars, Tariff::Default), an::cost(d, s, name, vars, Tariff::Relay))]));
    r
}

fn changes(a: &MySchema, b: &MySchema) -> Report {
    let l = bluejay_schema_comparator::compare(a, b).changes;
    vec![("changes", l.iter().map(|c| format!("{} {} {}", c.path(), c.message(), c.breaking())).collect())]
}

fn differ(a: &Report, b: &Report) -> CaseResult {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            let (mut s, mut t) = (x.1.clone(), y.1.clone());
            s.sort();
            t.sort();
            return Err(format!("{} differ{}:\n{}\n\nand then\n\n{}", x.0, if s == t { " in order" } else { "" }, x.1.join("\n"), y.1.join("\n")));
        }
    }
    if a.len() != b.len() {
        return Err("other results than before".into());
    }
    Ok(())
}

/// several times over, with what was allocated kept and something else allocated in between
fn again(s: &mut Src, ctx: &mut Ctx, mut run: impl FnMut(usize, &mut Src) -> Result<Report, String>) -> CaseResult {
    let first = run(0, s)?;
    ctx.nontrivial = first.iter().any(|l| l.1.len() > 1);
    for (what, l) in &first {
        ctx.tag_if(l.len() > 1, what);
    }
    let mut junk: Vec<Vec<u8>> = vec![];
    for i in 1..4 {
        for _ in 0..s.below(6) {
            junk.push(vec![0; 16 * s.range(1, 20)]);
        }
        if s.bool() {
            junk.pop();
        }
        ctx.evals += 1;
        differ(&first, &run(i, s)?)?;
    }
    Ok(())
}

fn c37(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match s.weighted(&[1, 2, 4, 2, 3, 2]) {
        0 => {
            ctx.tag("texts");
            let t = any_text(s, ctx);
            let compat = s.bool();
            ctx.show("text", &t);
            again(s, ctx, |_, _| Ok(texts(&t, compat)))
        }
        1 => {
            ctx.tag("schemas at fault");
            let d = if s.chance(1, 3) {
                ps::input_graph(s)
            } else {
                let mut d = ps::wild_sdoc(s);
                for _ in 0..s.range(1, 5) {
                    ps::fault(&mut d, s);
                }
                d
            };
            if d.types().any(|t| ["Int", "Float", "String", "Boolean", "ID"].contains(&t.name.as_str()) && t.kind != crate::ast::Kind::Scalar) {
                ctx.tag("built-in scalar replaced");
                return Ok(());
            }
            let t = render::sdoc_text(&d);
            ctx.show("schema", &t);
            again(s, ctx, |_, _| Ok(texts(&t, false)))
        }
        2 => {
            ctx.tag("documents at fault");
            let (sdl, m, mut d);
            if s.chance(1, 5) {
                let wild = *s.pick(&[12, 4]);
                (sdl, m, d) = tangle::tangle(s, tangle::PLAIN, wild);
            } else {
                (sdl, m) = exec::gen_sch(s);
                let g = *s.pick(&["C11", "C12", "C13", "C14", "C15", "C16", "C17", "any", "C16"]);
                let collide = g == "C16" && s.chance(2, 3);
                d = gen_doc::doc(s, &m, DOpts { collide, ..Default::default() });
                for _ in 0..s.range(1, 6) {
                    gen_doc::corrupt(&mut d, s, &m, g);
                }
            }
            tidy(&mut d);
            let vars = an::vars_for(s, &m, &d.ops[0]);
            let name = d.ops[0].name.clone();
            let (st, t) = (render::sdoc_text(&sdl), render::doc_text(&d));
            ctx.show("schema", &st);
            ctx.show("document", &t);
            again(s, ctx, |_, _| with_schema(&st, |sd| Ok(document(&t, &parse_doc(&t)?, sd, name.as_deref(), &vars))))
        }
        3 => {
            ctx.tag("operations");
            let mut c = an::case(s, true, true);
            // values that do not fit
            for v in c.d.ops[c.at].vars.clone() {
                if s.chance(1, 3) {
                    c.vars.insert(v.name, s.pick(&[Json::Null, Json::from("no"), Json::from(vec![1, 2, 3]), serde_json::json!({"zz": 1, "yy": 2})]).clone());
                }
            }
            for n in ["x1", "x2"] {
                if s.chance(1, 4) {
                    c.vars.insert(n.into(), Json::from(1));
                }
            }
            let (st, t) = c.show(ctx);
            again(s, ctx, |_, _| with_schema(&st, |sd| Ok(document(&t, &parse_doc(&t)?, sd, c.name(), &c.vars))))
        }
        4 => {
            ctx.tag("comparisons");
            let a = comparator::base(s, true);
            let mut b = a.clone();
            for _ in 0..s.range(2, 8) {
                comparator::edit(&mut b, s);
            }
            let (ta, tb) = (render::sdoc_text(&a), render::sdoc_text(&b));
            ctx.show("old", &ta);
            ctx.show("new", &tb);
            again(s, ctx, |_, _| with_schema(&ta, |x| with_schema(&tb, |y| Ok(changes(x, y)))))
        }
        _ => {
            ctx.tag("restricted schemas");
            let (applied, small, deprecated) = (s.chance(1, 2), s.bool(), s.bool());
            let d = crate::gen_schema::schema(s, crate::gen_schema::SOpts { applied, small, deprecated, ..Default::default() });
            let st = render::sdoc_text(&d);
            let m = Schema::resolve(&d)?;
            ctx.show("schema", &st);
            let h = with_schema(&st, |sd| {
                let v = view(sd)?;
                let h = pv::policy(s, &v, true);
                Ok(pv::prune(&v, &h, false).is_some().then_some((h, v)))
            })?;
            let Some((h, v)) = h else {
                ctx.tag("nothing left");
                return Ok(());
            };
            ctx.show("hidden", &format!("{h:?}"));
            let mut d = gen_doc::doc(s, &m, DOpts::default());
            if s.bool() {
                gen_doc::corrupt(&mut d, s, &m, "any");
            }
            tidy(&mut d);
            let t = render::doc_text(&d);
            ctx.show("document", &t);
            let vars = an::vars_for(s, &m, &d.ops[0]);
            let name = d.ops[0].name.clone();
            again(s, ctx, |i, s| {
                with_schema(&st, |sd| {
                    let cache = bluejay_visibility::Cache::new(pv::Pol::new(sd, h.clone()), sd);
                    let r = bluejay_visibility::SchemaDefinition::new(&cache).map_err(|_| "nothing left".to_string())?;
                    // other questions first
                    if i > 1 {
                        pv::poke(s, &r, &v);
                    }
                    let doc = parse_doc(&t)?;
                    if i == 3 {
                        let x = document(&t, &doc, &r, name.as_deref(), &vars);
                        let mut l = one_schema(&st, &r);
                        l.extend(x);
                        return Ok(l);
                    }
                    let mut l = one_schema(&st, &r);
                    l.extend(document(&t, &doc, &r, name.as_deref(), &vars));
                    Ok(l)
                })
            })
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C37",
        quick: 120_000,
        thorough: 1_500_000,
        rule: "some list of errors, lines, changes or elements has more than one entry; distinct = distinct inputs",
        case: c37,
        assumptions: &["every hash table of the standard library has keys of its own, so an order that comes from one changes from run to run with high probability", "four runs per input"],
    }]
}
