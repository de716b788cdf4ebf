//! C39: when values, arguments and type references are equal.
use crate::ast::*;
use crate::engine::{CaseResult, Ctx, Prop};
use crate::gen_syn;
use crate::render::{join_random, Out};
use crate::src::Src;
use bluejay_core::definition::{ArgumentsDefinition as _, FieldDefinition as _, FieldsDefinition as _, InputType as _, InputValueDefinition as _, ObjectTypeDefinition as _, OutputType as _, SchemaDefinition as _};
use bluejay_core::executable::{OperationDefinition as _, Selection as _, SelectionReference, VariableType as _};
use bluejay_core::{Arguments, AsIter, Directive as _, Indexed, Value};
use bluejay_parser::ast::definition::{DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::{ConstValue, Parse, VariableValue};
use serde_json::Value as Json;
use std::collections::{HashMap, HashSet};

/// what two values being equal means here
fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Float(a), Val::Float(b)) => a == b,
        (Val::List(a), Val::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (Val::Obj(a), Val::Obj(b)) => same_args(a, b),
        _ => a == b,
    }
}

fn same_args(a: &[(String, Val)], b: &[(String, Val)]) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k == l && same(v, w)))
}

/// keys of an object and names of arguments are unique in a valid document
fn unique(v: &mut Val) {
    match v {
        Val::List(l) => l.iter_mut().for_each(unique),
        Val::Obj(l) => {
            let mut seen = HashSet::new();
            l.retain(|(k, _)| seen.insert(k.clone()));
            l.iter_mut().for_each(|(_, v)| unique(v));
        }
        _ => {}
    }
}

fn shuffle(v: &mut Val, s: &mut Src) {
    match v {
        Val::List(l) => l.iter_mut().for_each(|v| shuffle(v, s)),
        Val::Obj(l) => {
            l.iter_mut().for_each(|(_, v)| shuffle(v, s));
            s.shuffle(l);
        }
        _ => {}
    }
}

/// a value like another, but for one place
fn change(v: &mut Val, s: &mut Src, konst: bool) {
    let inside = s.chance(3, 4);
    match v {
        Val::List(l) if inside && !l.is_empty() => {
            let i = s.below(l.len());
            match s.below(5) {
                0 => {
                    l.remove(i);
                }
                1 => {
                    let x = l[i].clone();
                    l.insert(i, x);
                }
                2 => l.rotate_left(1),
                _ => change(&mut l[i], s, konst),
            }
        }
        Val::Obj(l) if inside && !l.is_empty() => {
            let i = s.below(l.len());
            match s.below(5) {
                0 => {
                    l.remove(i);
                }
                1 => l[i].0.push('_'),
                2 => {
                    let j = s.below(l.len());
                    let (a, b) = (l[i].1.clone(), l[j].1.clone());
                    l[i].1 = b;
                    l[j].1 = a;
                }
                _ => change(&mut l[i].1, s, konst),
            }
        }
        // the same letters as another kind of value
        v => {
            *v = match (v.clone(), s.below(3)) {
                (Val::Str(x), 0) if x.chars().all(|c| c.is_ascii_alphabetic()) && !x.is_empty() => Val::Enum(format!("{x}_")),
                (Val::Str(x), 1) => Val::Str(format!("{x} ")),
                (Val::Str(x), 2) => Val::Str(x.to_uppercase()),
                (Val::Enum(x), 0) => Val::Str(x),
                (Val::Enum(x), 1) if !konst => Val::Var(x),
                (Val::Enum(x), _) => Val::Enum(format!("{x}x")),
                (Val::Var(x), 0) => Val::Enum(format!("{x}_")),
                (Val::Var(x), 1) => Val::Str(x),
                (Val::Var(x), _) => Val::Var(format!("{x}x")),
                (Val::Int(x), 0) => Val::Float(x as f64),
                (Val::Int(x), 1) => Val::Int(x.wrapping_neg()),
                (Val::Int(x), _) => Val::Str(x.to_string()),
                (Val::Bool(x), 0) => Val::Str(x.to_string()),
                (Val::Bool(x), _) => Val::Bool(!x),
                (Val::Null, 0) => Val::Str("null".into()),
                (Val::Null, 1) => Val::Obj(vec![]),
                (Val::Null, _) => Val::List(vec![]),
                (Val::Float(x), 0) => Val::Float(-x),
                (Val::Float(x), 1) => Val::Float(f64::from_bits(x.to_bits() ^ 1)),
                (Val::List(l), 0) if l.is_empty() => Val::Obj(vec![]),
                (Val::Obj(l), 0) if l.is_empty() => Val::List(vec![]),
                (x, 0 | 1) => Val::List(vec![x]),
                (_, _) => gen_syn::val(s, konst, 1),
            };
            unique(v)
        }
    }
}

fn text(v: &Val, s: &mut Src) -> String {
    let mut r = Out::new(Some(s));
    r.val(v);
    let toks = std::mem::take(&mut r.toks);
    join_random(&toks, s)
}

fn json(v: &Val) -> Json {
    match v {
        Val::Int(i) => Json::from(*i),
        Val::Float(f) => Json::from(*f),
        Val::Str(s) | Val::Enum(s) | Val::Var(s) => Json::from(s.clone()),
        Val::Bool(b) => Json::from(*b),
        Val::Null => Json::Null,
        Val::List(l) => Json::Array(l.iter().map(json).collect()),
        Val::Obj(l) => Json::Object(l.iter().map(|(k, v)| (k.clone(), json(v))).collect()),
    }
}

/// JSON has one kind of string and one kind of number
fn as_json(v: &Val) -> Val {
    match v {
        Val::Enum(s) | Val::Var(s) => Val::Str(s.clone()),
        Val::List(l) => Val::List(l.iter().map(as_json).collect()),
        Val::Obj(l) => Val::Obj(l.iter().map(|(k, v)| (k.clone(), as_json(v))).collect()),
        v => v.clone(),
    }
}

fn variants<const C: bool, V: Value<C>>(v: &V, w: &Val) -> bool {
    v.as_ref().variant()
        == match w {
            Val::Var(_) => "variable",
            Val::Int(_) => "integer",
            Val::Float(_) => "float",
            Val::Str(_) => "string",
            Val::Bool(_) => "boolean",
            Val::Null => "null",
            Val::Enum(_) => "enum",
            Val::List(_) => "list",
            Val::Obj(_) => "object",
        }
}

fn table<T>(what: &str, xs: &[T], equal: impl Fn(&T, &T) -> bool, want: impl Fn(usize, usize) -> bool, show: impl Fn(usize) -> String) -> CaseResult {
    for i in 0..xs.len() {
        for j in 0..xs.len() {
            if equal(&xs[i], &xs[j]) != want(i, j) {
                return Err(format!("{what}: {} and {} are held to be {}", show(i), show(j), if want(i, j) { "different" } else { "equal" }));
            }
        }
    }
    Ok(())
}

fn values(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let konst = s.bool();
    let mut vals = vec![];
    let depth = s.below(4);
    let mut a = gen_syn::val(s, konst, depth);
    match s.below(5) {
        0 => a = Val::List(vec![a, gen_syn::val(s, konst, 2)]),
        1 | 2 => a = Val::Obj((0..s.range(1, 4)).map(|_| (gen_syn::name(s), gen_syn::val(s, konst, 2))).collect()),
        _ => {}
    }
    unique(&mut a);
    let mut b = a.clone();
    shuffle(&mut b, s);
    vals.push(a);
    vals.push(b);
    for _ in 0..2 {
        let mut c = s.pick(&vals).clone();
        change(&mut c, s, konst);
        unique(&mut c);
        if s.bool() {
            shuffle(&mut c, s);
        }
        vals.push(c);
    }
    let texts: Vec<String> = vals.iter().map(|v| text(v, s)).collect();
    for t in &texts {
        ctx.show("value", t);
    }
    ctx.tag(if konst { "constant values" } else { "values with variables" });
    let eq = |i: usize, j: usize| same(&vals[i], &vals[j]);
    ctx.nontrivial = matches!(vals[0], Val::List(_) | Val::Obj(_));
    ctx.tag_if(matches!(vals[0], Val::Obj(ref l) if l.len() > 1), "objects of several fields");
    ctx.tag_if(eq(0, 2) || eq(0, 3), "the change was without effect");
    let bad = |e: Vec<bluejay_parser::Error>| format!("refused: {e:?}");
    let show = |i: usize| texts[i].clone();
    if konst {
        let xs = texts.iter().map(|t| ConstValue::parse(t)).collect::<Result<Vec<_>, _>>().map_err(bad)?;
        table("values", &xs, |a, b| a.as_ref() == b.as_ref(), eq, show)?;
        if let Some(i) = (0..xs.len()).find(|&i| !variants(&xs[i], &vals[i])) {
            return Err(format!("{} is said to be a {}", texts[i], xs[i].as_ref().variant()));
        }
    } else {
        let xs = texts.iter().map(|t| VariableValue::parse(t)).collect::<Result<Vec<_>, _>>().map_err(bad)?;
        table("values", &xs, |a, b| a.as_ref() == b.as_ref(), eq, show)?;
        if let Some(i) = (0..xs.len()).find(|&i| !variants(&xs[i], &vals[i])) {
            return Err(format!("{} is said to be a {}", texts[i], xs[i].as_ref().variant()));
        }
    }
    let js: Vec<Json> = vals.iter().map(json).collect();
    let jv: Vec<Val> = vals.iter().map(as_json).collect();
    table("JSON values", &js, |a, b| <Json as Value<true>>::as_ref(a) == <Json as Value<true>>::as_ref(b), |i, j| same(&jv[i], &jv[j]), |i| js[i].to_string())?;
    if let Some(i) = (0..js.len()).find(|&i| !variants::<true, _>(&js[i], &jv[i])) {
        return Err(format!("{} is said to be a {}", js[i], <Json as Value<true>>::as_ref(&js[i]).variant()));
    }
    Ok(())
}

/// argument lists, on fields and directives of one document, some of them absent
fn arguments(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut lists: Vec<Args> = vec![];
    let n = s.below(4);
    let mut first = Val::Obj((0..n).map(|_| (gen_syn::name(s), gen_syn::val(s, false, 2))).collect());
    unique(&mut first);
    let Val::Obj(l) = &first else { unreachable!() };
    lists.push(l.clone());
    for _ in 0..3 {
        let mut v = Val::Obj(s.pick(&lists).clone());
        if s.chance(2, 3) {
            change(&mut v, s, false);
        }
        unique(&mut v);
        shuffle(&mut v, s);
        lists.push(if let Val::Obj(l) = v { l } else { vec![] });
    }
    let mut t = String::from("{");
    for (i, l) in lists.iter().enumerate() {
        let a = if l.is_empty() { String::new() } else { format!("({}\n)", l.iter().map(|(k, v)| format!("{k}: {}\n", text(v, s))).collect::<Vec<_>>().join(" ")) };
        t += &format!(" f{i}{a} @d{i}{a}");
    }
    t += " }";
    ctx.show("document", &t);
    ctx.tag("argument lists");
    ctx.nontrivial = n > 0;
    ctx.tag_if(lists.iter().any(|l| l.is_empty()), "a list without arguments");
    let doc = ExecutableDocument::parse(&t).map_err(|e| format!("refused: {e:?}"))?;
    let op = doc.operation_definitions().iter().next().ok_or("no operation")?;
    let sel = op.as_ref().selection_set();
    let mut fields = vec![];
    let mut dirs = vec![];
    for x in sel.iter() {
        let SelectionReference::Field(f) = x.as_ref() else { return Err("a field has become something else".into()) };
        fields.push(f.arguments());
        dirs.push(bluejay_core::executable::Field::directives(f).and_then(|d| d.iter().next()).and_then(|d| d.arguments()));
    }
    let eq = |i: usize, j: usize| same_args(&lists[i], &lists[j]);
    let show = |i: usize| format!("{:?}", lists[i]);
    fn equivalent<A: Arguments<false>>(a: &Option<&A>, b: &Option<&A>) -> bool {
        A::equivalent(*a, *b)
    }
    table("arguments of fields", &fields, equivalent, eq, show)?;
    table("arguments of directives", &dirs, equivalent, eq, show)
}

/// types of fields, arguments and variables
fn types(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let names = ["Int", "String", "E"];
    let mut tys: Vec<Ty> = vec![];
    for _ in 0..5 {
        let mut t = if !tys.is_empty() && s.bool() {
            s.pick(&tys).clone()
        } else {
            Ty::named(s.pick(&names))
        };
        for _ in 0..s.below(3) {
            t = if s.bool() { t.list() } else { t.req() };
        }
        tys.push(t);
    }
    let mut sdl = String::from("enum E { A } type Query {");
    let mut q = String::from("query(");
    for (i, t) in tys.iter().enumerate() {
        sdl += &format!(" f{i}(a: {t}): {t}", t = t.show());
        q += &format!("$v{i}: {} ", t.show());
    }
    sdl += " }";
    q += ") { x }";
    ctx.show("schema", &sdl);
    ctx.show("document", &q);
    ctx.tag("types");
    ctx.nontrivial = tys.iter().any(|t| matches!(t, Ty::List(..)));
    let d: DefinitionDocument = DefinitionDocument::parse(&sdl).map_err(|e| format!("refused: {e:?}"))?;
    let sd = SchemaDefinition::try_from(&d).map_err(|e| format!("refused: {} errors", e.len()))?;
    let doc = ExecutableDocument::parse(&q).map_err(|e| format!("refused: {e:?}"))?;
    let op = doc.operation_definitions().iter().next().ok_or("no operation")?;
    let eq = |i: usize, j: usize| tys[i] == tys[j];
    let show = |i: usize| tys[i].show();
    let fields = sd.query().fields_definition();
    let mut outs = vec![];
    let mut ins = vec![];
    for i in 0..tys.len() {
        let f = fields.get(&format!("f{i}")).ok_or("no field")?;
        outs.push(f.r#type());
        ins.push(f.arguments_definition().and_then(|a| a.get("a")).ok_or("no argument")?.r#type());
    }
    let vars: Vec<_> = op.as_ref().variable_definitions().into_iter().flat_map(|l| l.iter()).map(|v| v.r#type()).collect();
    if vars.len() != tys.len() {
        return Err("variables are missing".into());
    }
    table("types of fields", &outs, |a, b| a.as_shallow_ref() == b.as_shallow_ref(), eq, show)?;
    table("types of arguments", &ins, |a, b| a.as_shallow_ref() == b.as_shallow_ref(), eq, show)?;
    table("types of variables", &vars, |a, b| a.as_ref() == b.as_ref(), eq, show)?;
    // the same shape, whatever the nullability outside
    table("types of variables made nullable", &vars, |a, b| a.as_ref().unwrap_nullable() == b.as_ref().unwrap_nullable(), |i, j| tys[i].clone().opt() == tys[j].clone().opt(), show)?;
    for (i, t) in tys.iter().enumerate() {
        let v = vars[i].as_ref();
        if v.display_name() != t.show() || v.name() != t.base() || v.is_required() != t.is_req() || v.unwrap_nullable().is_required() {
            return Err(format!("variable of type {} is said to be {} of {}", t.show(), v.display_name(), v.name()));
        }
        let x = ins[i].as_ref(&sd).unwrap_nullable();
        if x.is_required() || x.base(&sd).name() != t.base() {
            return Err(format!("argument of type {}, made nullable", t.show()));
        }
    }
    // as keys, two variable types are the same only if they are the same part of the document
    let keys: HashMap<_, usize> = vars.iter().enumerate().map(|(i, v)| (Indexed(*v), i)).collect();
    if keys.len() != vars.len() || vars.iter().enumerate().any(|(i, v)| keys.get(&Indexed(*v)) != Some(&i)) {
        return Err("two types of variables are one key".into());
    }
    Ok(())
}

fn c39(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match s.weighted(&[5, 3, 2]) {
        0 => values(s, ctx),
        1 => arguments(s, ctx),
        _ => types(s, ctx),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C39",
        quick: 2_000_000,
        thorough: 20_000_000,
        rule: "four composite values, argument lists with arguments, or types with lists; distinct = distinct texts",
        case: c39,
        assumptions: &["no key is repeated in an object and no name among arguments", "zero and minus zero are one number"],
    }]
}
