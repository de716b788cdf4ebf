//! Reference input coercion, from the "Input Coercion" sections of the specification
//! (items of an explicit list are not wrapped implicitly: the library's documented choice).
use crate::ast::*;
use crate::gen_schema::custom_scalar_ok;
use crate::schema::Schema;

/// where the value comes from: literals distinguish enums from strings, JSON does not
#[derive(Clone, Copy, PartialEq)]
pub enum From {
    Literal,
    Json,
}

/// (path, fault, detail)
pub type Fault = (String, &'static str, String);

pub fn coerce(sch: &Schema, ty: &Ty, v: &Val, from: From) -> Vec<Fault> {
    let mut out = vec![];
    go(sch, ty, v, from, String::new(), true, &mut out);
    out
}

fn go(sch: &Schema, ty: &Ty, v: &Val, from: From, path: String, wrap: bool, out: &mut Vec<Fault>) {
    match v {
        Val::Var(_) => return,
        Val::Null => {
            if ty.is_req() {
                out.push((path, "Null", ty.show()));
            }
            return;
        }
        _ => {}
    }
    match ty {
        Ty::List(inner, _) => match v {
            Val::List(l) => {
                for (i, x) in l.iter().enumerate() {
                    go(sch, inner, x, from, format!("{path}/{i}"), false, out);
                }
            }
            _ if wrap => go(sch, inner, v, from, path, true, out),
            _ => out.push((path, "Kind", ty.show())),
        },
        Ty::Named(n, _) => named(sch, n, ty, v, from, path, out),
    }
}

fn named(sch: &Schema, n: &str, ty: &Ty, v: &Val, from: From, path: String, out: &mut Vec<Fault>) {
    let kind = |out: &mut Vec<Fault>| out.push((path.clone(), "Kind", ty.show()));
    if sch.is_builtin_scalar(n) {
        let ok = match n {
            "Int" => matches!(v, Val::Int(_)),
            "Float" => matches!(v, Val::Int(_) | Val::Float(_)),
            "String" => matches!(v, Val::Str(_)),
            "Boolean" => matches!(v, Val::Bool(_)),
            _ => matches!(v, Val::Int(_) | Val::Str(_)),
        };
        if !ok {
            kind(out)
        }
        return;
    }
    match sch.kind(n) {
        Some(Kind::Scalar) => {
            if !custom_scalar_ok(v) {
                out.push((path, "Custom", n.to_string()))
            }
        }
        Some(Kind::Enum { values }) => {
            let name = match v {
                Val::Enum(e) => e,
                Val::Str(e) if from == From::Json => e,
                _ => return kind(out),
            };
            if !values.iter().any(|x| x.name == *name) {
                out.push((path, "NoMember", name.clone()))
            }
        }
        Some(Kind::Input { fields }) => {
            let Val::Obj(o) = v else { return kind(out) };
            let mut seen: Vec<&str> = vec![];
            for (k, x) in o {
                if seen.contains(&k.as_str()) {
                    let f = (path.clone(), "Dup", k.clone());
                    if !out.contains(&f) {
                        out.push(f)
                    }
                    continue;
                }
                seen.push(k);
                match fields.iter().find(|f| f.name == *k) {
                    None => {
                        out.push((format!("{path}/{k}"), "NoField", k.clone()));
                    }
                    Some(f) => go(sch, &f.ty, x, from, format!("{path}/{k}"), true, out),
                }
            }
            let missing: Vec<&str> = fields.iter().filter(|f| f.required() && !seen.contains(&f.name.as_str())).map(|f| f.name.as_str()).collect();
            if !missing.is_empty() {
                out.push((path.clone(), "Missing", missing.join(",")));
            }
            if sch.is_one_of(n) {
                let nulls = o.iter().filter(|(_, x)| matches!(x, Val::Null)).count();
                if nulls > 0 {
                    out.push((path.clone(), "OneOfNull", n.to_string()));
                }
                if o.len() - nulls != 1 {
                    out.push((path, "OneOfCount", n.to_string()));
                }
            }
        }
        _ => kind(out),
    }
}
