//! C35: the errors of schema resolution and of the definition validator are the faults of the
//! document, at the tokens that are at fault. Positions come from the harness's own rendering.
use super::schema::{fault, input_graph, wild_sdoc};
use super::syntax::{parse_def, positions};
use crate::ast::*;
use crate::engine::{CaseResult, Ctx, Prop};
use crate::refparse as rp;
use crate::render::{self, Id, Out};
use crate::schema::{builtin, SCALARS};
use crate::src::Src;
use bluejay_parser::ast::definition::SchemaDefinition;
use bluejay_parser::{Error, HasSpan};
use std::collections::{BTreeMap, BTreeSet, HashMap};

type Anchor = (char, usize);

#[derive(Debug)]
struct Fault {
    what: &'static str,
    name: String,
    /// the node at fault; none when the fault has no place
    at: Option<Anchor>,
    must: bool,
}

fn at<T>(tag: char, t: &T) -> Option<Anchor> {
    Some((tag, t as *const T as usize))
}

struct Faults<'a> {
    types: BTreeMap<&'a str, Vec<&'a TypeDef>>,
    dirs: BTreeMap<&'a str, usize>,
    found: Vec<Fault>,
}

impl<'a> Faults<'a> {
    fn add(&mut self, what: &'static str, name: &str, at: Option<Anchor>, must: bool) {
        self.found.push(Fault { what, name: name.into(), at, must })
    }
    /// a reference to a type by name; `sole` when nothing else can excuse it
    fn refers(&mut self, n: &'a String, tag: char, ok: fn(&Kind) -> bool, what: &'static str, sole: bool) {
        match self.types.get(n.as_str()).cloned() {
            None => self.add("missing type", n, at(tag, n), sole),
            Some(l) => {
                let bad = l.iter().filter(|t| !ok(&t.kind)).count();
                if bad > 0 {
                    self.add(what, n, at(tag, n), sole && bad == l.len());
                }
            }
        }
    }
    fn dirs(&mut self, l: &'a [Dir], sole: bool) {
        for d in l {
            if !self.dirs.contains_key(d.name.as_str()) {
                self.add("missing directive", &d.name, at('D', d), sole)
            }
        }
    }
    fn inputs(&mut self, l: &'a [InputVal], sole: bool) {
        for v in l {
            self.refers(base(&v.ty), 'N', |k| matches!(k, Kind::Scalar | Kind::Enum { .. } | Kind::Input { .. }), "not input", sole);
            self.dirs(&v.dirs, sole);
        }
    }
}

fn base(t: &Ty) -> &String {
    match t {
        Ty::Named(n, _) => n,
        Ty::List(t, _) => base(t),
    }
}

fn is_object(k: &Kind) -> bool {
    matches!(k, Kind::Object { .. })
}

fn faults(d: &SDoc) -> Vec<Fault> {
    let b = builtin();
    let scalar: &'static TypeDef = {
        static S: std::sync::OnceLock<TypeDef> = std::sync::OnceLock::new();
        S.get_or_init(|| TypeDef { desc: None, name: String::new(), dirs: vec![], kind: Kind::Scalar })
    };
    let mut f = Faults { types: BTreeMap::new(), dirs: BTreeMap::new(), found: vec![] };
    // a definition that shares its name may be the one that counts, or not
    b.types.iter().for_each(|t| f.types.entry(&t.name).or_default().push(t));
    d.types().for_each(|t| f.types.entry(&t.name).or_default().push(t));
    SCALARS.iter().for_each(|n| {
        f.types.entry(n).or_insert_with(|| vec![scalar]);
    });
    d.dirdefs().for_each(|t| *f.dirs.entry(&t.name).or_default() += 1);
    b.dirs.iter().for_each(|t| {
        f.dirs.entry(&t.name).or_insert(1);
    });
    for t in d.types() {
        let sole = f.types[t.name.as_str()].len() == 1;
        if !sole {
            f.add("repeated", &t.name, at('N', &t.name), true);
        }
        f.dirs(&t.dirs, sole);
        match &t.kind {
            Kind::Scalar => {}
            Kind::Object { ifaces, fields } | Kind::Interface { ifaces, fields } => {
                for x in fields {
                    f.refers(base(&x.ty), 'N', |k| !matches!(k, Kind::Input { .. }), "not output", sole);
                    f.inputs(&x.args, sole);
                    f.dirs(&x.dirs, sole);
                }
                ifaces.iter().for_each(|n| f.refers(n, 'N', |k| matches!(k, Kind::Interface { .. }), "not interface", sole));
            }
            Kind::Union { members } => members.iter().for_each(|n| f.refers(n, 'N', is_object, "not object", sole)),
            Kind::Enum { values } => values.iter().for_each(|v| f.dirs(&v.dirs, sole)),
            Kind::Input { fields } => f.inputs(fields, sole),
        }
    }
    for t in d.dirdefs() {
        let sole = f.dirs[t.name.as_str()] == 1;
        if !sole {
            f.add("repeated", &t.name, at('N', &t.name), true);
        }
        f.inputs(&t.args, sole);
    }
    let schemas: Vec<&SchemaDef> = d.defs.iter().filter_map(|d| if let SDef::Schema(s) = d { Some(s) } else { None }).collect();
    schemas.iter().for_each(|s| f.dirs(&s.dirs, true));
    if f.found.iter().any(|f| f.must) {
        return f.found;
    }
    match schemas[..] {
        [] => {
            let mut any = false;
            for k in OpKind::ALL {
                if let Some(t) = d.ty(k.default_name()) {
                    any = true;
                    if !is_object(&t.kind) {
                        f.add("not object", &t.name, at('N', &t.name), true);
                    }
                }
            }
            if !any {
                f.add("no schema", "", None, true);
            } else if d.ty("Query").is_none() {
                let sole = f.found.is_empty();
                f.add("no query", "", None, sole);
            }
        }
        [s] => {
            for k in OpKind::ALL {
                let l: Vec<&(OpKind, String)> = s.ops.iter().filter(|o| o.0 == k).collect();
                if l.len() > 1 {
                    l.iter().for_each(|o| f.add("repeated", k.kw(), at('O', &o.1), true));
                }
                l.iter().for_each(|o| f.refers(&o.1, 'O', is_object, "not object", l.len() == 1));
            }
            if s.ops.iter().all(|o| o.0 != OpKind::Query) {
                let sole = f.found.is_empty();
                f.add("no query", "", at('H', s), sole);
            }
        }
        _ => schemas.iter().for_each(|s| f.add("repeated", "schema", at('H', *s), true)),
    }
    f.found
}

/// what an error is about, from what it says
fn category(m: &str) -> Result<&'static str, String> {
    Ok(match m {
        m if m.starts_with("Multiple") || m.starts_with("Cannot redefine") => "repeated",
        m if m.starts_with("Referenced directive `") && m.ends_with("does not exist") => "missing directive",
        m if m.contains("does not exist") => "missing type",
        m if m.contains("not an input type") => "not input",
        m if m.contains("not an output type") => "not output",
        m if m.contains("not an interface") => "not interface",
        m if m.contains("not an object") => "not object",
        m if m.contains("circular reference") => "cycle",
        m if m.contains("query") => "no query",
        m if m.contains("not contain a schema definition") => "no schema",
        m => return Err(format!("what does this say: {m:?}")),
    })
}

type Got = Vec<(&'static str, Option<usize>, String)>;

fn reported(t: &str, errs: Vec<Error>) -> Result<Got, String> {
    let pos = positions(t);
    let mut got = vec![];
    for e in errs {
        let m = e.message().to_string();
        let c = category(&m)?;
        for g in Error::into_graphql_errors(t, [e]) {
            let p = match &g.locations[..] {
                [] => None,
                [l] => Some(*pos.get(&(l.line, l.col)).ok_or_else(|| format!("location {l:?} is no position of the document: {m}"))?),
                l => return Err(format!("{} locations: {m}", l.len())),
            };
            let full = format!("{m}: {}", g.message);
            if got.iter().any(|(d, q, _)| *d == c && *q == p) {
                return Err(format!("reported twice: {full} at {p:?}"));
            }
            got.push((c, p, full));
        }
    }
    Ok(got)
}

fn compare(t: &str, at: &HashMap<Id, Vec<usize>>, want: &[Fault], got: &Got) -> CaseResult {
    let show = |p: &Option<usize>| p.map_or("no place".to_string(), |p| format!("{p} ({:?})", t[p..].chars().take(20).collect::<String>()));
    let places = |f: &Fault| -> Vec<Option<usize>> {
        match f.at {
            None => vec![None],
            Some((c, a)) => at.get(&(c, a, String::new())).into_iter().flatten().map(|p| Some(*p)).collect(),
        }
    };
    for (c, p, m) in got {
        let l: Vec<&Fault> = want.iter().filter(|f| f.what == *c && places(f).contains(p)).collect();
        if l.is_empty() {
            return Err(format!("{m}: reported at {}, where nothing of the kind is wrong; wrong are {:?}", show(p), want.iter().map(|f| (f.what, &f.name, places(f).iter().map(show).collect::<Vec<_>>())).collect::<Vec<_>>()));
        }
        if !l.iter().any(|f| m.contains(f.name.as_str())) {
            return Err(format!("{m}: does not name {:?} at {}", l[0].name, show(p)));
        }
    }
    for f in want.iter().filter(|f| f.must) {
        let l = places(f);
        if l.is_empty() {
            return Err(format!("harness: no position for {f:?}"));
        }
        if !got.iter().any(|(c, p, m)| *c == f.what && l.contains(p) && m.contains(f.name.as_str())) {
            return Err(format!("{} {}: not reported at {:?}; reported: {got:?}", f.what, f.name, l.iter().map(show).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

fn c35(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let validator = s.chance(1, 4);
    let d = if validator {
        input_graph(s)
    } else {
        let mut d = wild_sdoc(s);
        let n = s.range(1, 5);
        for _ in 0..n {
            fault(&mut d, s);
        }
        d
    };
    if d.types().any(|t| SCALARS.contains(&t.name.as_str()) && t.kind != Kind::Scalar) {
        ctx.tag("built-in scalar replaced");
        return Ok(());
    }
    let layout = s.weighted(&[1, 1, 2]);
    let mut out = Out::new(if layout == 2 { Some(&mut *s) } else { None });
    out.marks = Some(vec![]);
    out.sdoc(&d);
    let (toks, marks) = (out.toks, out.marks.unwrap());
    let t = match layout {
        0 => render::join_min(&toks),
        1 => render::join_space(&toks),
        _ => render::join_random(&toks, s),
    };
    ctx.show("schema", &t);
    let lexed = rp::lex(&t, false).map_err(|e| format!("harness: {e:?}"))?;
    if lexed.len() != toks.len() {
        return Err(format!("harness: {} tokens read as {}", toks.len(), lexed.len()));
    }
    let mut map: HashMap<Id, Vec<usize>> = HashMap::new();
    for (i, k) in marks {
        map.entry(i).or_default().push(lexed[k].start);
    }
    ctx.tag(["no blanks", "indented", "random layout"][layout]);
    let want = faults(&d);
    let dd = parse_def(&t, false).map_err(|_| "harness: does not parse".to_string())?;
    match SchemaDefinition::try_from(&dd) {
        Err(e) => {
            let got = reported(&t, e.into_iter().map(Into::into).collect())?;
            ctx.nontrivial = true;
            ctx.tag_if(want.len() > 3, "more than three faults");
            for w in ["missing type", "missing directive", "not input", "not output", "not interface", "not object", "repeated", "no query", "no schema"] {
                ctx.tag_if(want.iter().any(|f| f.what == w), w);
            }
            compare(&t, &map, &want, &got)
        }
        Ok(sd) => {
            if let Some(f) = want.iter().find(|f| f.must) {
                return Err(format!("accepted in spite of {f:?}"));
            }
            ctx.tag("resolves");
            let want = definition_faults(&d);
            ctx.nontrivial = !want.is_empty();
            use bluejay_validator::definition::{BuiltinRulesValidator, Error as E};
            let got = reported(&t, BuiltinRulesValidator::validate(&sd).map(Into::into).collect())?;
            compare(&t, &map, &want, &got)?;
            // the fields that close a circle
            for e in BuiltinRulesValidator::validate(&sd) {
                if let E::InputObjectTypeDefinitionCircularReferences { input_object_type_definition: i, circular_references } = e {
                    use bluejay_core::definition::InputObjectTypeDefinition as _;
                    ctx.tag("circular");
                    let want = closing(&d, i.name());
                    let want: BTreeSet<usize> = want.into_iter().map(|n| map[&('N', n as *const String as usize, String::new())][0]).collect();
                    let got: BTreeSet<usize> = circular_references.iter().map(|r| r.span().byte_range().start).collect();
                    if got != want || got.len() != circular_references.len() {
                        return Err(format!("fields through which {} requires itself: got {got:?}, expected {want:?}", i.name()));
                    }
                }
            }
            Ok(())
        }
    }
}

/// the type names, in fields of what `n` requires, that require `n` again
fn closing<'a>(d: &'a SDoc, n: &str) -> Vec<&'a String> {
    let mut refs = vec![];
    let mut seen: BTreeSet<&str> = BTreeSet::new();
    let mut todo = vec![n];
    while let Some(x) = todo.pop() {
        let Some(TypeDef { kind: Kind::Input { fields }, name, .. }) = d.ty(x) else { continue };
        if !seen.insert(name) {
            continue;
        }
        for f in fields {
            if let Ty::Named(b, true) = &f.ty {
                if b == n {
                    refs.push(b)
                } else {
                    todo.push(b)
                }
            }
        }
    }
    refs
}

fn definition_faults(d: &SDoc) -> Vec<Fault> {
    let mut l = vec![];
    for t in d.types() {
        let names: Vec<&String> = match &t.kind {
            Kind::Enum { values } => values.iter().map(|v| &v.name).collect(),
            Kind::Input { fields } => fields.iter().map(|v| &v.name).collect(),
            _ => vec![],
        };
        for n in &names {
            if names.iter().filter(|m| m == &n).count() > 1 {
                l.push(Fault { what: "repeated", name: n.to_string(), at: at('N', *n), must: true })
            }
        }
        if !closing(d, &t.name).is_empty() {
            l.push(Fault { what: "cycle", name: t.name.clone(), at: at('N', &t.name), must: true })
        }
    }
    l
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C35",
        quick: 400_000,
        thorough: 12_000_000,
        rule: "the document is refused, or the definition validator has something to say",
        case: c35,
        assumptions: &[
            "positions of nodes come from the harness's own rendering and lexer",
            "an error is classed by the words of its message",
            "of definitions that share a name, and of references to such a name, either reading is accepted",
            "documents that replace a built-in scalar by another kind of type are left to C01 and C09 (known finding builtin-scalar-replaced)",
        ],
    }]
}
