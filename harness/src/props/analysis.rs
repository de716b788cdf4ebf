//! C21-C25: analysis of operations.
use super::coercion::json;
use super::exec::{parse_doc, with_schema, MySchema};
use crate::ast::*;
use crate::engine::{CaseResult, Ctx, Prop};
use crate::gen_doc::{self, DOpts};
use crate::gen_schema::{self, SOpts};
use crate::refop::{self, Run, Tariff, DEFAULT};
use crate::render;
use crate::schema::Schema;
use crate::src::Src;
use crate::tangle;
use crate::valid;
use bluejay_core::definition::{FieldDefinition as _, SchemaDefinition as CoreSchema};
use bluejay_core::executable::{ExecutableDocument as CoreDoc, Field as _};
use bluejay_core::AsIter as _;
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_validator::executable::operation::{
    analyzers::{
        complexity_cost::{CostComputer, DefaultCostComputer, FieldMultipliers, RelayCostComputer},
        ComplexityCost, Deprecation, InputSize, QueryDepth, VariableValuesAreValid,
    },
    OperationResolutionError, Orchestrator, VariableValues,
};
use bluejay_validator::executable::Cache;
use serde_json::{Map, Value as Json};

type Doc_<'a> = ExecutableDocument<'a>;
type Vars = Map<String, Json>;

pub struct Case {
    pub sdl: SDoc,
    pub m: Schema,
    pub d: Doc,
    /// the operation analysed
    pub at: usize,
    pub vars: Vars,
}

pub fn vars_for(s: &mut Src, m: &Schema, op: &Op) -> Vars {
    let mut map = Map::new();
    for v in &op.vars {
        let must = v.ty.is_req() && v.default.is_none();
        if !must && s.chance(2, 5) {
            continue;
        }
        // null for a condition is an execution error, which says nothing about inclusion
        let cond = v.ty.base() == "Boolean";
        let ty = if cond { v.ty.clone().req() } else { v.ty.clone() };
        let x = gen_schema::value(s, &m.types, &ty, 3, true, false, &mut gen_schema::no_var);
        map.insert(v.name.clone(), json(&x));
    }
    map
}

/// @skip/@include on selections, by literals or variables of the operation
pub fn conditions(s: &mut Src, d: &mut Doc) {
    let mut names = vec![];
    for (i, o) in d.ops.iter_mut().enumerate() {
        if s.chance(2, 3) {
            let default = if s.bool() { Some(Val::Bool(s.bool())) } else { None };
            let ty = Ty::Named("Boolean".into(), default.is_none() || s.bool());
            o.vars.push(VarDef { name: "cond".into(), ty, default, dirs: vec![] });
            o.short = false;
            names.push(i);
        }
    }
    let all = names.len() == d.ops.len();
    let mut sub: Vec<bool> = vec![];
    gen_doc::each_sels(d, &mut |l| {
        for x in l.iter_mut() {
            let has = |n: &str| x.dirs().iter().any(|d| d.name == n);
            let (sk, inc) = (has("skip"), has("include"));
            for (n, there) in [("skip", sk), ("include", inc)] {
                if !there && s.chance(1, 14) {
                    let v = if all && s.chance(1, 2) { Val::Var("cond".into()) } else { Val::Bool(s.chance(1, 2)) };
                    let at = s.below(x.dirs().len() + 1);
                    x.dirs_mut().insert(at, Dir { name: n.into(), args: vec![("if".into(), v)] });
                    sub.push(true);
                }
            }
        }
    });
}

pub fn case(s: &mut Src, cost: bool, deprecated: bool) -> Case {
    let applied = s.chance(1, 3);
    let small = s.bool();
    let sdl = gen_schema::schema(s, SOpts { applied, small, cost, deprecated, ..Default::default() });
    let m = Schema::resolve(&sdl).expect("generated schema");
    let introspection = s.chance(1, 4);
    let mut d = gen_doc::doc(s, &m, DOpts { introspection, ..Default::default() });
    conditions(s, &mut d);
    super::exec::tidy(&mut d);
    let at = s.below(d.ops.len());
    let vars = vars_for(s, &m, &d.ops[at]);
    Case { sdl, m, d, at, vars }
}

/// one whose few fields are selected over and over
pub fn tangled(s: &mut Src, names: tangle::Names) -> Case {
    let wild = *s.pick(&[10_000, 40]);
    let (sdl, m, mut d) = tangle::tangle(s, names, wild);
    if s.bool() {
        conditions(s, &mut d);
        super::exec::tidy(&mut d);
    }
    let vars = vars_for(s, &m, &d.ops[0]);
    Case { sdl, m, d, at: 0, vars }
}

impl Case {
    pub fn run(&self) -> Run<'_> {
        Run { sch: &self.m, doc: &self.d, op: &self.d.ops[self.at], vars: &self.vars }
    }
    pub fn name(&self) -> Option<&str> {
        self.d.ops[self.at].name.as_deref()
    }
    /// a variable nobody uses does not matter to the analyses
    pub fn valid(&self) -> bool {
        valid::validate(&self.m, &self.d).may.iter().all(|k| k.0 == "C15" && k.1.starts_with("unused"))
    }
    pub fn show(&self, ctx: &mut Ctx) -> (String, String) {
        let st = render::sdoc_text(&self.sdl);
        let t = render::doc_text(&self.d);
        ctx.show("schema", &st);
        ctx.show("document", &t);
        ctx.show("operation and variable values", &format!("{:?} {}", self.name(), Json::Object(self.vars.clone())));
        (st, t)
    }
}

pub fn depth<S: CoreSchema>(doc: &Doc_, sd: &S, name: Option<&str>, vars: &Vars) -> Result<usize, String> {
    let cache = Cache::new(doc, sd);
    Orchestrator::<Doc_, S, Vars, QueryDepth>::analyze(doc, sd, name, vars, &cache, ()).map_err(res)
}

/// a cost computer as a user writes one
pub struct Own;
#[derive(Default)]
pub struct OwnFactors(Option<(String, usize)>);
impl<'a, E: CoreDoc, S: CoreSchema, V: VariableValues> CostComputer<'a, E, S, V> for Own {
    type FieldMultipliers = OwnFactors;
    fn new(_: &'a E::OperationDefinition, _: &'a S, _: &'a V) -> Own {
        Own
    }
    fn cost_for_field_definition(&self, d: &S::FieldDefinition) -> usize {
        refop::own_weight(d.name(), d.arguments_definition().map_or(0, |a| a.len()))
    }
    fn field_multipliers(&self, d: &S::FieldDefinition, f: &E::Field) -> OwnFactors {
        OwnFactors(Some((d.name().to_string(), f.arguments().map_or(0, |a| a.len()))))
    }
}
impl<E: CoreDoc> FieldMultipliers<E> for OwnFactors {
    fn multiplier_for_field(&self, f: &E::Field) -> usize {
        self.0.as_ref().map_or(1, |(n, given)| refop::own_factor(n, *given, f.name()))
    }
}

pub fn cost<S: CoreSchema>(doc: &Doc_, sd: &S, name: Option<&str>, vars: &Vars, by: Tariff) -> Result<usize, String> {
    let cache = Cache::new(doc, sd);
    match by {
        Tariff::Relay => Orchestrator::<Doc_, S, Vars, ComplexityCost<_, _, _, RelayCostComputer<_, _, _>>>::analyze(doc, sd, name, vars, &cache, ()).map_err(res),
        Tariff::Own => Orchestrator::<Doc_, S, Vars, ComplexityCost<_, _, _, Own>>::analyze(doc, sd, name, vars, &cache, ()).map_err(res),
        Tariff::Default => Orchestrator::<Doc_, S, Vars, ComplexityCost<_, _, _, DefaultCostComputer>>::analyze(doc, sd, name, vars, &cache, ()).map_err(res),
    }
}

pub fn sizes<S: CoreSchema>(doc: &Doc_, sd: &S, name: Option<&str>, vars: &Vars, limit: usize) -> Result<Vec<(usize, String)>, String> {
    let cache = Cache::new(doc, sd);
    let l = Orchestrator::<Doc_, S, Vars, InputSize<_, _>>::analyze(doc, sd, name, vars, &cache, limit).map_err(res)?;
    Ok(l.into_iter().map(|o| (o.size, o.name)).collect())
}

pub fn deprecated<S: CoreSchema>(doc: &Doc_, sd: &S, name: Option<&str>, vars: &Vars) -> Result<Vec<(String, String, String)>, String> {
    let cache = Cache::new(doc, sd);
    let l = Orchestrator::<Doc_, S, Vars, Deprecation<_, _, _>>::analyze(doc, sd, name, vars, &cache, ()).map_err(res)?;
    Ok(l.iter().map(|o| (format!("{:?}", o.offense_type), o.name.to_string(), o.reason.to_string())).collect())
}

pub fn variables<S: CoreSchema>(doc: &Doc_, sd: &S, name: Option<&str>, vars: &Vars) -> Result<Vec<String>, String> {
    let cache = Cache::new(doc, sd);
    let l = Orchestrator::<Doc_, S, Vars, VariableValuesAreValid<_, _, _>>::analyze(doc, sd, name, vars, &cache, ()).map_err(res)?;
    let mut l: Vec<String> = l.iter().map(|o| o.message().to_string()).collect();
    l.sort();
    Ok(l)
}

fn res(e: OperationResolutionError<'_>) -> String {
    format!("operation not resolved: {}", e.message())
}

fn c21(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = if s.chance(1, 5) {
        ctx.tag("tangle");
        tangled(s, tangle::PLAIN)
    } else {
        case(s, false, false)
    };
    let (st, t) = c.show(ctx);
    if !c.valid() {
        ctx.tag("invalid document (nothing asserted)");
        return Ok(());
    }
    if !c.run().countable() {
        ctx.tag("too large to count (nothing asserted)");
        return Ok(());
    }
    let run = c.run();
    let want = run.depth();
    ctx.nontrivial = want >= 2;
    ctx.tag_if(t.contains("@ skip") || t.contains("@ include"), "with conditions");
    ctx.tag_if(!c.d.frags.is_empty(), "with fragments");
    // the same operation with every fragment written out
    let flat = inline(&c.d, c.at);
    let ft = render::doc_text(&flat);
    with_schema(&st, |sd| {
        let doc = parse_doc(&t)?;
        let got = depth(&doc, sd, c.name(), &c.vars)?;
        if got != want {
            return Err(format!("depth differs: {got}, expected {want}"));
        }
        let fdoc = parse_doc(&ft)?;
        let got = depth(&fdoc, sd, c.name(), &c.vars)?;
        if got != want {
            return Err(format!("depth changes when fragments are written out: {got}, expected {want}\n{ft}"));
        }
        Ok(())
    })
}

/// only the operation, its spreads replaced by inline fragments
pub fn inline(d: &Doc, at: usize) -> Doc {
    fn go(frags: &[Frag], l: &[Sel], left: &mut usize) -> Vec<Sel> {
        l.iter()
            .map(|s| match s {
                Sel::Field(f) => {
                    let mut f = f.clone();
                    f.sel = f.sel.as_ref().map(|l| go(frags, l, left));
                    Sel::Field(f)
                }
                Sel::Inline(on, ds, l) => Sel::Inline(on.clone(), ds.clone(), go(frags, l, left)),
                Sel::Spread(n, ds) => match frags.iter().find(|f| f.name == *n) {
                    Some(f) if *left > 0 => {
                        *left -= 1;
                        let mut dirs = ds.clone();
                        dirs.retain(|d| d.name == "skip" || d.name == "include");
                        Sel::Inline(Some(f.on.clone()), dirs, go(frags, &f.sel, left))
                    }
                    _ => s.clone(),
                },
            })
            .collect()
    }
    let mut o = d.ops[at].clone();
    o.sel = go(&d.frags, &o.sel, &mut 300);
    Doc { ops: vec![o], frags: d.frags.clone() }
}

fn c22(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = if s.chance(1, 4) {
        ctx.tag("tangle");
        tangled(s, tangle::PRICED)
    } else {
        let mut c = case(s, true, false);
        pages(s, &mut c);
        c
    };
    let (st, t) = c.show(ctx);
    if !c.valid() {
        ctx.tag("invalid document (nothing asserted)");
        return Ok(());
    }
    if !c.run().countable() {
        ctx.tag("too large to count (nothing asserted)");
        return Ok(());
    }
    // one more selection
    let mut more = Case { sdl: SDoc::default(), m: c.m.clone(), d: c.d.clone(), at: c.at, vars: c.vars.clone() };
    let mut places = 0;
    gen_doc::each_typed(&mut more.d, &c.m, &mut |_, _| places += 1);
    let mut k = s.below(places.max(1));
    let m = &c.m;
    gen_doc::each_typed(&mut more.d, m, &mut |l, scope| {
        if k == 0 {
            if let Some(fs) = m.fields.get(scope) {
                let def = s.pick(fs).clone();
                let f = gen_doc::plain_field(s, m, &def, Some("added".into()));
                l.push(f);
            }
        }
        k = k.wrapping_sub(1);
    });
    let more_ok = more.d != c.d && more.valid();
    let mt = render::doc_text(&more.d);
    let run = c.run();
    let relay = run.cost(Tariff::Relay, false);
    ctx.nontrivial = crate::props::exec::size(&c.d) >= 2;
    ctx.tag_if(t.contains("conn"), "with a connection");
    ctx.tag_if(relay != run.cost(Tariff::Relay, true), "fragments that never apply together");
    ctx.tag_if(relay == 0, "costs nothing");
    ctx.tag_if(relay == usize::MAX, "more than can be counted");
    ctx.tag_if(more_ok, "compared with one selection more");
    with_schema(&st, |sd| {
        let doc = parse_doc(&t)?;
        let mdoc = parse_doc(&mt)?;
        for r in Tariff::ALL {
            let got = cost(&doc, sd, c.name(), &c.vars, r)?;
            let want = run.cost(r, false);
            let which = format!("{r:?}");
            if got != want {
                return Err(format!("{which} cost differs: {got}, expected {want}"));
            }
            if got < run.cost(r, true) {
                return Err(format!("{which} cost {got} is below what some concrete types cost: {}", run.cost(r, true)));
            }
            if more_ok {
                let g2 = cost(&mdoc, sd, c.name(), &c.vars, r)?;
                if g2 < got {
                    return Err(format!("{which} cost falls from {got} to {g2} with one selection more\n{mt}"));
                }
            }
        }
        Ok(())
    })
}

/// sizes for the connections: literals, variables, variable defaults
fn pages(s: &mut Src, c: &mut Case) {
    let mut used = vec![];
    gen_doc::each_field(&mut c.d, &mut |f| {
        if f.name.starts_with("conn") {
            f.args.retain(|a| matches!(a.1, Val::Var(_)));
            for n in ["first", "last"] {
                if f.args.iter().any(|a| a.0 == n) {
                    continue;
                }
                let v = match s.weighted(&[3, 4, 3, 1]) {
                    0 => continue,
                    1 => Val::Int(*s.pick(&[0, 1, 2, 3, 5, 10, 50, 250, -1, i32::MAX])),
                    2 => {
                        let k = s.below(2);
                        used.push(k);
                        Val::Var(format!("page{k}"))
                    }
                    _ => Val::Null,
                };
                f.args.push((n.into(), v));
            }
        }
    });
    for o in &mut c.d.ops {
        let mut names = std::collections::BTreeSet::new();
        gen_doc::reach_vars(&c.d.frags, &o.sel, &o.dirs, &mut names, &mut Default::default());
        for k in 0..2 {
            let n = format!("page{k}");
            if names.contains(&n) {
                let default = if s.bool() { Some(Val::Int(*s.pick(&[1, 4, 20, 0]))) } else { None };
                o.vars.push(VarDef { name: n, ty: Ty::Named("Int".into(), s.chance(1, 4)), default, dirs: vec![] });
            }
        }
    }
    super::exec::tidy(&mut c.d);
    c.vars = vars_for(s, &c.m, &c.d.ops[c.at]);
    for k in 0..2 {
        if let Some(v) = c.vars.get_mut(&format!("page{k}")) {
            if !v.is_null() {
                *v = (*s.pick(&[0, 1, 2, 3, 7, 30, 100, -5])).into();
            }
        }
    }
}

fn multiset<T: Ord + Clone + std::fmt::Debug>(what: &str, mut got: Vec<T>, mut must: Vec<T>, mut may: Vec<T>) -> CaseResult {
    got.sort();
    must.sort();
    may.sort();
    let sub = |a: &[T], b: &[T]| -> Option<T> {
        let mut b = b.to_vec();
        for x in a {
            match b.iter().position(|y| y == x) {
                Some(i) => {
                    b.swap_remove(i);
                }
                None => return Some(x.clone()),
            }
        }
        None
    };
    if let Some(x) = sub(&must, &got) {
        return Err(format!("{what} not reported: {x:?}\nreported: {got:?}\nexpected: {must:?}"));
    }
    if let Some(x) = sub(&got, &may) {
        return Err(format!("{what} reported without cause: {x:?}\nreported: {got:?}\nexpected: {may:?}"));
    }
    Ok(())
}

fn c23(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = case(s, false, false);
    let limit = s.weighted(&[2, 5, 3, 1]);
    let (st, t) = c.show(ctx);
    ctx.show("limit", &limit.to_string());
    if !c.valid() {
        ctx.tag("invalid document (nothing asserted)");
        return Ok(());
    }
    let (must, may) = c.run().sizes(limit);
    let (all, _) = c.run().sizes(0);
    ctx.nontrivial = !all.is_empty() || !may.is_empty();
    ctx.tag(if must.is_empty() { "nothing too long" } else { "too long" });
    ctx.tag_if(may.len() != must.len(), "left open (in a skipped selection)");
    ctx.tag_if(must.iter().any(|m| m.1.contains('.')), "nested");
    let got = with_schema(&st, |sd| sizes(&parse_doc(&t)?, sd, c.name(), &c.vars, limit))?;
    multiset("list", got, must, may)
}

fn c24(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = case(s, false, true);
    let (st, t) = c.show(ctx);
    if !c.valid() {
        ctx.tag("invalid document (nothing asserted)");
        return Ok(());
    }
    let (must, may) = c.run().deprecated();
    ctx.nontrivial = !must.is_empty();
    for u in &must {
        ctx.tag(match u.0 {
            "Field" => "field",
            "Argument" => "argument",
            "EnumValue" => "enum value",
            _ => "input field",
        });
    }
    ctx.tag_if(must.is_empty(), "nothing deprecated used");
    ctx.tag_if(may.len() != must.len(), "left open (in a skipped selection)");
    let own = |l: Vec<crate::refop::Use>| l.into_iter().map(|u| (u.0.to_string(), u.1, u.2)).collect::<Vec<_>>();
    let got = with_schema(&st, |sd| deprecated(&parse_doc(&t)?, sd, c.name(), &c.vars))?;
    let got = got.into_iter().map(|(a, b, r)| (a, b, if r.trim_end_matches('.') == "No longer supported" { DEFAULT.to_string() } else { r })).collect();
    multiset("use", got, own(must), own(may))
}

// ---- C25

macro_rules! aty {
    (D) => { QueryDepth };
    (C) => { ComplexityCost<_, _, _, DefaultCostComputer> };
    (R) => { ComplexityCost<_, _, _, RelayCostComputer<_, _, _>> };
    (I) => { InputSize<_, _> };
    (P) => { Deprecation<_, _, _> };
    (V) => { VariableValuesAreValid<_, _, _> };
}
macro_rules! extra {
    (I) => {
        1usize
    };
    ($x:ident) => {
        ()
    };
}
fn lines(mut l: Vec<String>) -> String {
    l.sort();
    l.join("; ")
}
macro_rules! norm {
    (D $v:expr) => {
        $v.to_string()
    };
    (C $v:expr) => {
        $v.to_string()
    };
    (R $v:expr) => {
        $v.to_string()
    };
    (I $v:expr) => {
        lines($v.iter().map(|o| format!("{} {}", o.size, o.name)).collect())
    };
    (P $v:expr) => {
        lines($v.iter().map(|o| format!("{o:?}")).collect())
    };
    (V $v:expr) => {
        lines($v.iter().map(|o| o.message()).collect())
    };
}
macro_rules! alone {
    ($d:ident $s:ident $n:ident $v:ident $c:ident; $($k:ident)*) => {
        vec![$((stringify!($k), Orchestrator::<Doc_, MySchema, Vars, aty!($k)>::analyze($d, $s, $n, $v, $c, extra!($k)).map(|o| norm!($k o)).map_err(|e| e.message().into_owned()))),*]
    };
}
macro_rules! together {
    ($d:ident $s:ident $n:ident $v:ident $c:ident; $($k:ident $i:tt)*) => {
        Orchestrator::<Doc_, MySchema, Vars, ($(aty!($k)),*)>::analyze($d, $s, $n, $v, $c, ($(extra!($k)),*)).map(|o| vec![$((stringify!($k), norm!($k o.$i))),*]).map_err(|e| e.message().into_owned())
    };
}

type Alone = Vec<(&'static str, Result<String, String>)>;

fn analyze_all(d: &Doc_, sd: &MySchema, n: Option<&str>, v: &Vars, combos: bool) -> Result<Alone, String> {
    let cache = Cache::new(d, sd);
    let c = &cache;
    let alone = alone!(d sd n v c; D C R I P V);
    if combos {
        let outs = [
            together!(d sd n v c; D 0 C 1),
            together!(d sd n v c; I 0 P 1),
            together!(d sd n v c; V 0 D 1 R 2),
            together!(d sd n v c; P 0 V 1 I 2 C 3),
            together!(d sd n v c; R 0 I 1 D 2 V 3 P 4),
            together!(d sd n v c; C 0 P 1 D 2 I 3 V 4 R 5),
            together!(d sd n v c; D 0 I 1 P 2 V 3 R 4 C 5 D 6),
            together!(d sd n v c; V 0 R 1 C 2 P 3 I 4 D 5 V 6 P 7),
            together!(d sd n v c; I 0 I 1 D 2 C 3 R 4 P 5 V 6 D 7 R 8),
            together!(d sd n v c; P 0 D 1 V 2 I 3 C 4 R 5 P 6 D 7 I 8 V 9),
        ];
        for o in outs {
            match o {
                Ok(l) => {
                    for (k, x) in l {
                        let a = &alone.iter().find(|a| a.0 == k).unwrap().1;
                        if a.as_ref() != Ok(&x) {
                            return Err(format!("analyzer {k} together with others gives {x:?}, alone {a:?}"));
                        }
                    }
                }
                Err(e) => {
                    if alone.iter().any(|a| a.1.as_ref() != Err(&e)) {
                        return Err(format!("analyzers together fail with {e:?}, alone {alone:?}"));
                    }
                }
            }
        }
    }
    Ok(alone)
}

/// documents of many small operations, valid or not: operation `i` is `i` fields deep
fn resolution(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = s.weighted(&[1, 2, 3, 3, 2, 1]);
    let pool = ["A", "B", "a", "Ab", "A1", "_", "query", "on", "fragment"];
    let anonymous = s.below(3);
    let mut ops: Vec<Option<&str>> = vec![];
    let mut text = String::new();
    for i in 0..n {
        let name = if s.chance(anonymous, 3) { None } else { Some(*s.pick(&pool)) };
        ops.push(name);
        let deep = format!("{}i{}", "q { ".repeat(i), " }".repeat(i));
        match (name, s.below(3)) {
            (None, 0) => text.push_str(&format!("{{ {deep} }}\n")),
            (None, k) => text.push_str(&format!("{} {{ {deep} }}\n", ["query", "mutation"][k - 1])),
            (Some(x), k) => text.push_str(&format!("{} {x} {{ {deep} }}\n", ["query", "mutation", "subscription"][k])),
        }
    }
    if n == 0 || s.chance(1, 4) {
        text.push_str("fragment Frag on Query { i }\n");
    }
    let named: Vec<&str> = ops.iter().copied().flatten().collect();
    let ask = match s.below(4) {
        0 => None,
        1 => Some(*s.pick(&[&pool[..], &["Frag", "", "Query"][..]].concat())),
        _ if named.is_empty() => None,
        _ => Some(*s.pick(&named)),
    };
    let found: Vec<usize> = match ask {
        None if n == 1 => vec![0],
        None => vec![],
        Some(x) => (0..n).filter(|i| ops[*i] == Some(x)).collect(),
    };
    ctx.show("document", &text);
    ctx.show("asked for", &format!("{ask:?}"));
    ctx.nontrivial = n > 1;
    ctx.tag("small operations");
    ctx.tag(match found.len() {
        0 => "small: no operation",
        1 => "small: one operation",
        _ => "small: several of that name",
    });
    with_schema("type Query { i: Int q: Query } schema { query: Query mutation: Query subscription: Query }", |sd| {
        let doc = parse_doc(&text)?;
        let cache = Cache::new(&doc, sd);
        let none = Vars::new();
        let got = Orchestrator::<Doc_, MySchema, Vars, QueryDepth>::analyze(&doc, sd, ask, &none, &cache, ()).map(|d| d - 1).map_err(|e| e.message().into_owned());
        match (&got, &found[..]) {
            (Ok(i), l) if l.contains(i) => Ok(()),
            (Err(m), []) if ask.map_or(true, |n| m.contains(n)) => Ok(()),
            _ => Err(format!("operation {found:?} was asked for, got {got:?}")),
        }
    })
}

fn c25(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if s.chance(1, 4) {
        return resolution(s, ctx);
    }
    let cost = s.bool();
    let deprecated = s.bool();
    let mut c = case(s, cost, deprecated);
    if s.chance(1, 4) {
        c.vars.insert("unknown".into(), Json::Bool(true));
    }
    let (st, t) = c.show(ctx);
    ctx.nontrivial = c.d.ops.len() > 1;
    let names: Vec<Option<String>> = c.d.ops.iter().map(|o| o.name.clone()).collect();
    let ask: Option<String> = match s.below(4) {
        0 => None,
        1 => {
            let all: Vec<String> = names.iter().flatten().flat_map(|n| [format!("{n}x"), n.to_lowercase(), n.to_uppercase(), String::new()]).chain(c.d.frags.iter().map(|f| f.name.clone())).chain(["nope".into()]).collect();
            Some(s.pick(&all).clone())
        }
        _ => names[c.at].clone(),
    };
    ctx.show("asked for", &format!("{ask:?}"));
    let found = match &ask {
        None => {
            if c.d.ops.len() == 1 {
                Some(0)
            } else {
                None
            }
        }
        Some(n) => names.iter().position(|x| x.as_ref() == Some(n)),
    };
    ctx.tag(match (found, &ask) {
        (Some(_), Some(_)) => "named operation",
        (Some(_), None) => "the only operation",
        (None, Some(_)) => "no such operation",
        (None, None) => "ambiguous",
    });
    // the operation alone in its document, and last or first among the others
    let solo = found.map(|i| {
        let mut d = c.d.clone();
        d.ops = vec![c.d.ops[i].clone()];
        render::doc_text(&d)
    });
    let mut shuffled = c.d.clone();
    s.shuffle(&mut shuffled.ops);
    let sh = render::doc_text(&shuffled);
    with_schema(&st, |sd| {
        let doc = parse_doc(&t)?;
        let all = analyze_all(&doc, sd, ask.as_deref(), &c.vars, true)?;
        if all.iter().any(|a| a.1.is_ok() != found.is_some()) {
            return Err(format!("operation resolution differs: expected {found:?}, got {all:?}"));
        }
        let same = |label: &str, text: &str, n: Option<&str>| -> CaseResult {
            let d2 = parse_doc(text)?;
            let b = analyze_all(&d2, sd, n, &c.vars, false)?;
            if b != all {
                return Err(format!("results depend on other operations ({label}): {all:?} against {b:?}\n{text}"));
            }
            Ok(())
        };
        if let Some(x) = &solo {
            same("alone in its document", x, ask.as_deref())?;
            same("alone, asked for without a name", x, None)?;
        }
        same("other order", &sh, ask.as_deref())?;
        if let Some(i) = found {
            // the reference results for the right operation
            let run = Run { sch: &c.m, doc: &c.d, op: &c.d.ops[i], vars: &c.vars };
            if c.valid() && i == c.at {
                let d = all[0].1.clone();
                if d != Ok(run.depth().to_string()) {
                    return Err(format!("another operation was analysed: depth {d:?}, expected {}", run.depth()));
                }
            }
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    const A: &[&str] = &["operations are valid and variable values conform to their declarations", "null is not provided for a variable that decides inclusion"];
    let p = |id, rule, case, quick| Prop { id, quick, thorough: quick * 20, rule, case, assumptions: A };
    vec![
        p("C21", "the valid operation is at least two fields deep; distinct = distinct (schema, document, operation, variable values)", c21, 200_000),
        p("C22", "the valid document selects at least two things; distinct = distinct (schema, document, operation, variable values)", c22, 100_000),
        p("C23", "the valid operation passes some non-empty list or an offending one; distinct = distinct (schema, document, operation, variable values, limit)", c23, 200_000),
        p("C24", "the valid operation uses a deprecated element; distinct = distinct (schema, document, operation, variable values)", c24, 200_000),
        p("C25", "the document has several operations; distinct = distinct (schema, document, operation asked for, variable values)", c25, 200_000),
    ]
}
