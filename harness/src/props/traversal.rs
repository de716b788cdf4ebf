//! C38: what an analyzer of an operation is shown. An analyzer of this harness records every call
//! it gets; the calls are compared with a walk over the operation of the harness's own.
use super::analysis::{self as an, Case};
use super::exec::{parse_doc, with_schema, MySchema};
use crate::ast::*;
use crate::dump;
use crate::engine::{CaseResult, Ctx, Prop};
use crate::refop::Run;
use crate::src::Src;
use bluejay_core::definition::{FieldDefinition, InputValueDefinition, SchemaDefinition as CoreSchema, TypeDefinitionReference};
use bluejay_core::executable::{ExecutableDocument as CoreDoc, Field as _, VariableDefinition as _};
use bluejay_core::{Argument as _, AsIter};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_validator::executable::operation::{Analyzer, Orchestrator, VariableValues, Visitor};
use bluejay_validator::executable::Cache;
use serde_json::{Map, Value as Json};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// key, definition, type it belongs to, whether it is included
    Visit(String, String, String, bool),
    Leave(String, String, String, bool),
    Arg(String),
    Var(String),
}

/// the calls one analyzer got, and the extra information it was made with
pub struct Calls<const N: usize> {
    extra: String,
    log: Vec<Ev>,
}

fn show_def<I: InputValueDefinition>(d: &I) -> String {
    format!("{:?}", dump::input_val(d))
}

impl<'a, E: CoreDoc, S: CoreSchema, V: VariableValues, const N: usize> Visitor<'a, E, S, V> for Calls<N> {
    type ExtraInfo = [u32; N];
    fn new(o: &'a E::OperationDefinition, _: &'a S, v: &'a V, _: &'a Cache<'a, E, S>, extra: [u32; N]) -> Self {
        use bluejay_core::executable::OperationDefinition as _;
        Calls { extra: format!("{extra:?} {:?} {}", o.as_ref().name(), v.iter().count()), log: vec![] }
    }
    fn visit_variable_argument(&mut self, a: &'a E::Argument<false>, d: &'a S::InputValueDefinition) {
        self.log.push(Ev::Arg(format!("{}: {:?} as {}", a.name(), dump::val(a.value()), show_def(d))));
    }
    fn visit_field(&mut self, f: &'a E::Field, d: &'a S::FieldDefinition, t: TypeDefinitionReference<'a, S::TypeDefinition>, included: bool) {
        self.log.push(Ev::Visit(f.response_name().into(), format!("{:?} {:?}", d.name(), dump::oty(d.r#type())), t.name().into(), included));
    }
    fn leave_field(&mut self, f: &'a E::Field, d: &'a S::FieldDefinition, t: TypeDefinitionReference<'a, S::TypeDefinition>, included: bool) {
        self.log.push(Ev::Leave(f.response_name().into(), format!("{:?} {:?}", d.name(), dump::oty(d.r#type())), t.name().into(), included));
    }
    fn visit_variable_definition(&mut self, v: &'a E::VariableDefinition) {
        self.log.push(Ev::Var(format!("{} {:?}", v.variable(), dump::vty(v.r#type()))));
    }
}

impl<'a, E: CoreDoc, S: CoreSchema, V: VariableValues, const N: usize> Analyzer<'a, E, S, V> for Calls<N> {
    type Output = (String, Vec<Ev>);
    fn into_output(self) -> Self::Output {
        (self.extra, self.log)
    }
}

/// the walk of the harness
struct Walk<'a> {
    run: Run<'a>,
    out: Vec<Ev>,
    spread: Vec<&'a str>,
}

impl<'a> Walk<'a> {
    fn args(&mut self, args: &Args, defs: &[InputVal]) {
        for (n, v) in args {
            if let Some(d) = defs.iter().find(|d| &d.name == n) {
                self.out.push(Ev::Arg(format!("{n}: {v:?} as {d:?}")));
            }
        }
    }
    fn dirs(&mut self, dirs: &[Dir]) {
        for d in dirs {
            if let Some(def) = self.run.sch.dirs.get(&d.name) {
                self.args(&d.args, &def.args);
            }
        }
    }
    fn sels(&mut self, l: &'a [Sel], scope: &str, included: bool) {
        for s in l {
            match s {
                Sel::Field(f) => {
                    let Some(d) = self.run.sch.field(scope, &f.name) else { continue };
                    let inc = included && self.run.included(&f.dirs);
                    self.dirs(&f.dirs);
                    let def = format!("{:?} {:?}", d.name, d.ty);
                    self.out.push(Ev::Visit(f.key().into(), def.clone(), scope.into(), inc));
                    self.args(&f.args, &d.args);
                    if let Some(l) = &f.sel {
                        self.sels(l, d.ty.base(), inc);
                    }
                    self.out.push(Ev::Leave(f.key().into(), def, scope.into(), inc));
                }
                Sel::Inline(on, dirs, l) => {
                    self.dirs(dirs);
                    let inc = included && self.run.included(dirs);
                    self.sels(l, on.as_deref().unwrap_or(scope), inc);
                }
                Sel::Spread(n, dirs) => {
                    self.dirs(dirs);
                    let inc = included && self.run.included(dirs);
                    if let Some(f) = self.run.doc.frags.iter().find(|f| f.name == *n) {
                        if !self.spread.contains(&n.as_str()) {
                            self.spread.push(n);
                            self.dirs(&f.dirs);
                            self.sels(&f.sel, &f.on, inc);
                            self.spread.pop();
                        }
                    }
                }
            }
        }
    }
}

fn expected(c: &Case) -> Vec<Ev> {
    let run = c.run();
    let op = run.op;
    let Some(root) = run.sch.roots.get(&op.kind) else { return vec![] };
    let mut w = Walk { run, out: vec![], spread: vec![] };
    w.dirs(&op.dirs);
    w.sels(&op.sel, root, true);
    for v in &op.vars {
        w.out.push(Ev::Var(format!("{} {:?}", v.name, v.ty)));
    }
    w.out
}

/// the visits in order, the variable definitions in order, and how often each argument is shown
fn parts(l: &[Ev]) -> (Vec<&Ev>, Vec<&Ev>, BTreeMap<&str, usize>) {
    let fields = l.iter().filter(|e| matches!(e, Ev::Visit(..) | Ev::Leave(..))).collect();
    let vars = l.iter().filter(|e| matches!(e, Ev::Var(..))).collect();
    let mut args = BTreeMap::new();
    for e in l {
        if let Ev::Arg(a) = e {
            *args.entry(a.as_str()).or_default() += 1;
        }
    }
    (fields, vars, args)
}

fn judge(got: &[Ev], want: &[Ev]) -> CaseResult {
    let (g, w) = (parts(got), parts(want));
    if g.0 != w.0 {
        let i = g.0.iter().zip(&w.0).take_while(|(a, b)| a == b).count();
        return Err(format!("fields: call {i} is {:?}, expected {:?}", g.0.get(i), w.0.get(i)));
    }
    if g.1 != w.1 {
        return Err(format!("variable definitions: {:?}, expected {:?}", g.1, w.1));
    }
    if g.2 != w.2 {
        let less: Vec<_> = w.2.iter().filter(|(k, n)| g.2.get(*k) != Some(n)).collect();
        let more: Vec<_> = g.2.iter().filter(|(k, n)| w.2.get(*k) != Some(n)).collect();
        return Err(format!("arguments: {more:?}, expected {less:?}"));
    }
    Ok(())
}

type Doc_<'a> = ExecutableDocument<'a>;
type Vars = Map<String, Json>;

fn c38(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let deprecated = s.bool();
    let c = an::case(s, false, deprecated);
    let (st, t) = c.show(ctx);
    if !c.valid() {
        ctx.tag("invalid document (nothing asserted)");
        return Ok(());
    }
    let want = expected(&c);
    let n = want.iter().filter(|e| matches!(e, Ev::Visit(..))).count();
    ctx.nontrivial = n > 2;
    ctx.tag_if(want.iter().any(|e| matches!(e, Ev::Visit(_, _, _, false))), "some field is not included");
    ctx.tag_if(want.iter().any(|e| matches!(e, Ev::Arg(..))), "arguments");
    ctx.tag_if(want.iter().any(|e| matches!(e, Ev::Var(..))), "variables");
    ctx.tag_if(n > 20, "more than twenty fields");
    let head = |x: String| format!("{x} {:?} {}", c.name(), c.vars.len());
    with_schema(&st, |sd| {
        let doc = parse_doc(&t)?;
        let (d, v) = (&doc, &c.vars);
        let cache = Cache::new(d, sd);
        let k = &cache;
        let one = Orchestrator::<Doc_, MySchema, Vars, Calls<1>>::analyze(d, sd, c.name(), v, k, [7]).map_err(|e| e.message().into_owned())?;
        if one.0 != head("[7]".into()) {
            return Err(format!("made with {:?}, expected {:?}", one.0, head("[7]".into())));
        }
        judge(&one.1, &want)?;
        // the same in company
        macro_rules! together {
            ($($n:tt),*) => {{
                let out = Orchestrator::<Doc_, MySchema, Vars, ($(together!(@ $n)),*)>::analyze(d, sd, c.name(), v, k, ($([$n; $n + 1]),*)).map_err(|e| e.message().into_owned())?;
                $(
                    let made = head(format!("{:?}", [$n; $n + 1]));
                    if out.$n.0 != made {
                        return Err(format!("analyzer {} of several was made with {:?}, expected {made:?}", $n, out.$n.0));
                    }
                    if out.$n.1 != one.1 {
                        return Err(format!("analyzer {} of several was shown {:?}, alone {:?}", $n, out.$n.1, one.1));
                    }
                )*
            }};
            (@ $n:tt) => { Calls<{ $n + 1 }> };
        }
        together!(0, 1);
        together!(0, 1, 2);
        together!(0, 1, 2, 3);
        together!(0, 1, 2, 3, 4);
        together!(0, 1, 2, 3, 4, 5);
        together!(0, 1, 2, 3, 4, 5, 6);
        together!(0, 1, 2, 3, 4, 5, 6, 7);
        together!(0, 1, 2, 3, 4, 5, 6, 7, 8);
        together!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9);
        ctx.evals = 10;
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C38",
        quick: 80_000,
        thorough: 1_500_000,
        rule: "a valid operation in which an analyzer visits more than two fields; distinct = distinct (schema, document, operation, values)",
        case: c38,
        assumptions: &["null is not provided for a variable that decides inclusion", "when arguments are shown relative to the fields is left open"],
    }]
}
