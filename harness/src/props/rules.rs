//! C18: verdicts do not depend on irrelevant syntax, and rules and analyzers combine freely.
use super::exec::*;
use crate::ast::*;
use crate::engine::{CaseResult, Ctx, Prop};
use crate::gen_doc::{self, DOpts};
use crate::render;
use crate::schema::Schema;
use crate::src::Src;
use crate::tangle;
use crate::valid::Key;
use bluejay_core::definition::{DirectiveLocation, FieldDefinition, InputValueDefinition, SchemaDefinition as CoreSchema, TypeDefinitionReference};
use bluejay_core::executable::{self as x, ExecutableDocument as CoreDoc};
use bluejay_core::{Argument, Directive};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_validator::executable::document::{rules::*, Analyzer, BuiltinRules, BuiltinRulesValidator, Error, Orchestrator, Path, PathRoot, Rule, RuleErrorAdapter, Visitor};
use bluejay_validator::executable::Cache;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ an analyzer recording its visits

pub struct Trace<'a, E: CoreDoc, S: CoreSchema> {
    log: Vec<String>,
    p: std::marker::PhantomData<(&'a E, &'a S)>,
}

fn root<E: CoreDoc>(p: &Path<'_, E>) -> String {
    use x::{FragmentDefinition, OperationDefinition};
    match p.root() {
        PathRoot::Operation(o) => format!("op {}", o.as_ref().name().unwrap_or("")),
        PathRoot::Fragment(f) => format!("frag {}", f.name()),
    }
}

impl<'a, E: CoreDoc, S: CoreSchema> Visitor<'a, E, S> for Trace<'a, E, S> {
    fn new(_: &'a E, _: &'a S, _: &'a Cache<'a, E, S>) -> Self {
        Trace { log: vec![], p: Default::default() }
    }
    fn visit_operation_definition(&mut self, o: &'a E::OperationDefinition) {
        use x::OperationDefinition;
        self.log.push(format!("operation {}", o.as_ref().name().unwrap_or("")));
    }
    fn visit_selection_set(&mut self, s: &'a E::SelectionSet, t: TypeDefinitionReference<'a, S::TypeDefinition>) {
        use bluejay_core::AsIter;
        self.log.push(format!("set {} {}", t.name(), s.len()));
    }
    fn visit_field(&mut self, f: &'a E::Field, d: &'a S::FieldDefinition, p: &Path<'a, E>) {
        use x::Field;
        self.log.push(format!("field {} {} {}", f.response_name(), d.name(), root(p)));
    }
    fn visit_const_directive(&mut self, d: &'a E::Directive<true>, l: DirectiveLocation) {
        self.log.push(format!("const directive {} {l}", d.name()));
    }
    fn visit_variable_directive(&mut self, d: &'a E::Directive<false>, l: DirectiveLocation) {
        self.log.push(format!("directive {} {l}", d.name()));
    }
    fn visit_const_directives(&mut self, _: &'a E::Directives<true>, l: DirectiveLocation) {
        self.log.push(format!("const directives {l}"));
    }
    fn visit_variable_directives(&mut self, _: &'a E::Directives<false>, l: DirectiveLocation) {
        self.log.push(format!("directives {l}"));
    }
    fn visit_fragment_definition(&mut self, f: &'a E::FragmentDefinition) {
        use x::FragmentDefinition;
        self.log.push(format!("fragment {}", f.name()));
    }
    fn visit_inline_fragment(&mut self, f: &'a E::InlineFragment, t: TypeDefinitionReference<'a, S::TypeDefinition>) {
        use x::InlineFragment;
        self.log.push(format!("inline {:?} {}", f.type_condition(), t.name()));
    }
    fn visit_fragment_spread(&mut self, f: &'a E::FragmentSpread, t: TypeDefinitionReference<'a, S::TypeDefinition>, p: &Path<'a, E>) {
        use x::FragmentSpread;
        self.log.push(format!("spread {} {} {}", f.name(), t.name(), root(p)));
    }
    fn visit_const_argument(&mut self, a: &'a E::Argument<true>, d: &'a S::InputValueDefinition) {
        self.log.push(format!("const argument {} {}", a.name(), d.name()));
    }
    fn visit_variable_argument(&mut self, a: &'a E::Argument<false>, d: &'a S::InputValueDefinition, p: &Path<'a, E>) {
        self.log.push(format!("argument {} {} {}", a.name(), d.name(), root(p)));
    }
    fn visit_variable_definition(&mut self, v: &'a E::VariableDefinition) {
        use x::VariableDefinition;
        self.log.push(format!("variable {}", v.variable()));
    }
    fn visit_variable_definitions(&mut self, v: &'a E::VariableDefinitions) {
        use bluejay_core::AsIter;
        self.log.push(format!("variables {}", v.len()));
    }
}
impl<'a, E: CoreDoc, S: CoreSchema> Analyzer<'a, E, S> for Trace<'a, E, S> {
    type Output = Vec<String>;
    fn into_output(mut self) -> Vec<String> {
        self.log.sort();
        self.log
    }
}

/// what a visitor has to be shown: every part of the document whose type is known, once
fn expected_trace(d: &Doc, m: &Schema) -> Vec<String> {
    struct T<'a> {
        m: &'a Schema,
        out: Vec<String>,
    }
    impl T<'_> {
        fn dirs(&mut self, ds: &[Dir], loc: &str, root: &str, konst: bool) {
            if ds.is_empty() {
                return;
            }
            let c = if konst { "const " } else { "" };
            self.out.push(format!("{c}directives {loc}"));
            for x in ds {
                self.out.push(format!("{c}directive {} {loc}", x.name));
                if let Some(def) = self.m.dirs.get(&x.name) {
                    let defs = def.args.clone();
                    self.args(&x.args, &defs, root, konst);
                }
            }
        }
        fn args(&mut self, a: &Args, defs: &[InputVal], root: &str, konst: bool) {
            for (n, _) in a {
                if defs.iter().any(|d| &d.name == n) {
                    self.out.push(if konst { format!("const argument {n} {n}") } else { format!("argument {n} {n} {root}") });
                }
            }
        }
        fn sels(&mut self, l: &[Sel], t: &str, root: &str) {
            self.out.push(format!("set {t} {}", l.len()));
            for s in l {
                match s {
                    Sel::Field(f) => {
                        let Some(d) = self.m.field(t, &f.name).cloned() else { continue };
                        self.out.push(format!("field {} {} {root}", f.key(), d.name));
                        self.dirs(&f.dirs, "FIELD", root, false);
                        self.args(&f.args, &d.args, root, false);
                        if let Some(l) = &f.sel {
                            self.sels(l, d.ty.base(), root);
                        }
                    }
                    Sel::Inline(c, ds, l) => {
                        self.out.push(format!("inline {c:?} {t}"));
                        self.dirs(ds, "INLINE_FRAGMENT", root, false);
                        let t = c.as_deref().unwrap_or(t);
                        if self.m.types.contains_key(t) {
                            self.sels(l, t, root);
                        }
                    }
                    Sel::Spread(n, ds) => {
                        self.out.push(format!("spread {n} {t} {root}"));
                        self.dirs(ds, "FRAGMENT_SPREAD", root, false);
                    }
                }
            }
        }
    }
    let mut t = T { m, out: vec![] };
    for o in &d.ops {
        let n = o.name.as_deref().unwrap_or("");
        let root = format!("op {n}");
        t.out.push(format!("operation {n}"));
        t.dirs(&o.dirs, o.kind.loc(), &root, false);
        if !o.vars.is_empty() {
            t.out.push(format!("variables {}", o.vars.len()));
        }
        for v in &o.vars {
            t.out.push(format!("variable {}", v.name));
            t.dirs(&v.dirs, "VARIABLE_DEFINITION", &root, true);
        }
        if let Some(r) = m.roots.get(&o.kind) {
            t.sels(&o.sel, r, &root);
        }
    }
    for f in &d.frags {
        let root = format!("frag {}", f.name);
        t.out.push(format!("fragment {}", f.name));
        t.dirs(&f.dirs, "FRAGMENT_DEFINITION", &root, false);
        if m.types.contains_key(&f.on) {
            t.sels(&f.sel, &f.on, &root);
        }
    }
    t.out.sort();
    t.out
}

// ----------------------------------------------------------------------------------- combinations

type Bag = BTreeMap<Key, usize>;
fn bag(k: impl IntoIterator<Item = Key>) -> Bag {
    let mut b = Bag::new();
    for x in k {
        *b.entry(x).or_default() += 1;
    }
    b
}

pub struct MyErr(Key);
impl<'a, 't, S: CoreSchema> From<Error<'a, ExecutableDocument<'t>, S>> for MyErr {
    fn from(e: Error<'a, ExecutableDocument<'t>, S>) -> Self {
        MyErr(key(&e))
    }
}

type Err<'a, 't, 's> = Error<'a, ExecutableDocument<'t>, MySchema<'s>>;
type C<'a, 't, 's> = Cache<'a, ExecutableDocument<'t>, MySchema<'s>>;

fn alone<'a, 't: 'a, 's: 'a, R>(d: &'a ExecutableDocument<'t>, s: &'a MySchema<'s>, c: &'a C<'a, 't, 's>) -> Vec<Key>
where
    R: Rule<'a, ExecutableDocument<'t>, MySchema<'s>, Error = Err<'a, 't, 's>>,
{
    Orchestrator::<_, _, R>::validate(d, s, c).map(|e| key(&e)).collect()
}

fn adapted<'a, 't: 'a, 's: 'a, R>(d: &'a ExecutableDocument<'t>, s: &'a MySchema<'s>, c: &'a C<'a, 't, 's>) -> Vec<Key>
where
    R: Rule<'a, ExecutableDocument<'t>, MySchema<'s>, Error = MyErr>,
{
    Orchestrator::<_, _, R>::validate(d, s, c).map(|e| e.0).collect()
}

fn traced<'a, 't: 'a, 's: 'a, A>(d: &'a ExecutableDocument<'t>, s: &'a MySchema<'s>, c: &'a C<'a, 't, 's>) -> A::Output
where
    A: Analyzer<'a, ExecutableDocument<'t>, MySchema<'s>>,
{
    Orchestrator::<_, _, A>::analyze(d, s, c)
}

fn combine(doc: &ExecutableDocument<'_>, sd: &MySchema<'_>, want_trace: &[String]) -> CaseResult {
    let cache = Cache::new(doc, sd);
    let (d, s, c) = (doc, sd, &cache);
    type E<'t> = ExecutableDocument<'t>;
    type S<'s> = MySchema<'s>;
    let all = bag(BuiltinRulesValidator::validate(d, s, c).map(|e| key(&e)));
    macro_rules! each {
        ($($r:ident $(<$g:ty>)?),*) => { vec![$((stringify!($r), alone::<$r<'_, E<'_> $(, $g)?>>(d, s, c))),*] };
    }
    let parts: Vec<(&str, Vec<Key>)> = each!(
        NamedOperationNameUniqueness,
        LoneAnonymousOperation,
        SubscriptionOperationSingleRootField,
        FieldSelections<S<'_>>,
        FieldSelectionMerging<S<'_>>,
        OperationTypeIsDefined<S<'_>>,
        LeafFieldSelections<S<'_>>,
        ArgumentNames<S<'_>>,
        ArgumentUniqueness<S<'_>>,
        RequiredArguments<S<'_>>,
        FragmentNameUniqueness,
        FragmentSpreadTypeExists<S<'_>>,
        FragmentsOnCompositeTypes<S<'_>>,
        FragmentsMustBeUsed,
        FragmentSpreadTargetDefined<S<'_>>,
        FragmentSpreadsMustNotFormCycles<S<'_>>,
        FragmentSpreadIsPossible<S<'_>>,
        ValueIsValid<S<'_>>,
        DirectivesAreDefined<S<'_>>,
        DirectivesAreInValidLocations<S<'_>>,
        DirectivesAreUniquePerLocation<S<'_>>,
        VariableUniqueness<S<'_>>,
        VariablesAreInputTypes<S<'_>>,
        AllVariableUsesDefined<S<'_>>,
        AllVariablesUsed<S<'_>>,
        AllVariableUsagesAllowed<S<'_>>
    );
    let sum = bag(parts.iter().flat_map(|p| p.1.clone()));
    if sum != all {
        return Err(format!("the rules one by one report\n{sum:?}\ntogether they report\n{all:?}"));
    }
    macro_rules! tuple {
        ($i:expr; $($r:ident $(<$g:ty>)?),*) => {{
            let names = [$(stringify!($r)),*];
            let sum = bag(parts.iter().filter(|p| names.contains(&p.0)).flat_map(|p| p.1.clone()));
            let got = bag(alone::<($($r<'_, E<'_> $(, $g)?>,)*)>(d, s, c));
            if got != sum {
                return Err(format!("{names:?} one by one report\n{sum:?}\nas a tuple\n{got:?}"));
            }
            let got = bag(adapted::<($(RuleErrorAdapter<$r<'_, E<'_> $(, $g)?>, MyErr>,)*)>(d, s, c));
            if got != sum {
                return Err(format!("{names:?} one by one report\n{sum:?}\nas a tuple of adapters\n{got:?}"));
            }
        }};
    }
    tuple!(2; FieldSelections<S<'_>>, LoneAnonymousOperation);
    tuple!(3; FragmentNameUniqueness, ArgumentNames<S<'_>>, VariableUniqueness<S<'_>>);
    tuple!(4; LeafFieldSelections<S<'_>>, ValueIsValid<S<'_>>, AllVariablesUsed<S<'_>>, FragmentsMustBeUsed);
    tuple!(5; DirectivesAreDefined<S<'_>>, NamedOperationNameUniqueness, RequiredArguments<S<'_>>, OperationTypeIsDefined<S<'_>>, FieldSelectionMerging<S<'_>>);
    tuple!(6; FragmentSpreadTypeExists<S<'_>>, ArgumentUniqueness<S<'_>>, DirectivesAreInValidLocations<S<'_>>, AllVariableUsesDefined<S<'_>>, SubscriptionOperationSingleRootField, FieldSelections<S<'_>>);
    tuple!(7; FragmentsOnCompositeTypes<S<'_>>, VariablesAreInputTypes<S<'_>>, DirectivesAreUniquePerLocation<S<'_>>, AllVariableUsagesAllowed<S<'_>>, FragmentSpreadTargetDefined<S<'_>>, FragmentSpreadIsPossible<S<'_>>, FragmentSpreadsMustNotFormCycles<S<'_>>);
    tuple!(8; LoneAnonymousOperation, FieldSelections<S<'_>>, ArgumentNames<S<'_>>, ValueIsValid<S<'_>>, AllVariablesUsed<S<'_>>, DirectivesAreDefined<S<'_>>, FragmentsMustBeUsed, LeafFieldSelections<S<'_>>);
    tuple!(9; AllVariableUsagesAllowed<S<'_>>, AllVariablesUsed<S<'_>>, AllVariableUsesDefined<S<'_>>, VariablesAreInputTypes<S<'_>>, VariableUniqueness<S<'_>>, DirectivesAreUniquePerLocation<S<'_>>, DirectivesAreInValidLocations<S<'_>>, DirectivesAreDefined<S<'_>>, ValueIsValid<S<'_>>);
    tuple!(10; FragmentSpreadIsPossible<S<'_>>, FragmentSpreadsMustNotFormCycles<S<'_>>, FragmentSpreadTargetDefined<S<'_>>, FragmentsMustBeUsed, FragmentsOnCompositeTypes<S<'_>>, FragmentSpreadTypeExists<S<'_>>, FragmentNameUniqueness, RequiredArguments<S<'_>>, ArgumentUniqueness<S<'_>>, FieldSelectionMerging<S<'_>>);

    // analyzers
    type T<'a, 't, 's> = Trace<'a, E<'t>, S<'s>>;
    let one = traced::<T>(d, s, c);
    if one != want_trace {
        let a: Vec<_> = want_trace.iter().filter(|x| want_trace.iter().filter(|y| y == x).count() > one.iter().filter(|y| y == x).count()).collect();
        let b: Vec<_> = one.iter().filter(|x| one.iter().filter(|y| y == x).count() > want_trace.iter().filter(|y| y == x).count()).collect();
        return Err(format!("an analyzer was not shown {a:?}\nand was shown {b:?} without cause"));
    }
    macro_rules! traces {
        ($($i:tt),*; $t:ty) => {{
            let got = traced::<$t>(d, s, c);
            $(if got.$i != one { return Err(format!("analyzer {} of a tuple was shown {:?}, alone {:?}", $i, got.$i, one)); })*
        }};
    }
    traces!(0, 1; (T, T));
    traces!(0, 1, 2; (T, T, T));
    traces!(0, 1, 2, 3; (T, T, T, T));
    traces!(0, 1, 2, 3, 4; (T, T, T, T, T));
    traces!(0, 1, 2, 3, 4, 5; (T, T, T, T, T, T));
    traces!(0, 1, 2, 3, 4, 5, 6; (T, T, T, T, T, T, T));
    traces!(0, 1, 2, 3, 4, 5, 6, 7; (T, T, T, T, T, T, T, T));
    traces!(0, 1, 2, 3, 4, 5, 6, 7, 8; (T, T, T, T, T, T, T, T, T));
    traces!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9; (T, T, T, T, T, T, T, T, T, T));
    let (e, a) = Orchestrator::<E<'_>, S<'_>, (BuiltinRules<'_, E<'_>, S<'_>>, (T, T))>::validate_and_analyze(d, s, c);
    let e = bag(e.map(|e| key(&e)));
    if e != all {
        return Err(format!("beside analyzers the rules report\n{e:?}\nalone\n{all:?}"));
    }
    if a.0 != one || a.1 != one {
        return Err("beside the rules an analyzer was shown something else".into());
    }
    let rule = parts[3].1.clone();
    let (e, a) = Orchestrator::<E<'_>, S<'_>, (FieldSelections<'_, E<'_>, S<'_>>, T)>::validate_and_analyze(d, s, c);
    if bag(e.map(|e| key(&e))) != bag(rule) || a != one {
        return Err("one rule with one analyzer differs from each of them alone".into());
    }
    Ok(())
}

// ------------------------------------------------------------------------------ metamorphic variants

fn rename(d: &Doc, pre: &str) -> Doc {
    let mut d = d.clone();
    let r = |n: &str| format!("{pre}{n}");
    gen_doc::each_value(&mut d, &mut |v, _| {
        if let Val::Var(n) = v {
            *n = r(n)
        }
    });
    gen_doc::each_sels(&mut d, &mut |l| {
        for s in l {
            match s {
                Sel::Spread(n, _) => *n = r(n),
                Sel::Field(f) => f.alias = Some(r(f.key())),
                _ => {}
            }
        }
    });
    for o in &mut d.ops {
        if let Some(n) = &mut o.name {
            *n = r(n)
        }
        for v in &mut o.vars {
            v.name = r(&v.name)
        }
    }
    for f in &mut d.frags {
        f.name = r(&f.name)
    }
    d
}

/// reorder everything whose order carries no meaning
fn reorder(d: &Doc, s: &mut Src, names_unique: bool) -> Doc {
    let mut d = d.clone();
    if names_unique {
        s.shuffle(&mut d.ops);
        s.shuffle(&mut d.frags);
        for o in &mut d.ops {
            s.shuffle(&mut o.vars)
        }
    }
    gen_doc::each_args(&mut d, &mut |a, _| {
        let names: BTreeSet<&String> = a.iter().map(|x| &x.0).collect();
        if names.len() == a.len() {
            s.shuffle(a)
        }
    });
    gen_doc::each_dirs(&mut d, &mut |l, _| {
        let names: BTreeSet<&String> = l.iter().map(|x| &x.name).collect();
        if names.len() == l.len() {
            s.shuffle(l)
        }
    });
    gen_doc::each_sels(&mut d, &mut |l| s.shuffle(l));
    d
}

/// wrap random parts of selection sets in inline fragments that select the same type
fn wrap(d: &Doc, s: &mut Src, m: &Schema) -> Doc {
    let mut d = d.clone();
    gen_doc::each_typed(&mut d, m, &mut |l, t| {
        if l.is_empty() || !s.chance(1, 3) {
            return;
        }
        let a = s.below(l.len());
        let b = s.range(a, l.len() - 1);
        let part: Vec<Sel> = l.drain(a..=b).collect();
        let cond = if m.overlap(t, t) && s.bool() { Some(t.to_string()) } else { None };
        l.insert(a, Sel::Inline(cond, vec![], part));
    });
    d
}

/// repeat random selections as they are
fn repeat(d: &Doc, s: &mut Src) -> Doc {
    let mut d = d.clone();
    gen_doc::each_sels(&mut d, &mut |l| {
        if !l.is_empty() && s.chance(1, 4) {
            let i = s.below(l.len());
            let j = s.below(l.len() + 1);
            let x = l[i].clone();
            l.insert(j, x);
        }
    });
    d
}

/// replace one fragment's spreads by inline fragments of the same content
fn inlined(d: &Doc, s: &mut Src) -> Option<Doc> {
    let ok: Vec<&Frag> = d
        .frags
        .iter()
        .filter(|f| {
            // reachable from itself: has no finite inlining
            let mut seen = BTreeSet::new();
            let mut todo = vec![f.name.clone()];
            while let Some(n) = todo.pop() {
                let mut out = BTreeSet::new();
                for g in d.frags.iter().filter(|g| g.name == n) {
                    crate::valid::all_spreads(&g.sel, &mut out);
                }
                for n in out {
                    if n == f.name {
                        return false;
                    }
                    if seen.insert(n.clone()) {
                        todo.push(n)
                    }
                }
            }
            f.dirs.is_empty()
        })
        .collect();
    if ok.is_empty() {
        return None;
    }
    let f = (*s.pick(&ok)).clone();
    let mut used = BTreeSet::new();
    d.ops.iter().for_each(|o| crate::valid::all_spreads(&o.sel, &mut used));
    d.frags.iter().for_each(|o| crate::valid::all_spreads(&o.sel, &mut used));
    if !used.contains(&f.name) {
        return None;
    }
    let mut d = d.clone();
    d.frags.retain(|g| g.name != f.name);
    gen_doc::each_sels(&mut d, &mut |l| {
        for x in l {
            if let Sel::Spread(n, ds) = x {
                if *n == f.name {
                    *x = Sel::Inline(Some(f.on.clone()), ds.clone(), f.sel.clone());
                }
            }
        }
    });
    // directives may tell a spread from an inline fragment
    let mut dirs = 0;
    gen_doc::each_sels(&mut d.clone(), &mut |l| {
        for x in l {
            if let Sel::Inline(_, ds, _) = x {
                dirs += ds.len()
            }
        }
    });
    (dirs == 0).then_some(d)
}

fn counts(b: &Bag, f: impl Fn(&Key) -> Option<String>) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for (k, _) in b {
        if let Some(n) = f(k) {
            *m.entry(n).or_default() += 1;
        }
    }
    m
}

/// conflicts and cycles are reported at one of several equivalent places
fn verdict(b: &Bag) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for (k, _) in b {
        let loose = k.0 == "C16" || k.1.starts_with("cycle ");
        let n = if loose { format!("{} {}", k.0, k.1.split(' ').next().unwrap().replace("types", "conflict").replace("names", "conflict").replace("args", "conflict")) } else { format!("{} {}", k.0, k.1) };
        m.insert(n, 1);
    }
    m
}

fn groups(b: &Bag) -> BTreeSet<&'static str> {
    b.keys().map(|k| k.0).collect()
}

fn keys(sd: &MySchema, t: &str) -> Result<Bag, String> {
    let doc = parse_doc(t)?;
    let cache = Cache::new(&doc, sd);
    let b = bag(BuiltinRulesValidator::validate(&doc, sd, &cache).map(|e| key(&e)));
    Ok(b)
}

fn c18(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (sdl, m, mut d, n);
    if s.chance(1, 7) {
        ctx.tag("tangle");
        let wild = *s.pick(&[400, 60, 12]);
        (sdl, m, d) = tangle::tangle(s, tangle::PLAIN, wild);
        n = s.weighted(&[5, 1]);
    } else {
        (sdl, m) = gen_sch(s);
        let o = DOpts { collide: s.chance(1, 4), ..Default::default() };
        d = gen_doc::doc(s, &m, o);
        n = s.weighted(&[2, 3, 2, 1]);
    }
    for _ in 0..n {
        let g = *s.pick(&["C11", "C12", "C13", "C14", "C15", "C16", "C17"]);
        gen_doc::corrupt(&mut d, s, &m, g);
    }
    tidy(&mut d);
    let st = render::sdoc_text(&sdl);
    let t = render::doc_text(&d);
    ctx.show("schema", &st);
    ctx.show("document", &t);
    ctx.nontrivial = size(&d) >= 2;
    let dup = |l: Vec<&str>| {
        let n = l.len();
        l.into_iter().collect::<BTreeSet<_>>().len() != n
    };
    let unique = !dup(d.frags.iter().map(|f| f.name.as_str()).collect()) && !d.ops.iter().any(|o| dup(o.vars.iter().map(|v| v.name.as_str()).collect()));
    ctx.tag(if unique { "names unique" } else { "names repeated" });
    let what = s.below(8);
    with_schema(&st, |sd| {
        if what == 0 {
            ctx.tag("combinations");
            let doc = parse_doc(&t)?;
            return combine(&doc, sd, &expected_trace(&d, &m));
        }
        let base = keys(sd, &t)?;
        ctx.tag(if base.is_empty() { "valid" } else { "invalid" });
        let mut check = |ctx: &mut Ctx, what: &'static str, t2: String, rel: &dyn Fn(&Bag, &Bag) -> bool| -> CaseResult {
            ctx.tag(what);
            ctx.show(what, &t2);
            let b = keys(sd, &t2)?;
            if rel(&base, &b) {
                Ok(())
            } else {
                Err(format!("{what}: {:?} became {:?}", base.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>()))
            }
        };
        let exact = |a: &Bag, b: &Bag| a == b;
        let same = |a: &Bag, b: &Bag| verdict(a) == verdict(b);
        let kinds = |a: &Bag, b: &Bag| groups(a) == groups(b);
        let numbers = |a: &Bag, b: &Bag| {
            let f = |k: &Key| Some(format!("{} {}", k.0, k.1.split(' ').next().unwrap()));
            counts(a, f) == counts(b, f)
        };
        match what {
            1 => {
                let pre = s.pick(&["r_", "Z", "a0_", "__"]).to_string();
                check(ctx, "renamed", render::doc_text(&rename(&d, &pre)), &numbers)
            }
            2 => {
                let t2 = render::doc_text(&reorder(&d, s, unique));
                check(ctx, "reordered", t2, &same)
            }
            3 => {
                let t2 = render::doc_text(&wrap(&d, s, &m));
                check(ctx, "wrapped in inline fragments", t2, &same)
            }
            4 => {
                let toks = render::doc_tokens(&d, Some(s));
                let t2 = render::join_random(&toks, s);
                check(ctx, "laid out differently", t2, &exact)
            }
            5 => {
                let t2 = render::doc_text(&repeat(&d, s));
                check(ctx, "selections repeated", t2, &same)
            }
            6 => {
                // what is spread below something undefined is left open
                let opaque = ["field ", "root ", "leaf ", "frag-type", "inline-type", "frag-not", "inline-not"];
                let rooted = !base.keys().any(|k| opaque.iter().any(|o| k.1.starts_with(o)));
                let Some(d2) = (unique && rooted).then(|| inlined(&d, s)).flatten() else {
                    ctx.tag("nothing to inline");
                    return Ok(());
                };
                check(ctx, "fragment inlined", render::doc_text(&d2), &kinds)
            }
            _ => {
                if d.ops.iter().any(|o| o.name.is_none()) {
                    ctx.tag("no room for another operation");
                    return Ok(());
                }
                let mut d2 = d.clone();
                let q = Op { kind: OpKind::Query, short: false, name: Some("zzz".into()), vars: vec![], dirs: vec![], sel: vec![Sel::Field(Field { alias: None, name: "__typename".into(), args: vec![], dirs: vec![], sel: None })] };
                let i = s.below(d2.ops.len() + 1);
                d2.ops.insert(i, q);
                check(ctx, "unrelated operation added", render::doc_text(&d2), &exact)
            }
        }
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        quick: 200_000,
        thorough: 4_000_000,
        rule: "the document selects at least two things; distinct = distinct (schema, document, variant) texts",
        case: c18,
        assumptions: &["conflicts and cycles may be reported at any of the equivalent places", "where names are repeated the first-or-last choice is left open and definitions are not reordered"],
    }]
}
