//! C01, C02, C04, C05, C06: text level.
use crate::ast::*;
use crate::dump;
use crate::engine::{CaseResult, Ctx, Prop};
use crate::gen_syn as g;
use crate::refparse as rp;
use crate::render::*;
use crate::src::Src;
use bluejay_parser::ast::definition::{DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::executable::{self as x, ExecutableDocument};
use bluejay_parser::ast::{ConstValue, Parse, ParseOptions, VariableValue};
use bluejay_parser::{Error, HasSpan};
use bluejay_core::AsIter;

fn opts(compat: bool) -> ParseOptions {
    ParseOptions { graphql_ruby_compatibility: compat }
}

pub fn parse_exec(t: &str, compat: bool) -> Result<ExecutableDocument<'_>, Vec<Error>> {
    ExecutableDocument::parse_with_options(t, opts(compat))
}
pub fn parse_def(t: &str, compat: bool) -> Result<DefinitionDocument<'_>, Vec<Error>> {
    DefinitionDocument::parse_with_options(t, opts(compat))
}

pub fn err_text(t: &str, e: Vec<Error>) -> String {
    Error::into_graphql_errors(t, e).into_iter().map(|e| format!("{} at {:?}", e.message, e.locations.iter().map(|l| (l.line, l.col)).collect::<Vec<_>>())).collect::<Vec<_>>().join("; ")
}

/// every (line, col) of a character of the text, or of its end, with its byte offset
pub fn positions(t: &str) -> std::collections::HashMap<(usize, usize), usize> {
    let mut m = std::collections::HashMap::new();
    let (mut l, mut c) = (1, 1);
    let b: Vec<(usize, char)> = t.char_indices().collect();
    for (k, (i, ch)) in b.iter().enumerate() {
        m.insert((l, c), *i);
        if *ch == '\n' || (*ch == '\r' && b.get(k + 1).map(|x| x.1) != Some('\n')) {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    m.insert((l, c), t.len());
    m
}

pub struct Locs {
    pub msgs: Vec<(String, Vec<(usize, usize)>)>,
}

/// Render errors both ways and check their locations against the text.
pub fn check_errors(what: &str, t: &str, errs: Vec<Error>, again: Vec<Error>, compat: bool) -> Result<Locs, String> {
    if errs.is_empty() {
        return Err(format!("no error: {what} rejected the text without any error"));
    }
    let report = Error::format_errors(t, Some("doc.graphql"), again);
    if !report.contains("Error") {
        return Err(format!("empty report: {what}: {report:?}"));
    }
    let n = errs.len();
    let gq = Error::into_graphql_errors(t, errs);
    let pos = positions(t);
    let lexed = rp::lex(t, compat);
    let starts: Option<std::collections::HashSet<usize>> = lexed.as_ref().ok().map(|l| l.iter().map(|t| t.start).chain([t.len()]).collect());
    let mut msgs = vec![];
    for e in &gq {
        if e.message.is_empty() {
            return Err(format!("empty message: {what}"));
        }
        let mut ls = vec![];
        for l in &e.locations {
            match pos.get(&(l.line, l.col)) {
                None => return Err(format!("location outside the text: {what}: {} at {}:{}", e.message, l.line, l.col)),
                Some(off) => {
                    if let Some(st) = &starts {
                        // an unexpected end is reported at the end of the text
                        if !st.contains(off) {
                            return Err(format!("location not at a token: {what}: {} at {}:{}", e.message, l.line, l.col));
                        }
                    }
                }
            }
            ls.push((l.line, l.col));
        }
        msgs.push((e.message.to_string(), ls));
    }
    if gq.len() < n {
        return Err(format!("errors lost: {what}: {n} errors give {} GraphQL errors; report: {report}", gq.len()));
    }
    Ok(Locs { msgs })
}

/// Errors of schema resolution; a document that gives the name of a built-in scalar to a type of
/// another kind is the recorded finding `builtin-scalar-replaced`.
pub fn check_resolution_errors(ctx: &mut Ctx, t: &str, dd: &DefinitionDocument<'_>, compat: bool) -> CaseResult {
    let errs = || -> Vec<Error> { SchemaDefinition::try_from(dd).err().unwrap_or_default().into_iter().map(Into::into).collect() };
    let r = crate::engine::guarded(|| check_errors("schema resolution", t, errs(), errs(), compat).map(|_| ())).unwrap_or_else(Err);
    if r.is_err() {
        let doc = rp::parse_sdoc(t, compat).unwrap_or_default();
        let replaced = doc.types().any(|t| crate::schema::SCALARS.contains(&t.name.as_str()) && t.kind != Kind::Scalar);
        let m = r.clone().err().unwrap_or_default();
        if replaced && (m.starts_with("location") || (m.starts_with("panic") && m.contains("ariadne"))) {
            ctx.known("builtin-scalar-replaced", format!("an error about the built-in definitions is located inside the document, or its report panics: {m}"));
            return Ok(());
        }
    }
    r
}

fn span_in(t: &str, r: &std::ops::Range<usize>, what: &str) -> Result<String, String> {
    if r.start > r.end || r.end > t.len() || !t.is_char_boundary(r.start) || !t.is_char_boundary(r.end) {
        return Err(format!("bad span: {what} {r:?} in a text of {} bytes", t.len()));
    }
    Ok(t[r.clone()].to_string())
}

fn ck_value<const C: bool>(t: &str, v: &bluejay_parser::ast::Value<'_, C>, compat: bool) -> CaseResult {
    let sl = span_in(t, v.span().byte_range(), "value")?;
    let toks = rp::lex(&sl, compat).map_err(|e| format!("value span: text {sl:?} of a value does not lex: {e:?}"))?;
    let mut p = rp::Ps::new(&toks);
    let rv = p.value(false).map_err(|_| format!("value span: text {sl:?} of a value is not a value"))?;
    let dv = dump::val::<C, _>(v);
    if rv != dv || !p.at_end() {
        return Err(format!("value span: text {sl:?} delimits {rv:?} but the value is {dv:?}"));
    }
    Ok(())
}

fn ck_name(t: &str, n: &str, span: &bluejay_parser::Span, what: &str) -> CaseResult {
    let sl = span_in(t, span.byte_range(), what)?;
    if sl != n {
        return Err(format!("name span: {what} {n:?} spans {sl:?}"));
    }
    Ok(())
}

/// the single selection that `{text}` reads as
fn one_sel(text: &str, compat: bool) -> Option<Sel> {
    let mut d = rp::parse_doc(&format!("{{{text}\n}}"), compat).ok()?;
    (d.ops.len() == 1 && d.frags.is_empty() && d.ops[0].sel.len() == 1).then(|| d.ops.remove(0).sel.remove(0))
}

fn ck_args(t: &str, a: Option<&bluejay_parser::ast::VariableArguments<'_>>, compat: bool) -> CaseResult {
    let Some(a) = a else { return Ok(()) };
    let sl = span_in(t, a.span().byte_range(), "arguments")?;
    match one_sel(&format!("a {sl}"), compat) {
        Some(Sel::Field(f)) if f.args == dump::args::<false, _>(Some(a)) && f.name == "a" && f.dirs.is_empty() && f.sel.is_none() => {}
        _ => return Err(format!("arguments span: {sl:?} are not the arguments")),
    }
    for a in a.iter() {
        let sl = span_in(t, a.span().byte_range(), "argument")?;
        match one_sel(&format!("a({sl}\n)"), compat) {
            Some(Sel::Field(f)) if f.args == [(a.name().as_ref().to_string(), dump::val::<false, _>(a.value()))] => {}
            _ => return Err(format!("argument span: {sl:?} is not the argument {}", a.name().as_ref())),
        }
        ck_name(t, a.name().as_ref(), a.name().span(), "argument name")?;
        ck_value(t, a.value(), compat)?;
    }
    Ok(())
}

fn ck_dirs(t: &str, ds: Option<&bluejay_parser::ast::VariableDirectives<'_>>, compat: bool) -> CaseResult {
    for (i, d) in ds.into_iter().flat_map(|d| d.iter()).enumerate() {
        let sl = span_in(t, d.span().byte_range(), "directive")?;
        match one_sel(&format!("a {sl}"), compat) {
            Some(Sel::Field(f)) if f.dirs.len() == 1 && Some(&f.dirs[0]) == dump::dirs::<false, _>(ds).get(i) => {}
            _ => return Err(format!("directive span: {sl:?} is not the directive {}", d.name().as_ref())),
        }
        ck_name(t, d.name().as_ref(), d.name().span(), "directive name")?;
        ck_args(t, bluejay_core::Directive::arguments(d), compat)?;
    }
    Ok(())
}

fn ck_sels(t: &str, s: &x::SelectionSet<'_>, compat: bool, depth: usize) -> CaseResult {
    let sl = span_in(t, s.span().byte_range(), "selection set")?;
    if !(sl.starts_with('{') && sl.ends_with('}')) {
        return Err(format!("selection set span: {sl:?}"));
    }
    // the whole text of every selection down to a depth, which keeps the cost in bounds
    let read = if depth < 6 { dump::sels(s) } else { vec![] };
    for (i, sel) in s.iter().enumerate() {
        match sel {
            x::Selection::Field(f) => {
                let sl = span_in(t, f.span().byte_range(), "field")?;
                ck_name(t, f.name().as_ref(), f.name().span(), "field name")?;
                if read.get(i).is_some_and(|want| one_sel(&sl, compat).as_ref() != Some(want)) {
                    return Err(format!("field span: {sl:?} is not the field {}", f.response_key()));
                }
                ck_args(t, f.arguments(), compat)?;
                ck_dirs(t, bluejay_core::executable::Field::directives(f), compat)?;
                if let Some(s) = f.selection_set() {
                    ck_sels(t, s, compat, depth + 1)?;
                }
            }
            x::Selection::FragmentSpread(f) => {
                let sl = span_in(t, f.span().byte_range(), "spread")?;
                // with or without its directives
                match one_sel(&sl, compat) {
                    Some(Sel::Spread(n, ds)) if n == f.name().as_ref() && (ds.is_empty() || ds == dump::dirs::<false, _>(bluejay_core::executable::FragmentSpread::directives(f))) => {}
                    _ => return Err(format!("spread span: {sl:?}")),
                }
                ck_name(t, f.name().as_ref(), f.name().span(), "spread name")?;
                ck_dirs(t, bluejay_core::executable::FragmentSpread::directives(f), compat)?;
            }
            x::Selection::InlineFragment(f) => {
                let sl = span_in(t, f.span().byte_range(), "inline fragment")?;
                if !sl.starts_with("...") || read.get(i).is_some_and(|want| one_sel(&sl, compat).as_ref() != Some(want)) {
                    return Err(format!("inline fragment span: {sl:?}"));
                }
                if let Some(c) = f.type_condition() {
                    ck_name(t, c.named_type().as_ref(), c.named_type().span(), "type condition")?;
                }
                ck_dirs(t, bluejay_core::executable::InlineFragment::directives(f), compat)?;
                ck_sels(t, f.selection_set(), compat, depth + 1)?;
            }
        }
    }
    Ok(())
}

fn ck_vars(t: &str, e: &x::ExplicitOperationDefinition<'_>, compat: bool) -> CaseResult {
    let Some(vs) = bluejay_core::executable::ExplicitOperationDefinition::variable_definitions(e) else { return Ok(()) };
    for v in vs.iter() {
        let sl = span_in(t, v.variable().span().byte_range(), "variable")?;
        // blanks may follow the dollar sign in compatibility mode
        if !sl.starts_with('$') || !sl.ends_with(v.variable().name()) {
            return Err(format!("variable span: {sl:?} is not ${}", v.variable().name()));
        }
        let mut ty = v.r#type();
        loop {
            let sl = span_in(t, ty.span().byte_range(), "variable type")?;
            let read = rp::parse_doc(&format!("query($a: {sl}\n){{a}}"), compat);
            if !read.is_ok_and(|d| d.ops.len() == 1 && d.ops[0].vars.len() == 1 && d.ops[0].vars[0].ty == dump::vty(ty) && d.ops[0].vars[0].dirs.is_empty() && d.ops[0].vars[0].default.is_none()) {
                return Err(format!("variable type span: {sl:?} is not the type of ${}", v.variable().name()));
            }
            match ty {
                x::VariableType::List { inner, .. } => ty = inner,
                _ => break,
            }
        }
        if let Some(v) = v.default_value() {
            ck_value(t, v, compat)?;
        }
    }
    Ok(())
}

fn ck_spans(t: &str, d: &ExecutableDocument<'_>, compat: bool) -> CaseResult {
    let read = dump::doc(d);
    for (i, o) in d.operation_definitions().iter().enumerate() {
        let sl = span_in(t, o.span().byte_range(), "operation")?;
        match rp::parse_doc(&sl, compat) {
            Ok(d) if d.ops.len() == 1 && d.frags.is_empty() && d.ops[0] == read.ops[i] => {}
            _ => return Err(format!("operation span: {sl:?} is not the operation")),
        }
        if let x::OperationDefinition::Explicit(e) = o {
            if let Some(n) = e.name() {
                ck_name(t, n.as_ref(), n.span(), "operation name")?;
            }
            ck_name(t, read.ops[i].kind.kw(), e.operation_type().span(), "operation type")?;
            ck_vars(t, e, compat)?;
            ck_dirs(t, bluejay_core::executable::ExplicitOperationDefinition::directives(e), compat)?;
        }
        ck_sels(t, o.selection_set(), compat, 0)?;
    }
    for (i, f) in d.fragment_definitions().iter().enumerate() {
        let sl = span_in(t, f.span().byte_range(), "fragment definition")?;
        match rp::parse_doc(&sl, compat) {
            Ok(d) if d.frags.len() == 1 && d.ops.is_empty() && d.frags[0] == read.frags[i] => {}
            _ => return Err(format!("fragment span: {sl:?} is not a fragment definition")),
        }
        ck_name(t, f.name().as_ref(), f.name().span(), "fragment name")?;
        let c = f.type_condition().named_type();
        ck_name(t, c.as_ref(), c.span(), "type condition")?;
        ck_dirs(t, bluejay_core::executable::FragmentDefinition::directives(f), compat)?;
        ck_sels(t, f.selection_set(), compat, 0)?;
    }
    Ok(())
}

pub fn any_text(s: &mut Src, ctx: &mut Ctx) -> String {
    let k = s.weighted(&[3, 3, 3, 3, 3, 3, 3, 2, 1]);
    ctx.tag(["soup", "doc", "doc-token-mutant", "doc-char-mutant", "sdl", "sdl-token-mutant", "sdl-char-mutant", "value", "nested"][k]);
    match k {
        0 => g::soup(s),
        1..=3 => {
            let d = g::doc(s);
            let mut toks = doc_tokens(&d, Some(s));
            if k == 2 {
                g::mutate_tokens(&mut toks, s);
            }
            let t = join_random(&toks, s);
            if k == 3 {
                g::mutate_chars(&t, s)
            } else {
                t
            }
        }
        4..=6 => {
            let d = g::sdoc(s);
            let mut toks = sdoc_tokens(&d, Some(s));
            if k == 5 {
                g::mutate_tokens(&mut toks, s);
            }
            let t = join_random(&toks, s);
            if k == 6 {
                g::mutate_chars(&t, s)
            } else {
                t
            }
        }
        7 => {
            let v = g::val(s, false, 4);
            let mut o = Out::new(Some(s));
            o.val(&v);
            let mut toks = o.toks;
            if s.chance(1, 3) {
                g::mutate_tokens(&mut toks, s);
            }
            let t = join_random(&toks, s);
            if s.chance(1, 3) {
                g::mutate_chars(&t, s)
            } else {
                t
            }
        }
        _ => {
            let n = s.range(1, 150);
            let (o, m, c) = *s.pick(&[("[", "1", "]"), ("{a:", "1", "}"), ("{a", "", "}"), ("...{", "a", "}"), ("{a(x:[", "1", "])}"), ("[", "A", "]!")]);
            let close = if s.chance(1, 3) { s.below(n) } else { n };
            let pre = s.pick(&["", "{", "{f(x:", "query(a:", "type A{a:"]).to_string();
            format!("{pre}{}{m}{}", o.repeat(n), c.repeat(close))
        }
    }
}

/// text whose positions shift the rest by whole lines
fn prefix_lines(s: &mut Src) -> (String, usize) {
    let n = s.range(0, 3);
    let mut o = String::new();
    for _ in 0..n {
        o.push_str(*s.pick(&[" ", "\t,", "#", "# é🔥\"", "#\u{2028}z", "#\u{85}", "#\u{b}\u{c}", "\u{FEFF}"]));
        o.push_str(*s.pick(&["\n", "\r\n", "\r"]));
    }
    (o, n)
}

fn c01(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if s.chance(1, 1000) {
        return super::scale::deep(s, ctx);
    }
    let t = any_text(s, ctx);
    let compat = s.chance(1, 3);
    ctx.show("text", &format!("compat={compat} {t:?}"));
    ctx.nontrivial = !t.trim().is_empty();
    let (pre, nl) = prefix_lines(s);
    let mut col_pre = s.pick(&["", " ", ",\t", "\u{FEFF}", "\u{FEFF}\u{FEFF} "]).to_string();
    if pre.ends_with('\r') && col_pre.is_empty() && t.starts_with('\n') {
        col_pre = " ".into(); // keep the two from joining into one line terminator
    }
    let shifted = |t: &str| format!("{pre}{col_pre}{t}");
    let shift = |l: &Locs| -> Vec<(String, Vec<(usize, usize)>)> {
        let c = col_pre.chars().count();
        l.msgs.iter().map(|(m, ls)| (m.clone(), ls.iter().map(|(a, b)| (a + nl, if *a == 1 { b + c } else { *b })).collect())).collect()
    };
    let t2 = shifted(&t);
    macro_rules! go {
        ($what:expr, $p:expr, $ok:expr) => {{
            let parse = $p;
            match parse(&t, compat) {
                Ok(d) => {
                    ctx.tag(concat!($what, "-ok"));
                    #[allow(clippy::redundant_closure_call)]
                    ($ok)(&t, d)?;
                    if let Err(e) = parse(&t2, compat) {
                        return Err(format!("prefix of ignored text: {} accepts {t:?} but not {t2:?}: {}", $what, err_text(&t2, e)));
                    }
                }
                Err(e) => {
                    ctx.tag(concat!($what, "-err"));
                    let again = parse(&t, compat).err().unwrap_or_default();
                    let l = check_errors($what, &t, e, again, compat)?;
                    // the same faults, moved by a prefix of ignored text
                    match (parse(&t2, compat).err(), parse(&t2, compat).err()) {
                        (Some(e), Some(f)) => {
                            let l2 = check_errors($what, &t2, e, f, compat)?;
                            if l2.msgs != shift(&l) {
                                return Err(format!("shifted locations: {} on {t2:?} gives {:?}, expected {:?}", $what, l2.msgs, shift(&l)));
                            }
                        }
                        _ => return Err(format!("prefix of ignored text: {} rejects {t:?} but not {t2:?}", $what)),
                    }
                }
            }
        }};
    }
    go!("executable", parse_exec, |t: &str, d: ExecutableDocument<'_>| ck_spans(t, &d, compat));
    fn pv(t: &str, compat: bool) -> Result<VariableValue<'_>, Vec<Error>> {
        VariableValue::parse_with_options(t, opts(compat))
    }
    fn pc(t: &str, compat: bool) -> Result<ConstValue<'_>, Vec<Error>> {
        ConstValue::parse_with_options(t, opts(compat))
    }
    // a value parse stops after the value: locations are only checked against the part it read
    go!("value", pv, |t: &str, d: VariableValue<'_>| ck_value(t, &d, compat));
    go!("constvalue", pc, |t: &str, d: ConstValue<'_>| ck_value(t, &d, compat));
    let mut schema_err = false;
    go!("definition", parse_def, |t: &str, d: DefinitionDocument<'_>| -> CaseResult {
        if d.definition_count() == 0 {
            return Err("empty: accepted a document without definitions".into());
        }
        let es: Result<SchemaDefinition<'_>, _> = SchemaDefinition::try_from(&d);
        if let Err(e) = es {
            schema_err = true;
            drop(e);
            check_resolution_errors(ctx, t, &d, compat)?;
        }
        Ok(())
    });
    ctx.tag_if(schema_err, "schema-resolution-errors");
    ctx.evals = 8;
    Ok(())
}

fn cmp_exec(t: &str, compat: bool, ctx: &mut Ctx) -> CaseResult {
    let r = rp::parse_doc(t, compat);
    match (parse_exec(t, compat), r) {
        (Ok(d), Ok(r)) => {
            ctx.tag("accepted");
            let d = dump::doc(&d);
            if d != r {
                return Err(format!("unfaithful AST: parsed\n{d:?}\nexpected\n{r:?}"));
            }
            Ok(())
        }
        (Err(_), Err(_)) => {
            ctx.tag("rejected");
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("accepts a text outside the grammar: {e}")),
        (Err(e), Ok(_)) => Err(format!("rejects a text of the grammar: {}", err_text(t, e))),
    }
}

fn exec_text(s: &mut Src) -> (String, &'static str) {
    let k = s.weighted(&[5, 4, 2, 1]);
    if k == 3 {
        return (g::soup(s), "soup");
    }
    let d = g::doc(s);
    let mut toks = doc_tokens(&d, Some(s));
    if k == 1 {
        g::mutate_tokens(&mut toks, s);
    }
    let t = join_random(&toks, s);
    if k == 2 {
        (g::mutate_chars(&t, s), "char-mutant")
    } else {
        (t, if k == 1 { "token-mutant" } else { "valid" })
    }
}

fn c02(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, k) = exec_text(s);
    ctx.tag(k);
    ctx.show("text", &format!("{t:?}"));
    ctx.nontrivial = t.len() > 3;
    cmp_exec(&t, false, ctx)
}

/// pieces of string and number literals, well-formed and not
fn literal(s: &mut Src, ctx: &mut Ctx) -> String {
    match s.weighted(&[6, 6, 3, 3]) {
        0 => {
            ctx.tag("string");
            let n = s.range(0, 8);
            let mut o = String::from("\"");
            for _ in 0..n {
                match s.weighted(&[5, 5, 4, 3, 3, 1]) {
                    0 => o.push_str(*s.pick(&["a", "u0041", " ", "é", "🔥", "#", ",", "{", "'", "\t", "\u{0}", "\u{2028}", "\u{FEFF}", "/"])),
                    1 => o.push_str(*s.pick(&["\\n", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\t"])),
                    2 => {
                        let c = match s.below(5) {
                            0 => s.below(0x80),
                            1 => 0xD800 + s.below(0x400),
                            2 => 0xDC00 + s.below(0x400),
                            3 => 0xD7FE + s.below(4),
                            _ => s.below(0x10000),
                        };
                        o.push_str(&if s.bool() { format!("\\u{c:04x}") } else { format!("\\u{c:04X}") })
                    }
                    3 => {
                        let c = 0x10000 + s.below(0x100000);
                        let (h, l) = (0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3ff));
                        o.push_str(&format!("\\u{h:04X}\\u{l:04x}"))
                    }
                    4 => {
                        let c = match s.below(4) {
                            0 => s.below(0x80),
                            1 => s.below(0x110000),
                            2 => 0xD7FF + s.below(0x802),
                            _ => 0x10FFF0 + s.below(0x20),
                        };
                        let pad = s.below(3);
                        o.push_str(&format!("\\u{{{}{c:x}}}", "0".repeat(pad)))
                    }
                    _ => o.push_str(*s.pick(&["\n", "\r", "\\x", "\\u", "\\u{", "\\u{}", "\\u12", "\\u{12", "\\u00zz", "\\u{zz}", "\\", "\"", "\\uD83D", "\\U0041", "\\a", "\\u{-1}", "\\u +12"])),
                }
            }
            if !s.chance(1, 25) {
                o.push('"');
            }
            o
        }
        1 => {
            ctx.tag("block-string");
            let n = s.range(0, 9);
            let mut o = String::from("\"\"\"");
            for _ in 0..n {
                o.push_str(*s.pick(&[
                    "\n", "\n", "\n  ", "\n\t", "\n ", "\r\n", "\r", " ", "  ", "\t", "a", "b c", "\\\"\"\"", "\"", "\"\"", "\\", "\\n", "\\u0041", "é", "\u{2028}", "\u{a0}", "\u{b}", "#", "\n    x", "\n \t y", "\n\n", "  \n", "\u{FEFF}", "\\\\\"\"\"", "\u{85}",
                ]));
            }
            if !s.chance(1, 25) {
                if s.chance(1, 3) {
                    o.push('\n');
                }
                o.push_str("\"\"\"");
            }
            o
        }
        2 => {
            ctx.tag("int");
            match s.below(4) {
                0 => g::int(s).to_string(),
                1 => (g::int(s) as i64 + s.below(9) as i64 - 4).to_string(),
                2 => {
                    let n = s.range(1, 14);
                    let mut o = if s.bool() { String::from("-") } else { String::new() };
                    (0..n).for_each(|_| o.push((b'0' + s.below(10) as u8) as char));
                    o
                }
                _ => s.pick(&["-0", "0", "00", "-00", "01", "-", "--1", "+1", "1_000", "0x1F", "0b1", "2147483648", "-2147483649", "-2147483648", "1-", "1a", "٣"]).to_string(),
            }
        }
        _ => {
            ctx.tag("float");
            match s.below(4) {
                0 => {
                    let f = g::float(s);
                    float_literal(f, Some(s))
                }
                1 => {
                    let mut o = if s.bool() { String::from("-") } else { String::new() };
                    let digits = |o: &mut String, s: &mut Src, max: usize| {
                        let n = s.range(1, max);
                        (0..n).for_each(|_| o.push((b'0' + s.below(10) as u8) as char));
                    };
                    if s.chance(1, 3) {
                        o.push('0')
                    } else {
                        digits(&mut o, s, 20)
                    }
                    if s.chance(3, 4) {
                        o.push('.');
                        digits(&mut o, s, 25);
                    }
                    if s.bool() {
                        o.push_str(*s.pick(&["e", "E"]));
                        o.push_str(*s.pick(&["", "+", "-"]));
                        digits(&mut o, s, 3);
                    }
                    o
                }
                2 => s.pick(&["1.7976931348623157e308", "1.7976931348623159e308", "1.8e308", "-1.8e308", "1e308", "1e309", "-1e309", "1e999", "4.9e-324", "2e-324", "1e-999", "0e999", "-0.0", "0.0e0", "9007199254740993.0", "100000000000000000000000000000.5"]).to_string(),
                _ => s.pick(&["1.", ".5", "1.e1", "1e", "1e+", "1.5e", "-.5", "1.5.5", "1e1.5", "00.5", "01.5", "1.5a", "1.5_", "1e5e5", "1.5f", "Infinity", "NaN", "-Infinity", "1E5", "1.0E+05"]).to_string(),
            }
        }
    }
}

fn c04(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let lit = literal(s, ctx);
    let ctx_kind = s.below(7);
    let desc = lit.starts_with('"') && s.chance(1, 3);
    let t = if desc {
        format!("{lit} scalar A")
    } else {
        match ctx_kind {
            0 => format!("{{f(a:{lit})}}"),
            1 => format!("query($x:T={lit} ){{f}}"),
            2 => format!("{{f(a:[{{b:[{lit}]}} {lit}]) @d(c: {lit})}}"),
            // where what follows a literal may be another
            3 => format!("{{f(a:[{lit}])}}"),
            4 => format!("{{f(a:[[{lit} {lit},{lit}]])}}"),
            5 => format!("query($x:T=[{lit}]){{f}}"),
            _ => format!("{{f(a: # c\n {lit} ,)}}"),
        }
    };
    ctx.show("text", &format!("{t:?}"));
    ctx.nontrivial = lit.len() > 1;
    let toks = rp::lex(&lit, false);
    match &toks {
        Ok(v) if v.len() == 1 => ctx.tag("well-formed"),
        _ => ctx.tag("malformed"),
    }
    if desc {
        let r = rp::parse_sdoc(&t, false);
        let d = parse_def(&t, false);
        return match (d, r) {
            (Ok(d), Ok(r)) => {
                ctx.tag("accepted");
                let text = format!("type Query {{ a: A }} {t}");
                let _ = d;
                let d2 = parse_def(&text, false).map_err(|e| format!("rejects schema text: {}", err_text(&text, e)))?;
                let sd: SchemaDefinition = SchemaDefinition::try_from(&d2).map_err(|e| format!("does not resolve: {e:?}"))?;
                use bluejay_core::definition::{SchemaDefinition as _};
                let td = sd.get_type_definition("A").and_then(|t| dump::typedef(t, false));
                let want = r.types().next().cloned();
                if td != want {
                    return Err(format!("description differs: {td:?}, expected {want:?}"));
                }
                Ok(())
            }
            (Err(_), Err(_)) => Ok(()),
            (Ok(_), Err(e)) => Err(format!("accepts a malformed literal: {e}")),
            (Err(e), Ok(_)) => Err(format!("rejects a well-formed literal: {}", err_text(&t, e))),
        };
    }
    cmp_exec(&t, false, ctx)
}

fn c05(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let sdl = s.chance(1, 3);
    let mut toks = if sdl {
        let d = g::sdoc(s);
        sdoc_tokens(&d, Some(s))
    } else {
        let d = g::doc(s);
        doc_tokens(&d, Some(s))
    };
    let mutated = s.chance(1, 4);
    if mutated {
        let n = s.range(1, 2);
        for _ in 0..n {
            let i = s.below(toks.len().max(1)).min(toks.len().saturating_sub(1));
            if toks.is_empty() {
                break;
            }
            match s.below(4) {
                0 => {
                    toks.remove(i);
                }
                1 => {
                    let x = toks[i].clone();
                    toks.insert(i, x)
                }
                2 => {
                    let j = s.below(toks.len());
                    toks.swap(i, j)
                }
                _ => toks.insert(i, s.pick(&rp::PUNCTS).to_string()),
            }
        }
    }
    let a = join_min(&toks);
    let b = join_random(&toks, s);
    let c = join_space(&toks);
    ctx.show("minimal", &format!("{a:?}"));
    ctx.show("random layout", &format!("{b:?}"));
    ctx.nontrivial = a != b && toks.len() > 3;
    ctx.tag_if(mutated, "mutated");
    ctx.tag(if sdl { "sdl" } else { "executable" });
    if sdl {
        let count = |t: &str| parse_def(t, false).map(|d| {
            // the built-in directives come in no particular order
            let mut l: Vec<String> = d.directive_definitions().iter().map(|d| format!("{:?}", dump::dirdef(d))).collect();
            l.sort();
            (d.definition_count(), l)
        }).map_err(|e| e.len());
        let (x, y, z) = (count(&a), count(&b), count(&c));
        ctx.tag(if x.is_ok() { "accepted" } else { "rejected" });
        if x.is_ok() != y.is_ok() || x.is_ok() != z.is_ok() {
            return Err(format!("layout changes acceptance: minimal {} random {} spaced {}", x.is_ok(), y.is_ok(), z.is_ok()));
        }
        if x.is_ok() && (x != y || x != z) {
            return Err(format!("layout changes the document: {x:?}\n{y:?}\n{z:?}"));
        }
        return Ok(());
    }
    let p = |t: &str| parse_exec(t, false).map(|d| dump::doc(&d)).map_err(|e| err_text(t, e));
    let (x, y, z) = (p(&a), p(&b), p(&c));
    ctx.tag(if x.is_ok() { "accepted" } else { "rejected" });
    match (&x, &y, &z) {
        (Ok(x), Ok(y), Ok(z)) => {
            if x != y || x != z {
                return Err(format!("layout changes the document:\n{x:?}\n{y:?}\n{z:?}"));
            }
        }
        (Err(_), Err(_), Err(_)) => {}
        _ => return Err(format!("layout changes acceptance: minimal {x:?}\nrandom {y:?}\nspaced {z:?}")),
    }
    // ignored text after `$` is legal GraphQL as well
    if x.is_ok() && s.chance(1, 50) {
        if let Some(i) = toks.iter().position(|t| t.starts_with('$')) {
            let mut t2 = toks.clone();
            t2[i] = format!("$ {}", &toks[i][1..]);
            let d = join_space(&t2);
            match p(&d) {
                Ok(w) if Ok(&w) == x.as_ref() => {}
                Ok(_) => return Err("layout changes the document: blank after $".into()),
                Err(_) => ctx.known("dollar-blank", "a blank between `$` and the variable name is rejected".into()),
            }
        }
    }
    Ok(())
}

fn c06(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = g::doc(s);
    let mut toks = doc_tokens(&d, Some(s));
    let k = s.weighted(&[2, 4, 4, 2, 2]);
    match k {
        1 => {
            // raw line breaks inside ordinary strings
            for t in toks.iter_mut() {
                if t.starts_with('"') && !t.starts_with("\"\"\"") && s.chance(1, 2) {
                    let c: Vec<char> = t.chars().collect();
                    let i = s.range(1, c.len() - 1);
                    let nl = *s.pick(&["\n", "\r", "\r\n", "\n\n"]);
                    *t = c[..i].iter().collect::<String>() + nl + &c[i..].iter().collect::<String>();
                }
            }
        }
        3 => g::mutate_tokens(&mut toks, s),
        _ => {}
    }
    let mut t = if k == 2 {
        // no separator after numbers
        let mut o = String::new();
        for (i, t) in toks.iter().enumerate() {
            let num = i > 0 && toks[i - 1].starts_with(|c: char| c == '-' || c.is_ascii_digit());
            if i > 0 && needs_sep(&toks[i - 1], t) && !(num && s.chance(2, 3)) {
                o.push(' ');
            }
            o.push_str(t);
        }
        o
    } else {
        join_random(&toks, s)
    };
    if k == 4 {
        t = g::mutate_chars(&t, s);
    }
    ctx.show("text", &format!("{t:?}"));
    let strict = parse_exec(&t, false).map(|d| dump::doc(&d)).ok();
    let loose = parse_exec(&t, true).map(|d| dump::doc(&d)).ok();
    ctx.tag(match (strict.is_some(), loose.is_some()) {
        (true, true) => "both",
        (false, true) => "compat-only",
        (false, false) => "neither",
        _ => "strict-only",
    });
    ctx.nontrivial = loose.is_some();
    if strict.is_some() && strict != loose {
        return Err("compatibility changes the meaning of a strictly valid text".into());
    }
    // the extension is exactly the two documented liberties
    let r = rp::parse_doc(&t, true).ok();
    if r != loose {
        return Err(format!("compatibility mode reads\n{loose:?}\nexpected\n{r:?}"));
    }
    // definitions and values take the option too
    let sd = parse_def(&t, false).is_ok();
    if sd && parse_def(&t, true).is_err() {
        return Err("compatibility rejects a strictly valid schema text".into());
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            quick: 150_000,
            thorough: 1_500_000,
            rule: "a case is non-trivial when its text has non-blank content; distinct by text",
            case: c01,
            assumptions: &["inputs up to a few kilobytes and 150 nested levels; stack exhaustion by deeper nesting is a recorded finding"],
        },
        Prop {
            id: "C02",
            quick: 300_000,
            thorough: 3_000_000,
            rule: "texts longer than 3 bytes: random documents of the grammar in random layout and spelling, token- and character-level corruptions of them, and token soup; compared with a reference parser",
            case: c02,
            assumptions: &["the reference lexer and parser in refparse.rs implement the October 2021 grammar with \\u{} escapes"],
        },
        Prop {
            id: "C04",
            quick: 600_000,
            thorough: 6_000_000,
            rule: "literals of more than one character, well-formed or malformed, placed in argument, default, nested, directive and description positions; compared with a reference lexer",
            case: c04,
            assumptions: &["floats are read to the nearest f64 (Rust's parser is the reference)"],
        },
        Prop {
            id: "C05",
            quick: 250_000,
            thorough: 2_000_000,
            rule: "token sequences of more than 3 tokens whose two layouts differ; parsed in minimal, spaced and random layout",
            case: c05,
            assumptions: &[],
        },
        Prop {
            id: "C06",
            quick: 300_000,
            thorough: 2_000_000,
            rule: "texts accepted in compatibility mode; compared with the strict parser and a reference parser with the two liberties",
            case: c06,
            assumptions: &[],
        },
    ]
}
