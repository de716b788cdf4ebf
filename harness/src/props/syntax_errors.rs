//! C34: where and how a syntax error is reported.
use super::syntax::{any_text, parse_def, parse_exec, positions};
use crate::engine::{CaseResult, Ctx, Prop};
use crate::gen_syn as g;
use crate::refparse::{self as rp, Tok, T};
use crate::render::*;
use crate::src::Src;
use bluejay_parser::Error;

/// index of the first token after which no document can continue, the number of tokens meaning the end
fn first_dead(toks: &[Tok], sdl: bool) -> Option<usize> {
    let mut p = rp::Ps::new(toks);
    if sdl {
        p.sdoc().err()
    } else {
        p.doc().err()
    }
}

/// tokens that an error message names as possible at its position
fn named(msg: &str) -> Vec<T> {
    let one = |w: &str| -> Option<T> {
        Some(match w {
            "$" => T::Var("v".into()),
            w if rp::PUNCTS.contains(&w) => T::P(rp::PUNCTS.iter().find(|p| **p == w).unwrap()),
            w if !w.is_empty() && w.bytes().all(|b| b == b'_' || b.is_ascii_alphanumeric()) => T::Name(w.into()),
            _ => return None,
        })
    };
    if let Some(l) = msg.strip_prefix("Expected one of the following: ") {
        return l.split(", ").filter_map(one).collect();
    }
    if let Some(w) = msg.strip_prefix("Expected to find: ") {
        return one(w).into_iter().collect();
    }
    if msg == "Expected a name" {
        return ["someName", "query", "FIELD", "type"].iter().map(|n| T::Name((*n).into())).collect();
    }
    vec![]
}

fn text(s: &mut Src, ctx: &mut Ctx) -> String {
    match s.weighted(&[3, 5, 5]) {
        0 => any_text(s, ctx),
        k => {
            // one fault in an otherwise valid document
            let mut toks = if k == 1 {
                let d = g::doc(s);
                doc_tokens(&d, Some(s))
            } else {
                let d = g::sdoc(s);
                sdoc_tokens(&d, Some(s))
            };
            ctx.tag(if k == 1 { "doc-one-fault" } else { "sdl-one-fault" });
            let i = s.below(toks.len() + 1);
            match s.weighted(&[3, 3, 3, 2, 2, 1]) {
                0 if i < toks.len() => {
                    toks.remove(i);
                }
                1 => toks.truncate(i),
                2 => {
                    let x = s.pick(&rp::PUNCTS).to_string();
                    toks.insert(i, x)
                }
                3 if i < toks.len() => {
                    let x = s.pick(&["on", "true", "null", "x", "query", "type", "fragment", "repeatable", "implements", "1", "2.5", "\"s\"", "\"\"\"b\"\"\"", "$v", "FIELD", "NOWHERE", "{", "}", "(", ")", "[", "]", ":", "!", "=", "@", "&", "|", "..."]).to_string();
                    toks[i] = x
                }
                4 => {
                    let x = s.pick(&["%", "$", "\"open", "\"\\q\"", "01", "1.", "99999999999", "1e999", "\"\"\"open", ".", "..", "-", "?", "é", "\u{b}", "`", "'a'", "&&&&"]).to_string();
                    toks.insert(i, x)
                }
                _ => {
                    let j = s.below(toks.len().max(1));
                    if i < toks.len() && j < toks.len() {
                        toks.swap(i, j)
                    }
                }
            }
            join_random(&toks, s)
        }
    }
}

fn check(what: &str, t: &str, compat: bool, sdl: bool, errs: Option<Vec<Error>>, again: Vec<Error>, ctx: &mut Ctx) -> CaseResult {
    let lexed = rp::lex(t, compat);
    let dead = match &lexed {
        Ok(toks) => first_dead(toks, sdl),
        Err(_) => Some(0),
    };
    let Some(errs) = errs else {
        // acceptance itself is the business of C02 and C03
        return Ok(());
    };
    if dead.is_none() {
        return Ok(());
    }
    ctx.nontrivial = true;
    let tops: Vec<String> = errs.iter().map(|e| e.message().to_string()).collect();
    let report = Error::format_errors(t, Some("doc.graphql"), again);
    let all = Error::into_graphql_errors(t, errs);
    for m in tops.iter().map(String::as_str).chain(all.iter().map(|e| &*e.message)) {
        if !report.contains(m) {
            return Err(format!("report: {what}: {m:?} is not in the report\n{report}"));
        }
    }
    // the report shows the same places, one heading per error (the renderer knows no line after a final line break)
    if t.bytes().all(|b| b == b'\n' || (b' '..=b'~').contains(&b)) && !t.ends_with('\n') && !t.contains("doc.graphql") && all.iter().all(|e| e.locations.len() == 1) && all.len() == tops.len() {
        let heads: Vec<String> = report.lines().filter_map(|l| l.trim_start().strip_prefix("╭─[")).map(|l| l.trim_end_matches(']').to_string()).collect();
        let want: Vec<String> = all.iter().map(|e| format!("doc.graphql:{}:{}", e.locations[0].line, e.locations[0].col)).collect();
        ctx.tag("headings");
        if heads != want {
            return Err(format!("report: {what}: the places are {want:?}, the headings say {heads:?}\n{report}"));
        }
    }
    let pos = positions(t);
    let offs: Vec<Option<usize>> = all.iter().map(|e| e.locations.first().and_then(|l| pos.get(&(l.line, l.col)).copied())).collect();
    let shown = || all.iter().map(|e| format!("{} at {:?}", e.message, e.locations.iter().map(|l| (l.line, l.col)).collect::<Vec<_>>())).collect::<Vec<_>>().join("; ");
    let (msg, off) = (&all[0].message, offs[0]);
    if offs.windows(2).any(|w| w[0] >= w[1]) {
        return Err(format!("order: {what}: the errors are not reported in the order of the text: {}", shown()));
    }
    match &lexed {
        Err((at, why)) => {
            ctx.tag(why);
            if off != Some(*at) {
                return Err(format!("lexical error elsewhere: {what}: the text cannot be read at byte {at} ({why}), the first error is at {off:?}: {}", shown()));
            }
            // the value does not fit, or the text is no token
            let large = msg.ends_with("too large");
            let want = match *why {
                "int too large" => "Integer too large",
                "float too large" => "Float too large",
                "bad escape" | "bad surrogate" | "line terminator in string" => "String value invalid",
                _ => "Unable to parse",
            };
            // a string that is both badly escaped and never closed may be either
            let either = want == "String value invalid" && msg == "Unable to parse";
            if msg != want && !either || large != want.ends_with("too large") {
                return Err(format!("wrong reason: {what}: at byte {at} ({why}): {}", shown()));
            }
        }
        Ok(toks) => {
            let k = dead.unwrap();
            if toks.is_empty() {
                ctx.tag("empty");
                if all.len() != 1 || !all[0].locations.is_empty() {
                    return Err(format!("empty document: {what}: {}", shown()));
                }
                return Ok(());
            }
            let want = toks.get(k).map_or(t.len(), |t| t.start);
            ctx.tag(if k == toks.len() { "unexpected end" } else { "unexpected token" });
            // a description with nothing to describe may be called unexpected itself
            if sdl && k > 0 && matches!(toks[k - 1].t, T::Str(_)) && (k == 1 || first_dead(&toks[..k - 1], true).is_none()) && off == Some(toks[k - 1].start) {
                ctx.tag("dangling-description");
                return Ok(());
            }
            if off != Some(want) {
                return Err(format!("error elsewhere: {what}: no document continues at byte {want} (token {k} of {}), the first error is at {off:?}: {}", toks.len(), shown()));
            }
            if (k == toks.len()) != (msg == "Unexpected EOF") {
                return Err(format!("end: {what}: token {k} of {}: {}", toks.len(), shown()));
            }
            // what the message names is possible there
            let n = named(msg);
            ctx.tag_if(!n.is_empty(), "names-expectations");
            let impossible: Vec<&T> = n
                .iter()
                .filter(|x| {
                    let mut toks2 = toks[..k].to_vec();
                    toks2.push(Tok { t: (*x).clone(), start: want, end: want });
                    first_dead(&toks2, sdl).is_some_and(|d| d <= k)
                })
                .collect();
            // a name may have to be one of some names
            if !impossible.is_empty() && (msg != "Expected a name" || impossible.len() == n.len()) {
                return Err(format!("impossible expectation: {what}: {msg:?} at token {k}, but {impossible:?} is not possible there"));
            }
        }
    }
    Ok(())
}

fn c34(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let t = text(s, ctx);
    let compat = s.chance(1, 5);
    ctx.show("text", &format!("compat={compat} {t:?}"));
    check("executable", &t, compat, false, parse_exec(&t, compat).err(), parse_exec(&t, compat).err().unwrap_or_default(), ctx)?;
    check("definition", &t, compat, true, parse_def(&t, compat).err(), parse_def(&t, compat).err().unwrap_or_default(), ctx)?;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C34",
        quick: 400_000,
        thorough: 15_000_000,
        rule: "texts that at least one of the two parsers has to refuse; the first reported error is compared with the first token after which the reference grammar knows no continuation",
        case: c34,
        assumptions: &["the reference lexer and parser in refparse.rs are predictive: they fail at the first token that cannot continue a document"],
    }]
}
