exec(open("/verif/tools/seeds/b.py").read())
SPANS=r'''
use bluejay_core::executable::{ExecutableDocument as _, Field as _, OperationDefinition as _, Selection as _, SelectionReference, SelectionSet as _};
use bluejay_core::Indexable;
use bluejay_parser::HasSpan;
fn field_text<'t>(doc: &'t str) -> &'t str {
    let ed = ExecutableDocument::parse(doc).unwrap();
    let op = &ed.operation_definitions()[0];
    match op.as_ref().selection_set().iter().next().unwrap().as_ref() {
        SelectionReference::Field(f) => &doc[f.span().byte_range().clone()],
        _ => panic!(),
    }
}
'''
P="bluejay-parser/src/"
SEEDS=[
dict(id="c40-field-after-alias",property="C40",
 edits=[(P+"ast/executable/field.rs","let start_span = alias.as_ref().unwrap_or(&name).span();","let start_span = name.span();")],
 needs="a field with an alias",
 breaks="the span of an aliased field starts at the field's name instead of its alias",
 main=SPANS+r'''
fn main() {
    assert_eq!(field_text("{ a }"), "a");
    assert_eq!(field_text("{ a(x: 1) @b { c } }"), "a(x: 1) @b { c }");
    assert_eq!(field_text("{ k: a(x: 1) }"), "k: a(x: 1)");
    assert_eq!(field_text("{ k :a }"), "k :a");
}
'''),
dict(id="c40-field-ends-early",property="C40",
 edits=[(P+"ast/executable/field.rs",'''        } else if let Some(directive_span) = directives_span {
            directive_span
        } else if let Some(arguments) = &arguments {
            arguments.span()
        } else {
''','''        } else if let Some(arguments) = &arguments {
            arguments.span()
        } else if let Some(directive_span) = directives_span {
            directive_span
        } else {
''')],
 needs="a field with arguments and directives, but no selection set",
 breaks="the span of such a field ends before its directives",
 main=SPANS+r'''
fn main() {
    assert_eq!(field_text("{ a @b }"), "a @b");
    assert_eq!(field_text("{ a(x: 1) }"), "a(x: 1)");
    assert_eq!(field_text("{ a(x: 1) @b { c } }"), "a(x: 1) @b { c }");
    assert_eq!(field_text("{ a(x: 1) @b(y: 2) }"), "a(x: 1) @b(y: 2)");
}
'''),
dict(id="c22-last-multiplier",property="C22",
 edits=[("bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs","multiplier = max(multiplier, child_scope.multiplier);","multiplier = child_scope.multiplier;")],
 needs="a field selected once through an interface whose field is a connection and once through an object whose field is not",
 breaks="the page size of one of the two selections is left out of the complexity, depending on their order",
 main=AN+r"""
fn cost(doc: &str) -> usize {
    with!("directive @cost(weight: String, kind: String) on FIELD_DEFINITION type Query { i: I } interface I { c(first: Int): C @cost(kind: \"connection\") } type A implements I { c(first: Int): C } type C { edges: T } type T { v: Int }", doc, json!({}), |ed, sd, cache, v| Orchestrator::<_, _, _, ComplexityCost<_, _, _, analyzers::complexity_cost::RelayCostComputer<_, _, _>>>::analyze(&ed, &sd, None, &v, &cache, ()).unwrap())
}
fn main() {
    for _ in 0..60 {
        assert_eq!(cost("{ i { c(first: 10) { edges { v } } } }"), 6);
        assert_eq!(cost("{ i { c(first: 10) { edges { v } } ... on A { c(first: 10) { edges { v } } } } }"), 6);
    }
}
"""),
]
