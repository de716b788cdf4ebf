SEEDS=[
dict(id="c04-blockquote-indent",property="C04",
 edits=[("bluejay-parser/src/lexer/logos_lexer/block_string_lexer.rs",
"""                    .position(|token| !matches!(token, Self::Whitespace(_)))
            })
            .min()""",
"""                    .position(|token| matches!(token, Self::BlockStringCharacters(_)))
            })
            .min()""")],
 needs="a block string whose least indented line (after the first) starts with an escaped triple quote",
 breaks="a line consisting of an escaped triple quote no longer counts for the common indentation, so too much or nothing is removed",
 main=r'''
use bluejay_core::{Value, ValueReference};
use bluejay_parser::ast::ConstValue;
fn main() {
    let t = "\"\"\"\n  \\\"\"\"\n    b\n\"\"\"";
    let v = ConstValue::parse(t).unwrap();
    match v.as_ref() {
        ValueReference::String(s) => assert_eq!(s, "\"\"\"\n  b"),
        _ => panic!(),
    };
}
'''),
dict(id="c15-usage-through-fragments",property="C15",
 edits=[("bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs",
"""                    if let PathRoot::Fragment(f) = reference {
                        self.visit_fragment_references(f, visited);
                    }""",
"""                    if let PathRoot::Fragment(f) = reference {
                        if !visited.contains(&PathRoot::Fragment(fragment_definition)) || f.name() < fragment_definition.name() {
                            self.visit_fragment_references(f, visited);
                        }
                    }"""),
("bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs","    ExecutableDocument, FragmentSpread, OperationDefinition, VariableDefinition, VariableType,","    ExecutableDocument, FragmentDefinition, FragmentSpread, OperationDefinition, VariableDefinition, VariableType,")],
 needs="a variable of a wrong type used in a fragment three spreads away from the operation, with the fragments named in ascending order towards the operation",
 breaks="variable usages in deeply spread fragments are not attributed to the operation and pass unchecked",
 main=r'''
const SDL: &str = "type Query { a(x: Int!): Query b: Int }";
fn main() {
    let e = errors(SDL, "query Q($v: String) { ...C } fragment C on Query { ...B } fragment B on Query { ...A } fragment A on Query { a(x: $v) { b } }");
    assert!(!e.is_empty());
    let e = errors(SDL, "query Q($v: String) { ...A } fragment A on Query { ...B } fragment B on Query { ...C } fragment C on Query { a(x: $v) { b } }");
    assert!(!e.is_empty());
}
'''),
dict(id="c16-abstract-args",property="C16",
 edits=[("bluejay-validator/src/executable/document/rules/field_selection_merging.rs",
"""                .into_values()
                .map(|mut group| {
                    group.extend(&abstract_group);
                    group
                })
                .collect()""",
"""                .into_values()
                .map(|mut group| {
                    if group.len() == 1 || abstract_group.len() > 1 {
                        group.extend(&abstract_group);
                    }
                    group
                })
                .collect()""")],
 needs="a response key selected at least twice alike on an object type and once, differently, on an interface it implements",
 breaks="the conflict between the object type's fields and the interface's is not found",
 main=r'''
const SDL: &str = "type Query { i: I } interface I { n(x: Int): Int m: Int } type A implements I { n(x: Int): Int m: Int } type B implements I { n(x: Int): Int m: Int }";
fn main() {
    assert!(!errors(SDL, "{ i { n ... on A { n: m } } }").is_empty());
    assert!(!errors(SDL, "{ i { n ... on A { n: m x: m n: m } } }").is_empty());
    assert!(errors(SDL, "{ i { n n ... on A { n n } ... on B { n } } }").is_empty());
}
'''),
dict(id="c07-null-default",property="C07",
 edits=[("bluejay-printer/src/executable/variable_definition.rs","""        if let Some(default_value) = variable_definition.default_value() {""","""        if let Some(default_value) = variable_definition
            .default_value()
            .filter(|default_value| !default_value.as_ref().is_null())
        {"""),
 ("bluejay-printer/src/executable/variable_definition.rs","""use std::fmt::{""","""use bluejay_core::Value;
use std::fmt::{""")],
 needs="a variable definition whose default value is null",
 breaks="an explicit null default is not printed",
 main=r'''
fn main() {
    let t = "query ($x: Int = null) { a(s: $x) }";
    let d = ExecutableDocument::parse(t).unwrap();
    let p = bluejay_printer::executable::ExecutableDocumentPrinter::to_string(&d);
    assert!(p.contains("= null"), "{p}");
}
'''),
dict(id="c09-interface-of-interface",property="C09",
 edits=[("bluejay-parser/src/ast/definition/definition_document.rs",
"""                    if let Some(interface_implementations) = itd.interface_implementations() {
                        Self::resolve_interface_implementations(""",
"""                    if let Some(interface_implementations) = itd
                        .interface_implementations()
                        .filter(|implementations| implementations.len() == 1)
                    {
                        Self::resolve_interface_implementations(""")],
 needs="an interface implementing several interfaces, one of them undefined or no interface",
 breaks="a schema whose interface implements something that is no interface resolves",
 main=r'''
fn main() {
    assert!(!resolves("type Query { a: Int } interface I implements J & Query { a: Int } interface J { a: Int }"));
    assert!(resolves("type Query { a: Int } interface I implements J & K { a: Int } interface J { a: Int } interface K { a: Int }"));
}
'''),
]
