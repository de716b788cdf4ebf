R="bluejay-validator/src/executable/document/rules/"
P="bluejay-parser/src/ast/"
VIS='''
use bluejay_visibility::{Cache as VisCache, NullWarden, SchemaDefinition as VisSchema};
'''
SEEDS=[
dict(id="c01-letter-after-number",property="C01",
 edits=[("bluejay-parser/src/lexer/logos_lexer.rs","!(c.is_ascii_alphanumeric() ||","!(c.is_alphanumeric() ||")],
 needs="a number directly followed by a letter outside ASCII, in strict mode",
 breaks="parsing panics, as the count of characters is used as a count of bytes",
 main=r'''
fn main() {
    for text in ["{ a(b: 1x) }", "{ a(b: 1.5é) }", "{ a(b: 12éé) }"] {
        let errs = ExecutableDocument::parse(text).unwrap_err();
        assert!(!errs.is_empty());
    }
}
'''),
dict(id="c02-spread-on",property="C02",
 edits=[(P+"executable/fragment_spread.rs",".map(|n| n.as_ref() != TypeCondition::ON)",".map(|n| !n.as_ref().starts_with(TypeCondition::ON))"),
 (P+"executable/inline_fragment.rs",".map(|n| n.as_ref() == TypeCondition::ON)",".map(|n| n.as_ref().starts_with(TypeCondition::ON))")],
 needs="a spread of a fragment whose name begins with `on`",
 breaks="the spread is taken for an inline fragment, so a document of the grammar is refused",
 main=r'''
fn main() {
    assert!(ExecutableDocument::parse("{ a { ...Named } } fragment Named on A { b }").is_ok());
    assert!(ExecutableDocument::parse("{ a { ... on A { b } } }").is_ok());
    assert!(ExecutableDocument::parse("{ a { ...only } } fragment only on A { b }").is_ok());
}
'''),
dict(id="c03-empty-description",property="C03",
 edits=[(P+"definition/input_value_definition.rs","let description = tokens.next_if_string_value();","let description = tokens\n            .next_if_string_value()\n            .filter(|description| !description.as_ref().is_empty());")],
 needs="an argument or an input field with the empty string as its description",
 breaks="the description is lost",
 main=r'''
use bluejay_core::definition::prelude::*;
use bluejay_core::definition::{SchemaDefinition as CoreSchemaDefinition, TypeDefinitionReference};
fn description(text: &str) -> Option<String> {
    let sdl = format!("input I {{ {text} x: Int }} type Query {{ a(i: I): Int }}");
    let dd: DefinitionDocument = DefinitionDocument::parse(&sdl).unwrap();
    let sd = SchemaDefinition::try_from(&dd).unwrap();
    let TypeDefinitionReference::InputObject(i) = CoreSchemaDefinition::get_type_definition(&sd, "I").unwrap() else { panic!() };
    let ivd = i.input_field_definitions().iter().next().unwrap();
    bluejay_core::definition::InputValueDefinition::description(ivd).map(str::to_string)
}
fn main() {
    assert_eq!(description(""), None);
    assert_eq!(description("\"d\""), Some("d".to_string()));
    assert_eq!(description("\"\""), Some(String::new()));
}
'''),
dict(id="c08-subscription-only",property="C08",
 edits=[("bluejay-printer/src/definition/schema_definition.rs",
"""            writeln!(f, "  mutation: {}", mutation.name())?;
        }

        if let Some(subscription) = schema_definition.subscription() {
            writeln!(f, "  subscription: {}", subscription.name())?;
        }
""",
"""            writeln!(f, "  mutation: {}", mutation.name())?;

            if let Some(subscription) = schema_definition.subscription() {
                writeln!(f, "  subscription: {}", subscription.name())?;
            }
        }
""")],
 needs="an explicit schema definition with a subscription and no mutation",
 breaks="the printed schema has no subscription root",
 main=r'''
use bluejay_core::definition::SchemaDefinition as CoreSchemaDefinition;
fn has_subscription(sdl: &str) -> bool {
    let dd: DefinitionDocument = DefinitionDocument::parse(sdl).unwrap();
    let sd = SchemaDefinition::try_from(&dd).unwrap();
    CoreSchemaDefinition::subscription(&sd).is_some()
}
fn printed(sdl: &str) -> String {
    let dd: DefinitionDocument = DefinitionDocument::parse(sdl).unwrap();
    let sd = SchemaDefinition::try_from(&dd).unwrap();
    bluejay_printer::definition::SchemaDefinitionPrinter::to_string(&sd)
}
fn main() {
    for sdl in [
        "schema { query: Q mutation: M subscription: S } type Q { a: Int } type M { a: Int } type S { a: Int }",
        "schema { query: Q subscription: S } type Q { a: Int } type S { a: Int }",
    ] {
        assert!(has_subscription(sdl));
        assert!(has_subscription(&printed(sdl)));
    }
}
'''),
dict(id="c11-reserved-names",property="C11",
 edits=[(R+"field_selections.rs",
"""                        fields_definition
                            .contains_field(name)
                            .not()
""",
"""                        (name.starts_with("__") || fields_definition.contains_field(name))
                            .not()
""")],
 needs="`__schema` or `__type` selected on a type other than the query root",
 breaks="a selected field need not exist on its type",
 main=r'''
fn main() {
    let sdl = "type Query { a: A } type A { b: Int }";
    assert!(errors(sdl, "{ __schema { types { name } } a { __typename } }").is_empty());
    assert!(!errors(sdl, "{ a { c } }").is_empty());
    assert!(!errors(sdl, "{ a { __schema { types { name } } } }").is_empty());
}
'''),
dict(id="c12-first-operation",property="C12",
 edits=[("bluejay-validator/src/executable/cache.rs",
"HashMap::from_iter(executable_document.operation_definitions().flat_map(","HashMap::from_iter(executable_document.operation_definitions().take(1).flat_map(")],
 needs="a document of two operations, the second with a variable whose default value does not fit its type",
 breaks="default values of variables of later operations are not checked",
 main=r'''
fn main() {
    let sdl = "type Query { a(x: Int): Int }";
    assert!(!errors(sdl, "query A($x: Int = \"s\") { a(x: $x) }").is_empty());
    assert!(errors(sdl, "query A { __typename } query B($x: Int = 1) { a(x: $x) }").is_empty());
    assert!(!errors(sdl, "query A { __typename } query B($x: Int = \"s\") { a(x: $x) }").is_empty());
}
'''),
dict(id="c17-alias",property="C17",
 edits=[(R+"subscription_operation_single_root_field.rs","response_names.insert(field.response_name());","response_names.insert(field.name());")],
 needs="a subscription selecting one field twice, under two names",
 breaks="a subscription with two response fields is accepted, and one naming the same field in two ways refused",
 main=r'''
fn main() {
    let sdl = "type Query { a: Int } type Subscription { a(x: Int): Int b: Int }";
    assert!(errors(sdl, "subscription { a }").is_empty());
    assert!(!errors(sdl, "subscription { a b }").is_empty());
    assert!(!errors(sdl, "subscription { a(x: 1) c: a(x: 2) }").is_empty());
}
'''),
dict(id="c18-abstract-after-concrete",property="C18",
 edits=[(R+"field_selection_merging.rs",
"""                        | TypeDefinitionReference::Union(_) => abstract_group.push(field_context),
""",
"""                        | TypeDefinitionReference::Union(_) => {
                            concrete_groups
                                .values_mut()
                                .for_each(|group: &mut Group<'a, '_, E, S>| {
                                    group.push(field_context)
                                });
                            abstract_group.push(field_context)
                        }
"""),(R+"field_selection_merging.rs",
"""                .into_values()
                .map(|mut group| {
                    group.extend(&abstract_group);
                    group
                })
                .collect()
""",
"""                .into_values()
                .collect()
""")],
 needs="a selection on an interface before one on an object with the same response name and another field",
 breaks="the verdict depends on the order of the selections",
 main=r'''
fn main() {
    let sdl = "interface N { a: Int b: Int } type A implements N { a: Int b: Int } type Query { n: N }";
    assert!(!errors(sdl, "{ n { ... on A { x: b } x: a } }").is_empty());
    assert!(!errors(sdl, "{ n { x: a ... on A { x: b } } }").is_empty());
}
'''),
dict(id="c27-interface-parents",property="C27",
 edits=[("bluejay-visibility/src/schema_definition.rs",
"""        self.visit_directives(interface_type_definition.directives());
        self.visit_fields_definition(interface_type_definition.fields_definition());
        if let Some(interface_implementations) =
            interface_type_definition.interface_implementations()
        {
            self.visit_interface_implementations(interface_implementations);
        }
""",
"""        self.visit_directives(interface_type_definition.directives());
        self.visit_fields_definition(interface_type_definition.fields_definition());
""")],
 needs="an interface that is only reachable as the interface of an interface",
 breaks="it is missing from the types of an unrestricted view, and from its printed form",
 main=VIS+r'''
fn main() {
    let sdl = "interface N { a: Int } interface M implements N { a: Int } type Query { m: M }";
    let dd: DefinitionDocument = DefinitionDocument::parse(sdl).unwrap();
    let sd = SchemaDefinition::try_from(&dd).unwrap();
    let cache = VisCache::new(NullWarden::<SchemaDefinition>::default(), &sd);
    let view = VisSchema::new(&cache).unwrap();
    let printed = bluejay_printer::definition::SchemaDefinitionPrinter::to_string(&view);
    assert!(resolves(sdl));
    assert!(resolves(&printed), "{printed}");
}
'''),
dict(id="c29-list-elements",property="C29",
 edits=[("bluejay-schema-comparator/src/changes.rs",
"""                && is_change_safe_for_input_value::<S>(
                    old_inner.as_shallow_ref(),
                    new_inner.as_shallow_ref(),
                )
""",
"""                && is_change_safe_for_input_value::<S>(
                    new_inner.as_shallow_ref(),
                    old_inner.as_shallow_ref(),
                )
""")],
 needs="an argument or input field of a list type whose elements become non-null",
 breaks="the change is called safe, although an operation giving a null element becomes invalid",
 main=r'''
use bluejay_schema_comparator::compare;
fn breaking(old: &str, new: &str) -> bool {
    let od: DefinitionDocument = DefinitionDocument::parse(old).unwrap();
    let nd: DefinitionDocument = DefinitionDocument::parse(new).unwrap();
    let os = SchemaDefinition::try_from(&od).unwrap();
    let ns = SchemaDefinition::try_from(&nd).unwrap();
    !compare(&os, &ns).breaking_changes().is_empty()
}
fn main() {
    let s = |t: &str| format!("type Query {{ a(x: {t}): Int }}");
    assert!(!breaking(&s("[Int]!"), &s("[Int]")));
    assert!(breaking(&s("[Int]"), &s("[Int]!")));
    assert!(!breaking(&s("[Int!]"), &s("[Int]")));
    assert!(breaking(&s("[Int]"), &s("[Int!]")));
}
'''),
dict(id="c30-unknown-enum-value",property="C30",typegen=True,
 edits=[("bluejay-typegen-macro/src/enum_type_definition.rs",
"""                                _ => {
                                    self.out = ::std::option::Option::Some(#name_ident::Other);
                                    ::std::result::Result::Ok(())
                                },
""",
"""                                _ => ::std::result::Result::Err(::bluejay_typegen::miniserde::Error),
""")],
 needs="the miniserde codec and a response with a value that the enum does not list",
 breaks="the whole response cannot be read",
 main=r'''
#[bluejay_typegen::typegen([
    enum E { A B } type Query { e: E }
], codec = "miniserde")]
mod schema {
    #[query([query Q { e }])]
    pub mod q {}
}
fn main() {
    let read = |s: &str| bluejay_typegen::miniserde::json::from_str::<schema::q::Q>(s).ok().map(|q| q.e);
    assert_eq!(read(r#"{"e": "B"}"#), Some(Some(schema::E::B)));
    assert_eq!(read(r#"{"e": "C"}"#), Some(Some(schema::E::Other)));
}
'''),
dict(id="c31-spread-not-first",property="C31",typegen=True,
 edits=[("bluejay-typegen-macro/src/validation/selections_are_valid.rs",
"""        let fragment_spread = selection_set
            .iter()
            .find_map(|selection| match selection.as_ref() {
                SelectionReference::FragmentSpread(fs) => Some(fs),
                _ => None,
            });
""",
"""        let fragment_spread = selection_set
            .iter()
            .next()
            .and_then(|selection| match selection.as_ref() {
                SelectionReference::FragmentSpread(fs) => Some(fs),
                _ => None,
            });
""")],
 needs="a fragment spread after a field in one selection set",
 breaks="the query is no longer refused with its error",
 refused=r'''
#[bluejay_typegen::typegen([type Query { a: Int b: Int }])]
mod schema {
    #[query([query Q { a ...F } fragment F on Query { b }])]
    pub mod q {}
}
fn main() {}
''', message="requires a fragment spread to be the only selection",
 main=r'''
#[bluejay_typegen::typegen([type Query { a: Int b: Int }])]
mod schema {
    #[query([query Q { ...F } fragment F on Query { b }])]
    pub mod q {}
}
fn main() {}
'''),
]
