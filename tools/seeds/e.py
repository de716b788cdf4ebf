import re
exec(open('/verif/tools/seeds/d.py').read().split("SEEDS=[")[0])
b={}
exec(open('/verif/tools/seeds/b.py').read().split("SEEDS=[")[0],b)
AN=b['AN']
D="bluejay-schema-comparator/src/"
T="bluejay-typegen-macro/src/"
SEEDS=[
dict(id="c23-object-as-list",property="C23",
 edits=[("bluejay-validator/src/executable/operation/analyzers/input_size.rs",'''        ValueReference::Object(obj) => {
            obj.iter().for_each(|(key, value)| {
                find_input_size_offenders_arguments''','''        ValueReference::Object(obj) => {
            obj.iter().take(max_length.max(1)).for_each(|(key, value)| {
                find_input_size_offenders_arguments''')],
 needs="an input object with more fields than the limit that contains a list longer than the limit",
 breaks="the list inside the object is not reported",
 main=AN+r'''
fn n(doc: &str, max: usize) -> usize {
    with!("input O { l: [Int] b: Int c: Int } type Query { a(o: O): Int }", doc, json!({}), |ed, sd, cache, v| Orchestrator::<_, _, _, InputSize<_, _>>::analyze(&ed, &sd, None, &v, &cache, max).unwrap().len())
}
fn main() {
    assert_eq!(n("{ a(o: { l: [1, 2, 3] b: 1 }) }", 2), 1);
    assert_eq!(n("{ a(o: { b: 1 c: 1 l: [1, 2, 3] }) }", 2), 1);
}
'''),
dict(id="c26-other-interface",property="C26",
 edits=[(V+"schema_definition.rs",'''                                interface_implementations
                                    .iter()
                                    .any(|ii| ii.name() == itd.name())
''','''                                interface_implementations.iter().next().is_some()
''')],
 needs="an object whose implementation of one interface is hidden while that of another is shown",
 breaks="the object is still listed among the implementors of the interface it is not shown to implement",
 main=WARD+r'''
fn main() {
    let dd: DefinitionDocument = DefinitionDocument::parse("type Query { a: Hidden b: T c: U } interface Hidden { x: Int } interface Shown { x: Int } type T implements Hidden { x: Int } type U implements Hidden & Shown { x: Int }").unwrap();
    let sd: PS = SchemaDefinition::try_from(&dd).unwrap();
    let cache = bluejay_visibility::Cache::new(W(std::marker::PhantomData), &sd);
    let r = bluejay_visibility::SchemaDefinition::new(&cache).ok().unwrap();
    for (n, k) in [("Hidden", 0), ("Shown", 1)] {
        let Some(d::TypeDefinitionReference::Interface(i)) = d::SchemaDefinition::get_type_definition(&r, n) else { continue };
        assert_eq!(d::SchemaDefinition::get_interface_implementors(&r, i).count(), k, "{n}");
    }
}
'''),
dict(id="c28-default-and-type",property="C28",
 edits=[(D+"diff/argument.rs",'''                if old_default.as_ref() != new_default.as_ref() {
''','''                if old_default.as_ref() != new_default.as_ref()
                    && self.old_argument_definition.r#type().is_required()
                        == self.new_argument_definition.r#type().is_required()
                {
''')],
 needs="an argument whose default value and nullability change at the same time",
 breaks="the change of the default value is not reported",
 main=r'''
fn changes(a: &str, b: &str) -> usize {
    let (da, db): (DefinitionDocument, DefinitionDocument) = (DefinitionDocument::parse(a).unwrap(), DefinitionDocument::parse(b).unwrap());
    let (sa, sb) = (SchemaDefinition::try_from(&da).unwrap(), SchemaDefinition::try_from(&db).unwrap());
    bluejay_schema_comparator::compare(&sa, &sb).changes.len()
}
fn main() {
    let s = |t: &str| format!("type Query {{ a(x: {t}): Int }}");
    assert_eq!(changes(&s("Int = 1"), &s("Int = 2")), 1);
    assert_eq!(changes(&s("Int! = 1"), &s("Int! = 2")), 1);
    assert_eq!(changes(&s("Int! = 1"), &s("Int = 1")), 1);
    assert_eq!(changes(&s("Int! = 1"), &s("Int = 2")), 2);
}
'''),
dict(id="c29-list-depth",property="C29",
 edits=[(D+"changes.rs",'''        ) => {
            (old_required || !new_required)
                && is_change_safe_for_input_value::<S>(
                    old_inner.as_shallow_ref(),
                    new_inner.as_shallow_ref(),
                )
        }
''','''        ) => {
            let (old_inner, new_inner) = (old_inner.as_shallow_ref(), new_inner.as_shallow_ref());
            let safe_element = match (&old_inner, &new_inner) {
                (
                    ShallowInputTypeReference::List(_, old_required),
                    ShallowInputTypeReference::List(_, new_required),
                ) => *old_required || !*new_required,
                _ => is_change_safe_for_input_value::<S>(old_inner, new_inner),
            };
            (old_required || !new_required) && safe_element
        }
''')],
 needs="an input value whose type is a list of lists, and a change of the innermost type",
 breaks="a change of the element type two levels down is called safe",
 main=r'''
use bluejay_schema_comparator::compare;
fn breaking(old: &str, new: &str) -> bool {
    let od: DefinitionDocument = DefinitionDocument::parse(old).unwrap();
    let nd: DefinitionDocument = DefinitionDocument::parse(new).unwrap();
    let os = SchemaDefinition::try_from(&od).unwrap();
    let ns = SchemaDefinition::try_from(&nd).unwrap();
    compare(&os, &ns).changes.iter().any(|c| c.breaking())
}
fn main() {
    let s = |t: &str| format!("type Query {{ a(x: {t}): Int }}");
    assert!(!breaking(&s("[Int]!"), &s("[Int]")));
    assert!(breaking(&s("[Int]"), &s("[Int!]")));
    assert!(breaking(&s("[Int]"), &s("[String]")));
    assert!(breaking(&s("[[Int]]"), &s("[[Int]!]")));
    assert!(!breaking(&s("[[Int!]!]"), &s("[[Int]]")));
    assert!(breaking(&s("[[Int]]"), &s("[[Int!]]")));
    assert!(breaking(&s("[[Int]]"), &s("[[String]]")));
}
'''),
dict(id="c30-mutual-recursion",property="C30",typegen=True,
 edits=[(T+"input_object_type_definition.rs",'''                    if visited.insert(iotd.name()) {
                        iotd''','''                    if visited.len() < 2 && visited.insert(iotd.name()) {
                        iotd''')],
 needs="a cycle of three or more input objects",
 breaks="no field of the cycle is boxed, so the generated types do not compile",
 main=r'''
#[bluejay_typegen::typegen([
    input A { b: B n: Int } input B { c: C } input C { d: D } input D { a: A } type Query { e(a: A): Int }
])]
mod schema {
}
fn main() {
    let a = schema::A { b: None, n: Some(1) };
    assert_eq!(serde_json::to_value(&a).unwrap()["n"], 1);
}
'''),
dict(id="c31-second-interface",property="C31",typegen=True,
 edits=[(T+"validation/selections_are_valid.rs",'''                        interface_implementations
                            .iter()
                            .map(InterfaceImplementation::name)
''','''                        interface_implementations
                            .iter().take(1)
                            .map(InterfaceImplementation::name)
''')],
 needs="a fragment on the second of the interfaces an interface implements, spread alone on that interface",
 breaks="a valid query is refused",
 main=r'''
#[bluejay_typegen::typegen([
    interface A { x: Int } interface B { y: Int } interface I implements A & B { x: Int y: Int }
    type T implements I & A & B { x: Int y: Int } type Query { i: I }
])]
mod schema {
    #[query([query Q { i { ...F } } fragment F on B { y }])]
    pub mod q {}
}
fn main() {}
'''),
dict(id="c33-third-duplicate",property="C33",
 edits=[("bluejay-validator/src/executable/document/error/argument_error.rs",'''                arguments
                    .into_iter()
                    .map(|argument| {
''','''                arguments
                    .into_iter().take(2)
                    .map(|argument| {
''')],
 needs="three arguments of one name on one field or directive",
 breaks="the location of the third is missing from the report",
 main=r'''
fn main() {
    let sdl = "type Query { a(x: Int): Int }";
    let n = |d: &str| errors(sdl, d).len();
    assert_eq!(n("{ a(x: 1) }"), 0);
    assert_eq!(n("{ a(x: 1 x: 1) }"), 2);
    assert_eq!(n("{ a(x: 1 x: 1 x: 1) }"), 3);
}
'''),
]
for s in SEEDS: s['edits']=[(p,o,n) for p,o,n in s['edits']]
