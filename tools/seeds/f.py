exec(open('/verif/tools/seeds/d.py').read().split("SEEDS=[")[0])
P="bluejay-parser/src/"
V="bluejay-visibility/src/"
SEEDS=[
dict(id="c17-kinds-apart",property="C17",
 edits=[("bluejay-validator/src/executable/document/rules/named_operation_name_uniqueness.rs",'''                (operations.len() > 1)
''','''                operations[1..].iter().any(|o| o.operation_type() == operations[0].operation_type())
''')],
 needs="a query and a mutation that share a name",
 breaks="operations of one name but different kinds are accepted",
 main=r'''
fn main() {
    let sdl = "type Query { a: Int } type Mutation { a: Int }";
    assert!(errors(sdl, "query A { a } mutation B { a }").is_empty());
    assert!(!errors(sdl, "query A { a } query A { a }").is_empty());
    assert!(!errors(sdl, "query A { a } mutation A { a }").is_empty());
    assert!(!errors(sdl, "query A { a } mutation A { a } mutation A { a }").is_empty());
}
'''),
dict(id="c34-unclosed-list",property="C34",
 edits=[(P+"ast/value.rs",'''                    list.push(Self::from_tokens(tokens)?);
''','''                    list.push(Self::from_tokens(tokens).map_err(|err| match err {
                        ParseError::UnexpectedEOF { .. } => ParseError::UnexpectedEOF {
                            span: open_span.clone(),
                        },
                        err => err,
                    })?);
''')],
 needs="a text that ends inside a list value",
 breaks="the unexpected end is reported at the opening bracket instead of at the end of the text",
 main=r'''
fn at(doc: &str) -> (usize, usize) {
    let e = ExecutableDocument::parse(doc).err().unwrap();
    let e = bluejay_parser::Error::into_graphql_errors(doc, e);
    (e[0].locations[0].line, e[0].locations[0].col)
}
fn main() {
    assert_eq!(at("{ a(b: "), (1, 8));
    assert_eq!(at("{ a(b: {c: "), (1, 12));
    assert_eq!(at("{ a(b: [1 2"), (1, 12));
    assert_eq!(at("{ a(b: [1\n2 [3] "), (2, 7));
}
'''),
dict(id="c34-separator",property="C34",
 edits=[(P+"ast/operation_type.rs",'''        tokens.expect_name().and_then(|name| {
            match''','''        let start = tokens.peek_name(0).map(|name| name.span().clone());
        tokens.expect_name().and_then(|name| {
            match''')],
 needs="", breaks="", main="fn main(){}") if False else
dict(id="c34-directive-location",property="C34",
 edits=[(P+"ast/definition/directive_definition.rs",'''                Err(_) => Err(ParseError::ExpectedOneOf {
                    span: name.into(),
''','''                Err(_) => Err(ParseError::ExpectedOneOf {
                    span: tokens.next_if_name().unwrap_or(name).into(),
''')],
 needs="an unknown directive location that is followed by the name that starts the next definition",
 breaks="the error points at the next definition instead of at the location",
 main=r'''
fn at(doc: &str) -> (usize, usize) {
    let e = DefinitionDocument::parse(doc).map(|_: DefinitionDocument| ()).err().unwrap();
    let e = bluejay_parser::Error::into_graphql_errors(doc, e);
    (e[0].locations[0].line, e[0].locations[0].col)
}
fn main() {
    assert_eq!(at("directive @a on FELD"), (1, 17));
    assert_eq!(at("directive @a on FELD | QUERY"), (1, 17));
    assert_eq!(at("directive @a on FELD type Query { a: Int }"), (1, 17));
}
'''),
dict(id="c35-third-definition",property="C35",
 edits=[(P+"ast/definition/definition_document.rs",'''                    Entry::Occupied(entry) => {
                        duplicates
                            .entry(directive_definition.name().as_ref())
                            .or_insert_with(|| vec![entry.get()])
                            .push(directive_definition);
                    }
''','''                    Entry::Occupied(mut entry) => {
                        let first = entry.insert(directive_definition);
                        duplicates
                            .insert(directive_definition.name().as_ref(), vec![first, directive_definition]);
                    }
''')],
 needs="three definitions of one directive",
 breaks="the first of them is not located",
 main=r'''
fn places(doc: &str) -> Vec<(usize, usize)> {
    let dd: DefinitionDocument = DefinitionDocument::parse(doc).unwrap();
    let e = SchemaDefinition::try_from(&dd).err().unwrap();
    let mut l: Vec<_> = bluejay_parser::Error::into_graphql_errors(doc, e).iter().flat_map(|e| e.locations.iter().map(|l| (l.line, l.col)).collect::<Vec<_>>()).collect();
    l.sort();
    l
}
fn main() {
    assert_eq!(places("type Query { a: Int }\ndirective @a on FIELD\ndirective @a on FIELD"), [(2, 12), (3, 12)]);
    assert_eq!(places("type Query { a: Int }\ndirective @a on FIELD\ndirective @a on FIELD\ndirective @a on QUERY"), [(2, 12), (3, 12), (4, 12)]);
}
'''),
dict(id="c35-arguments-of-bad-field",property="C35",
 edits=[(P+"ast/definition/definition_document.rs",'''                None => errors
                    .push(DefinitionDocumentError::ReferencedTypeDoesNotExist { name: t.name() }),
            }

            if let Some(arguments_definition) = field_definition.arguments_definition() {
''','''                None => {
                    errors.push(DefinitionDocumentError::ReferencedTypeDoesNotExist {
                        name: t.name(),
                    });
                    return;
                }
            }

            if let Some(arguments_definition) = field_definition.arguments_definition() {
''')],
 needs="a field whose type is missing and whose argument's type is missing as well",
 breaks="the argument's missing type is reported only after the field's is repaired",
 main=r'''
fn places(doc: &str) -> Vec<(usize, usize)> {
    let dd: DefinitionDocument = DefinitionDocument::parse(doc).unwrap();
    let e = SchemaDefinition::try_from(&dd).err().unwrap();
    let mut l: Vec<_> = bluejay_parser::Error::into_graphql_errors(doc, e).iter().flat_map(|e| e.locations.iter().map(|l| (l.line, l.col)).collect::<Vec<_>>()).collect();
    l.sort();
    l
}
fn main() {
    assert_eq!(places("type Query {\na: M }"), [(2, 4)]);
    assert_eq!(places("type Query {\na(x: N): Int b: M }"), [(2, 6), (2, 17)]);
    assert_eq!(places("type Query {\na(x: N): M\nb: Int @c }"), [(2, 6), (2, 10), (3, 8)]);
}
'''),
]
