V="generated schemas and documents, half with an injected fault; differential against a reference validator written from the specification"
TECH.update({
"C11":(G+V,""),"C12":(G+V,""),"C13":(G+V,""),"C14":(G+V,""),"C15":(G+V,""),"C16":(G+V+" (documents on which the specification's wording leaves the verdict open are counted and not judged)",""),"C17":(G+V,""),
})
TECH["C18"]=(G+"metamorphic relations between a document and its renamings, reorderings, layouts, wrappings and inlinings; differential between rules alone, in tuples, adapted and beside analyzers; visits compared with a reference traversal","")

TECH["C19"]=(G+"types, values conforming, corrupted or arbitrary, as literals, constants and JSON; differential against a reference coercion with located faults","")
TECH["C20"]=(G+"operations with variables and JSON maps with missing, faulty and undeclared entries; differential against reference coercion","")
R="generated schemas, operations, conditions and variable values; differential against a reference expansion of the operation"
TECH["C21"]=(G+R+"; metamorphic: fragments written out","")
TECH["C22"]=(G+R+"; lower bound by real concrete types; metamorphic: one selection more never costs less","")
TECH["C23"]=(G+R,"");TECH["C24"]=(G+R,"")
TECH["C25"]=(G+"metamorphic: same operation alone, reordered, unnamed; differential between each analyzer alone and in tuples of 2 to 10","")
TECH["C26"]=(G+"generated schemas and visibility policies, lookups in random order; model-based: every observable compared with a reference pruning of the full schema","")
TECH["C27"]=(G+"generated schemas, policies, documents and variable values; differential between the restricted schema and a plain schema built from the SDL without the hidden elements (errors, messages, locations, analyses, printed SDL)","")
TECH["C28"]=(G+"pairs of schemas related by generated edits and reorderings; differential against a reference diff and classification, both directions","")
TECH["C29"]=(G+"pairs of schemas related by edits, documents generated for the old one; if only safe changes are reported the document validates against the new one; metamorphic: swapping the schemas","")

TECH["C30"]=(G+"generated schemas, queries and macro options compiled in batches; conforming and faulty responses and input values run through the generated types; differential against a reference reading of the response (serde and miniserde, owned and borrowed)","")
TECH["C31"]=(G+"generated programs, most with one fault in schema, query, limits or attributes, expanded by the real macro in batches; differential between its compile errors and the reference validator and limits","")
TECH["C32"]=(G+"generated schemas with hidden namesakes, replaced defaults, dropped directive arguments and overridden coercion; differential between the restricted schema and a plain schema with only the shown versions","")

TECH["C33"]=(G+"schemas, documents with several faults and layouts; differential: the set of (rule, node positions, names in the message) against a reference validator that reports the node of each fault, positions from the generator's own rendering","")

TECH["C34"]=(G+"texts with one fault, corrupted documents and soup; differential: first error's position and kind against a predictive reference lexer and parser; metamorphic: the token named as expected, put there, moves the failure on","")

TECH["C35"]=(G+"schema documents with up to five injected faults and random layouts; differential: the set of (category, name, position) of the errors against a reference resolver that reports the token of each fault","")

TECH["C36"]=(G+"ladders of 30-45 fragments, selections, values or types whose levels mention the next one repeatedly, brackets and long tokens, each processed in a process of its own; oracle: a bound on CPU time and memory hundreds of times what polynomial work needs","")

TECH["C37"]=(G+"generated texts, schemas, policies, documents at fault and pairs of schemas, each processed four times from the text on with fresh hash tables and other lookups in between; metamorphic: identical lists in identical order","")
TECH["C38"]=(G+"generated operations, conditions and variable values; a recording analyzer alone and in tuples of 2 to 10, its calls compared with a reference walk over the operation","")
TECH["C39"]=(G+"families of values, argument lists and types derived from each other by reordering, respelling and one change, in all pairs; differential against equality of the reference values","")
TECH["C40"]=(G+"documents, schemas and values in random layouts; differential: the set of (node, byte range) against a walk of the reference tokens along the reference tree; ids and equality across parses; interval algebra","")
