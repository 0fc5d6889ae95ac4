#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=state or [],observe_at=observe or [],hook_needed=None)))

p("C01","Parsing an XML document yields a faithful element tree",
 "For every well-formed, namespace-correct XML document, parsing returns a tree with exactly the document's elements, in document order and nesting, each with its expanded (namespace, local) name, exactly its non-namespace-declaration attributes with their values in order, and a content slice equal to the exact source bytes between its start and end tag. Documents that are not well-formed (mismatched, unclosed or missing root elements) are rejected with an error rather than returned as a partial tree. Parsing leaves the caller's document bytes unmodified.",
 ["inputs"],"all well-formed documents (any nesting, prefixes, default-namespace changes, CDATA, comments, processing instructions, entities, self-closing tags) and all single-fault ill-formed variants of them",
 "The tests parse four fixed documents and compare a handful of fields; nothing compares the whole tree with an independent account of the document.",
 ["xmltree/xmltree.go"],[("Parse/Element.parse","xmltree/xmltree.go"),("Scope.pushNS","xmltree/xmltree.go")],["xmltree.Parse"])

p("C02","Namespace prefixes resolve as the XML Namespaces rules say, everywhere",
 "At every element of every document, resolving a QName yields the namespace bound to its prefix by the nearest enclosing declaration (the default namespace for an unprefixed name, the reserved xml and xmlns prefixes always bound), and an unbound prefix is reported as unresolvable with the prefix itself as namespace. Turning an expanded name back into a QName is the inverse: whenever it gives a prefixed name, that name resolves back to the same expanded name in the same scope, shadowed prefixes included, and an unprefixed name is only produced for the default namespace, no namespace, or a namespace with no usable prefix. Joining two scopes gives a scope in which the inner declarations win, and changes neither operand nor any scope joined earlier.",
 ["inputs","histories"],"every element scope of generated documents with shadowed, re-declared and un-declared prefixes and default namespaces; every QName/expanded name; every sequence of scope joins",
 "The tests resolve a few prefixes in one document with one declaration per prefix; shadowing, un-declaration of the default namespace and aliasing between joined scopes are not reached.",
 ["xmltree/xmltree.go"],[("Scope.ResolveNS","xmltree/xmltree.go"),("Scope.Prefix","xmltree/xmltree.go"),("Scope.JoinScope","xmltree/xmltree.go"),("Scope.pushNS","xmltree/xmltree.go")],["Scope.Resolve, ResolveNS, ResolveDefault, Prefix, JoinScope"])

p("C03","Marshalling a tree and re-parsing it loses nothing",
 "For every parsed document, and for every element inside it taken on its own, the marshalled (compact, indented, streamed or stringified) form is a well-formed self-contained UTF-8 document in which every prefix is declared, no tag repeats an attribute, and re-parsing gives the same element names, attributes and values, order, leaf character content and prefix bindings (indentation adds only white space). Character data interleaved with sub-elements is outside this promise. Decoding such an element into a Go value gives the same result as decoding the corresponding part of the original document, and marshalling never modifies the tree, nor does it depend on what is marshalled at the same time.",
 ["inputs"],"all generated documents and all their sub-elements, with attribute values and prefixes that need care (quotes, ampersands, line breaks, shadowed prefixes, attributes in the element's own default namespace)",
 "The tests marshal fixed documents and mostly log the result; none re-parses sub-elements that depend on outer prefixes or attribute values needing escapes.",
 ["xmltree/marshal.go","xmltree/xmltree.go"],[("Encode/encoder.encode","xmltree/marshal.go"),("diffScope","xmltree/marshal.go"),("tagTmpl","xmltree/marshal.go"),("Unmarshal","xmltree/xmltree.go")],["xmltree.Marshal","xmltree.MarshalIndent","xmltree.Encode","xmltree.Unmarshal"])

p("C04","Edited trees marshal to what was edited",
 "After any sequence of edits to a parsed tree (setting attributes, inserting, removing, reordering or duplicating children, replacing leaf content, moving or copying elements from another document with its own prefixes), the marshalled document is well formed and re-parses to exactly the edited tree: same expanded names, attributes, order, leaf content, and every moved or inherited prefix still resolves to the namespace it had where the element came from. Elements that were not edited are unaffected by edits elsewhere.",
 ["histories"],"all sequences of edit operations over trees parsed from one or more generated documents, with grafts between documents whose prefixes conflict",
 "One test renames attributes on a fixed document; no test composes edits or moves elements between scopes with conflicting prefixes.",
 ["xmltree/xmltree.go","xmltree/marshal.go"],[("Element.SetAttr","xmltree/xmltree.go"),("diffScope","xmltree/marshal.go"),("encoder.encode","xmltree/marshal.go")],["Element fields, SetAttr, Marshal"])

p("C05","Tree searches are exact and attribute access is consistent",
 "Searching a tree returns pointers into that tree to exactly those proper descendants that satisfy the name or predicate (an empty namespace matches any), each once, in document order; flattening returns all of them and the predicate is consulted exactly once per descendant. Reading an attribute returns the first one that matches by namespace and local name (empty namespace matches any) or the empty string, and setting one replaces exactly that attribute in place, or appends a new one, so that the value just written is the one read back and no other attribute changes.",
 ["inputs","histories"],"all generated trees (repeated and nested same-named elements, several namespaces) × all queries; all sequences of attribute reads and writes",
 "Two tests count the results of one search on one document.",
 ["xmltree/xmltree.go"],[("SearchFunc/Search/Flatten","xmltree/xmltree.go"),("Attr/SetAttr","xmltree/xmltree.go")],["Element.Search, SearchFunc, Flatten, Attr, SetAttr"])

p("C06","Tree equality is an equivalence that sees exactly the real differences",
 "Two trees compare equal exactly when they differ only in white space around leaf content, order of sub-elements, attribute order, and choice or placement of namespace prefixes; any difference in an expanded name, an attribute (present, absent or valued differently on either side), leaf content or the number of sub-elements makes them unequal. Comparison is reflexive, symmetric and transitive. Comparing never changes either tree.",
 ["inputs"],"all pairs and triples of generated trees, equal by construction (shuffled siblings at any level, re-prefixed, re-indented) or different by one mutation",
 "One test compares two fixed documents that are equal and one pair that is not; it never swaps the arguments or checks that the operands survive.",
 ["xmltree/compare.go"],[("Equal","xmltree/compare.go")],["xmltree.Equal"])

p("C07","The tree does not depend on the document's character encoding",
 "A document declared and encoded in any supported character set parses to the same tree (names, attribute values, content bytes in UTF-8) as the same document in UTF-8, whatever follows the XML declaration, at every document size. Parsing never modifies or retains writes to the caller's bytes, and an unknown character set is reported as an error. Marshalling such a tree produces valid UTF-8, and documents read later or at the same time do not affect the tree.",
 ["inputs"],"generated documents × supported charset labels × separators after the XML declaration × sizes from a few bytes to beyond the decoder's buffers",
 "A single test parses one fixed ISO-8859-1 document with a newline after its declaration.",
 ["xmltree/xmltree.go"],[("Parse CharsetReader and utf8 copy","xmltree/xmltree.go")],["xmltree.Parse"])

p("C08","Tree operations are total: no crash, no hang, errors reported",
 "Parsing arbitrary bytes either returns a tree or an error, never panics or hangs, and documents nested beyond the nesting limit (3000 levels) are rejected with an error while anything below it is accepted. Every tree that parses can be searched, compared, resolved and marshalled without a crash, and trees that contain themselves are marshalled in bounded time with a marker instead of looping. If the writer given to the encoder fails at any point, the encoder returns an error, and otherwise writes exactly what marshalling returns.",
 ["inputs","fault_sequences"],"arbitrary and mutated byte strings; nesting depths around the limit; cyclic graphs; a write failure at each byte position",
 "One test feeds one deep document and one cycle; no test makes the writer fail at other points or feeds malformed bytes.",
 ["xmltree/xmltree.go","xmltree/marshal.go"],[("recursionLimit","xmltree/xmltree.go"),("cycle detection","xmltree/marshal.go"),("encoder write errors","xmltree/marshal.go")],["xmltree.Parse","xmltree.Encode"])

p("C09","A parsed schema records exactly the declared types",
 "For every supported schema, parsing yields one type per declared or anonymous complex and simple type, keyed and named by its expanded name, each with the right base type and derivation kind, abstract and mixed flags, documentation, and exactly its declared elements (document order) and attributes with their expanded names, types, defaults and extra attributes. An element is marked plural exactly when it may occur more than once, optional exactly when it may be absent, has a default, or is one alternative of a choice, and nillable, abstract or wildcard exactly when declared so; an attribute is optional exactly when not required. Attributes whose use is prohibited and particles that may occur at most zero times are not recorded. Global elements are reachable as type aliases and through the schema's document type.",
 ["inputs"],"all schemas drawn from an abstract model: namespaces, complex/simple content, extension/restriction, sequences/choices/all, wildcards, occurrence bounds, uses and defaults",
 "Each test document in testdata covers one feature with one schema; combinations (extension of an imported type with a choice inside a sequence, ...) are never tried.",
 ["xsd/parse.go","xsd/xsd.go"],[("Parse","xsd/parse.go"),("parseComplexType/parseElement/parseAttribute","xsd/parse.go"),("addElementTypeAliases","xsd/parse.go"),("propagateMixedAttr","xsd/parse.go")],["xsd.Parse"])

p("C10","Equivalent ways of writing a schema parse to the same types",
 "Rewriting a schema without changing its meaning does not change the parsed types: choosing other prefixes or a default namespace, reordering top-level declarations, spelling out or omitting the complexContent shorthand, naming or inlining a type, referencing or inlining a group, attribute group, element or attribute, adding comments and white space, splitting the schema over several documents, nesting it inside another document such as a WSDL, or listing documents in another order. Only the generated names of anonymous types may differ.",
 ["inputs"],"all schemas from the abstract model × all combinations of the listed meaning-preserving rewrites",
 "No test parses the same schema written in two ways.",
 ["xsd/parse.go","xsd/index.go"],[("Normalize","xsd/parse.go"),("flattenRef/deref/unpackGroups","xsd/parse.go"),("expandComplexShorthand","xsd/parse.go"),("indexSchema","xsd/index.go")],["xsd.Parse"])

p("C11","Every parsed type is fully resolved, or parsing fails",
 "In every successful parse, each type's base chain is finite and ends in a built-in type, and every base, element, attribute and union member refers to a real type (the very type declared under that name in any of the given documents), so type lookup by name finds every ancestor and returns nothing for unknown names. A schema in which a reference to an element, attribute or group, or the type named by a type, a global element or anything they reach, is declared in none of the documents, or whose derivations or references form a cycle, is rejected with an error instead of a partial, unresolved or endless result.",
 ["inputs"],"acyclic cross-document derivation graphs in every declaration order, with cross-references between namespaces in both directions, and the same graphs with one dangling or circular reference",
 "The tests only parse self-consistent documents, and each test's own walk assumes the chain ends.",
 ["xsd/parse.go","xsd/xsd.go"],[("resolvePartialTypes/lookupType","xsd/parse.go"),("flattenRef","xsd/parse.go"),("Schema.FindType","xsd/xsd.go")],["xsd.Parse","Schema.FindType"])

p("C12","Normalised schemas are canonical",
 "For every supported set of documents, normalisation returns one tree per schema element (the bundled standard schemas after the caller's), in which every reference to an element, attribute or group has been replaced by the declaration it names, every complex type has explicit simple or complex content, and every type is a named top-level declaration whose name is unique in its namespace, generated names being marked as anonymous and used nowhere else. Normalising the same documents again gives the same trees, normalising the marshalled result changes nothing of substance, and the caller's documents are left unmodified.",
 ["inputs"],"all schemas from the abstract model in all writing styles, including nested anonymous types, groups containing groups, and several schemas per document",
 "The tests print normalised trees of fixed documents and check only that no error occurred.",
 ["xsd/parse.go"],[("Normalize","xsd/parse.go"),("copyEltNamesToAnonTypes","xsd/parse.go"),("nameAnonymousTypes","xsd/parse.go"),("unpackGroups","xsd/parse.go")],["xsd.Normalize"])

p("C13","Discovered imports are exactly those the document states",
 "For every document containing schema elements, whether at the top or nested inside another document, import discovery returns one reference per import (its namespace and location) and one per include (the including schema's own target namespace and the location), nothing else, preserving duplicates and empty locations, whatever prefixes are used. A document that does not parse yields an error.",
 ["inputs"],"generated documents with any number of schema elements, imports, includes and look-alike elements in other namespaces",
 "One test compares two fixed documents.",
 ["xsd/parse.go"],[("Imports","xsd/parse.go")],["xsd.Imports"])

p("C14","Malformed schemas and service descriptions never crash the parsers",
 "Whatever bytes they are given - arbitrary, truncated, structurally mutated or semantically inconsistent schema and WSDL documents - discovering imports, normalising, parsing schemas and parsing service descriptions return a result or an error in bounded time; they never panic, overflow the stack or hang. A number of occurrences, length, number of digits, numeric bound or boolean property of a type or element that is not a number or boolean is reported as an error that names the value and the type it is in.",
 ["inputs"],"mutations (delete, duplicate, move, rename, attribute edits, text edits) of generated and repository schemas and WSDLs, and arbitrary bytes",
 "All test inputs are valid documents.",
 ["xsd/parse.go","xsd/walk.go","xsd/index.go","wsdl/wsdl.go"],[("catchParseError","xsd/walk.go"),("hasCycle","xsd/parse.go"),("Parse","wsdl/wsdl.go")],["xsd.Parse","xsd.Normalize","xsd.Imports","wsdl.Parse"])

p("C15","Simple type facets, lists, unions and documentation are recorded exactly",
 "For every simple type, the parsed form records exactly its enumeration values in order, length bounds, digit counts, numeric or date bounds (those of times and durations are accepted but have no recorded form), patterns (alternatives joined) and whether it is a list or a union of which members, whether the base is built in or user defined, local or imported. Documentation of schemas, types, restrictions, elements and attributes is the trimmed text of all its documentation blocks, in order, separated by blank lines. A pattern that Go's regular expressions cannot express is noted in the documentation and not recorded, rather than rejected.",
 ["inputs"],"all simple types from the model: every facet with every legal value spelling, over built-in and derived bases, nested anonymous lists and unions, any number of documentation blocks",
 "Two or three facets are exercised by fixed documents.",
 ["xsd/parse.go","xsd/xsd.go"],[("parseSimpleType/parseSimpleRestriction","xsd/parse.go"),("parseMinMaxRestriction","xsd/parse.go"),("annotation.UnmarshalXML","xsd/xsd.go")],["xsd.Parse"])

p("C16","Built-in types are recognised by exactly their standard names",
 "Every built-in type's canonical name parses back to that same built-in, distinct built-ins have distinct names, those in the schema namespace are exactly the types of the XML Schema 1.0 standard (with the letter case of the standard), and no other name is accepted as built in. Declaring something with each built-in type, under any prefix for the schema namespace, resolves to that built-in in elements, attributes, bases, list items and union members, and the schema of the XML Schema namespace that a parse returns holds each of them under its name.",
 ["inputs"],"all built-in types, all positions where a type may be named, and generated near-miss names",
 "The built-in table is only exercised by the types that happen to occur in the fixed documents.",
 ["xsd/builtin.go","xsd/builtin_string.go","xsd/parse.go"],[("Builtin.Name/ParseBuiltin","xsd/builtin.go"),("parseType","xsd/parse.go")],["xsd.ParseBuiltin","Builtin.Name"])

p("C17","Generated Go source always compiles",
 "For every supported schema and option set, code generation either returns an error or returns formatted Go source that compiles using only the standard library, with the requested package name, and declares exactly one Go type for every selected schema type that needs one, with one correctly typed and tagged field per element and attribute (slices for plural elements), whatever names the schema uses.",
 ["inputs","configurations"],"all schemas from the generation model (every built-in in element, attribute, list, default and restriction position; plural, optional, recursive and mixed content; names that collide with each other, with Go keywords or with helper names) × option sets",
 "The tests generate code for fixed schemas and only log it; compilation of what is generated is checked for two committed packages.",
 ["xsdgen/xsdgen.go","xsdgen/config.go","xsdgen/builtin.go","internal/gen/gen.go"],[("Config.gen/genComplexType/genSimpleType","xsdgen/xsdgen.go"),("nameGenerator","xsdgen/xsdgen.go"),("FormattedSource","internal/gen/gen.go")],["xsdgen.Config.GenSource / GenCode / GenAST"])

p("C18","Generated types decode and re-encode conforming documents without loss",
 "For every supported schema without wildcards, mixed content and abstract types, and every document conforming to it, decoding the document into the generated Go type and encoding it again (through a pointer, as the generated methods have pointer receivers) yields a document with the same elements, order within each repeated element, attributes and values, its child elements in the order that the schema demands wherever no group repeats and no name occurs twice (elements of time and binary types after the others: a known finding); nothing that the schema declares is dropped, duplicated or moved to another namespace, and encoding once more changes nothing. Inherited elements and attributes of extended types are included. Where the schema lets a single element or attribute be absent, one that has the zero value of its Go type may be left out, and an element of complex type that is absent may come out empty (a known finding); times without a zone are read as UTC.",
 ["inputs","programs"],"schemas from the generation model × conforming instance documents × option sets",
 "Two committed round-trip tests use one fixed document each.",
 ["xsdgen/xsdgen.go","xsdgen/config.go"],[("genComplexType field tags","xsdgen/xsdgen.go"),("expandComplexTypes","xsdgen/xsdgen.go"),("genComplexTypeMethods","xsdgen/xsdgen.go")],["compiled generated packages with encoding/xml"])

p("C19","Simple values survive the generated codecs",
 "For every built-in or derived simple type and every value in its lexical space that the mapped Go type can represent, decoding the value through the generated type and encoding it again gives a value denoting the same thing: dates and times keep their instant and fields with or without a time zone (without one they are read as UTC; the first instant of the year 1, Go's zero time, stands for absence), binary data keeps its bytes, numbers keep their value, lists keep their items and order, in element, attribute, character-data and repeated positions. Lexically invalid dates, numbers, booleans and binary data are rejected with an error, also as items of lists.",
 ["inputs","programs"],"every built-in type × position × generated values (boundaries, time zones, fractions, empty and long lists)",
 "The committed tests cover one date and one binary document.",
 ["xsdgen/config.go","xsdgen/xsdgen.go","xsdgen/builtin.go"],[("addStandardHelpers","xsdgen/config.go"),("genSimpleListSpec","xsdgen/xsdgen.go"),("builtinTbl","xsdgen/builtin.go")],["compiled generated packages"])

p("C20","Code generation is deterministic",
 "The same documents and options always produce byte-identical source, run after run, in this process or another, with a fresh or re-used configuration, and concurrently generating with separate configurations does not change it. Reordering top-level declarations, the files or the options that do not interact does not change the set of generated declarations.",
 ["inputs","schedules","histories"],"schemas and WSDLs from the model, repeated generation (map iteration order varies), re-used configurations, several goroutines with separate configurations, permuted declarations",
 "The tests run each generation once.",
 ["xsdgen/xsdgen.go","xsdgen/config.go","internal/dependency/graph.go","wsdlgen/wsdlgen.go"],[("rangeMap and sorted decls","xsdgen/xsdgen.go"),("Graph.Flatten","internal/dependency/graph.go")],["xsdgen.Config.GenSource","wsdlgen.Config.GenSource"])

p("C21","Generator options do what they say, and undo cleanly",
 "Each option changes exactly what it documents: ignored elements and attributes disappear from every type and nothing else does, type selection keeps exactly the selected types and what they depend on, namespace selection keeps exactly those namespaces, replacement rules rename identifiers in the order given, type preprocessing sees every selected type, and the package name appears in the output. Applying an option and then the value it returned restores the previous output, and names reported by the generator for a type are those it declares.",
 ["configurations","histories"],"sequences of option applications and undos over generated schemas",
 "One example per option shows one schema; undo values are never applied.",
 ["xsdgen/config.go"],[("Option functions","xsdgen/config.go"),("flatten selection","xsdgen/xsdgen.go"),("Code.NameOf","xsdgen/xsdgen.go")],["xsdgen.Config.Option, GenSource, Code.NameOf"])

p("C22","SOAP-encoded arrays become slices that round-trip",
 "For every type that restricts the SOAP-encoded array type, directly or through another array type, and declares the type T of its items as T[] in its arrayType attribute, the generator produces a slice of the Go type of T (built-in, user-defined or an array itself; with any prefix, in any namespace), whose codec encodes every item in order and declares the array type, and whose decoder reads back every item whatever its element is called. Array types that declare attributes or elements of their own keep them beside their items. Other types, and the shared array base type itself, are unaffected.",
 ["inputs","programs"],"array types over every built-in and over user types, several per schema, with any item count including zero",
 "One example prints the code for one array type and never runs it.",
 ["xsdgen/config.go","xsd/standard-schema.go"],[("parseSOAPArrayType","xsdgen/config.go"),("soapArrayToSlice","xsdgen/config.go")],["xsdgen.Config with DefaultOptions"])

p("C23","The generator commands honour their files and flags",
 "The command-line entry points read every named file, and with import following every file reachable through imports and includes exactly once even when files import each other, and write the formatted source that the library would produce for those documents and flags to exactly the named output, with the requested package, namespaces and replacement rules. A missing or unreadable input, an import that cannot be found, an invalid rule or an unwritable output is reported as an error, leaving no partial output file.",
 ["inputs","configurations","fault_sequences"],"generated directory layouts of schema files with import graphs (chains, diamonds, cycles), flag combinations, and a missing, unreadable or malformed file at each position",
 "One test runs the CLI on fixed files with fixed flags; errors and import graphs with more than one edge are not covered.",
 ["xsdgen/cli.go","wsdlgen/cli.go","internal/commandline/cli.go","cmd/xsdgen/xsdgen.go"],[("readFiles","xsdgen/cli.go"),("GenCLI","xsdgen/cli.go"),("ReplaceRuleList","internal/commandline/cli.go")],["xsdgen.Config.GenCLI","xsdgen.Config.GenAST","wsdlgen.Config.GenCLI"])

p("C24","A parsed service description lists exactly the declared services",
 "For every WSDL 1.1 document, parsing yields the target namespace, the documentation of its services, every port with its address and HTTP method, every operation of that port's port type in order with its documentation, SOAP action, input and output message names, and every message with its parts in order, all QNames resolved in the scope where they appear. The result does not depend on prefixes, on the order of top-level sections, or on unrelated bindings and port types.",
 ["inputs"],"all service descriptions from an abstract model: SOAP 1.1/1.2 and HTTP bindings, several ports, port types, messages and services, prefix choices and section orders",
 "One test parses four fixed documents and only logs the result.",
 ["wsdl/wsdl.go"],[("Parse/parsePorts/parseOperations/parseMessages","wsdl/wsdl.go")],["wsdl.Parse"])

p("C25","Generated SOAP clients always compile and offer every operation",
 "For every supported service description and option set, client generation returns an error or Go source that compiles with only the standard library, containing exactly one client method per distinct operation of the selected ports with one argument per input part and one result per output part, or a single wrapper struct once their number exceeds the configured threshold, and the type declarations they need. Restricting generation to named ports removes exactly the other ports' operations.",
 ["inputs","configurations"],"service descriptions from the model × thresholds × port selections × names that collide or need sanitising",
 "The tests generate clients for fixed documents and only log them.",
 ["wsdlgen/wsdlgen.go","wsdlgen/config.go","wsdlgen/helper.go"],[("GenAST/port/operation/opArgs","wsdlgen/wsdlgen.go"),("OnlyPorts/InputThreshold/OutputThreshold","wsdlgen/config.go")],["wsdlgen.Config.GenSource"])

p("C26","A generated client call sends and returns what the description says",
 "Calling a generated method issues exactly one HTTP request to the port's address with the port's method, the operation's SOAP action and, for a POST port, a SOAP envelope whose body holds one element named for the operation in the service's namespace and below it every argument once, in an element named for its part, written in the lexical form of its XML Schema type. The values of a response's body laid out that way are returned unchanged, whatever prefixes, CDATA sections, comments and order the server uses, and the response's body is closed exactly once. A SOAP fault is returned as an error with its code and text; a transport failure, a context cancelled before or during the call, a truncated or malformed response, and a value that is none of its type are returned as errors. The request and response hooks see and may replace the request and response exactly once per call, a nil HTTP client means the default one, and parallel calls on one client do not affect each other.",
 ["inputs","fault_sequences","programs","schedules"],"service descriptions from the model × argument and result values × server behaviours (success, fault, transport failure, cancelled before or during, truncated, reset, malformed, another document, bad value, empty) × hooks × parallel calls",
 "The example client tests talk to live servers and are skipped offline.",
 ["wsdlgen/helper.go","wsdlgen/wsdlgen.go"],[("Client.do","wsdlgen/helper.go"),("operation template","wsdlgen/wsdlgen.go")],["compiled generated clients with a recording HTTP transport"])

p("C27","Dependency ordering visits everything once, dependencies first",
 "For every dependency graph, flattening visits every target and every dependency ever added exactly once; in an acyclic graph each is visited after everything it depends on, and cycles neither loop nor drop a vertex. The visiting order depends only on the set of edges, not on the order or multiplicity in which they were added, and repeated flattening gives the same order.",
 ["inputs","histories"],"all directed graphs up to a bounded size and random larger ones, in all insertion orders, with duplicates",
 "The tests flatten three small fixed graphs and compare with one printed order.",
 ["internal/dependency/graph.go"],[("Graph.Add/Flatten","internal/dependency/graph.go")],["dependency.Graph"])
p("C28","The schema printing command prints the normal form of its documents",
 "For every set of schema files, the xsdparse command prints, in the order of the documents, one self-contained well-formed tree per schema element, bundled standard schemas excepted, and each is the normalised form of that schema: what is printed refers to no group, attribute or element of elsewhere and, parsed again, means what the files mean. With -ns exactly the schemas of that namespace are printed, bundled ones included, or nothing. A file that is missing or malformed, a reference that cannot be resolved and a wrong command line are reported on standard error with a non-zero exit status and nothing is printed.",
 ["inputs","configurations","fault_sequences"],"all schemas from the abstract model in all writing styles, spread over files and directories, with and without -ns, and a fault at each position",
 "The command has no tests.",
 ["cmd/xsdparse/xsdparse.go","xsd/parse.go","xmltree/marshal.go"],[("main","cmd/xsdparse/xsdparse.go"),("Normalize","xsd/parse.go"),("MarshalIndent","xmltree/marshal.go")],["the xsdparse command"])
p("C29","Documentation is carried into generated source and changes nothing else",
 "Whatever the documentation of a schema or service description says, the generated source declares the same code, token for token, as it does without any documentation. The documentation of a complex type, and of a simple type that is no list, is the comment of the Go type declared for it, complete and in order (a simple type with restrictions may have a note on them instead, which says what one of them is); the documentation of an operation is the comment of its method; and that of the services, and the configured package comment, are in the comment of the package. No two documentations are exchanged, joined or cut short.",
 ["inputs","configurations"],"schemas and service descriptions from the model whose types, elements, services and operations have random documentation: several paragraphs, code, comment markers, template directives, build directives, long lines, any script",
 "The tests' schemas have a few plain sentences of documentation, and no test looks at a comment of the generated source but for two printed examples.",
 ["xsdgen/xsdgen.go","internal/gen/gen.go","wsdlgen/wsdlgen.go"],[("Config.typeDecls/genSimpleType","xsdgen/xsdgen.go"),("CommentGroup/Func.Decl/FormattedSource","internal/gen/gen.go"),("genAST/operation","wsdlgen/wsdlgen.go")],["xsdgen.Config.GenSource","wsdlgen.Config.GenSource"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x["title"])<=80,x["title"]
