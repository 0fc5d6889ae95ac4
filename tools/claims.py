CLAIMS={
"C01":("model-based random document generation (rapid) against an independent reading of the document",
 "Generated namespace-correct documents and single-fault corruptions of them; trusts the generator's own account of each document. Documents larger than about 30 elements, and DTD-defined entities, are outside the explored space."),
"C02":("random documents and histories of scope joins (rapid) against an independent scope model; inverse law",
 "Explores generated scopes with shadowed, repeated and undeclared prefixes, up to about 12 joins per history. The oracle's scope rules are written from the XML Namespaces recommendation."),
"C03":("round trip over random documents (rapid): every element is marshalled, re-read by an independent reader and decoded",
 "Every element of documents of up to 16 elements, compact, streamed, string and indented; chains of up to 3001 levels; two to six goroutines writing the same elements. Character data next to sub-elements is not carried by the tree and is excluded by the statement."),
"C04":("stateful model-based testing (rapid): edit histories on the tree and on a model tree, output judged after each step",
 "Histories of up to 8 edits over up to three documents whose prefixes conflict. Removing the last child also clears Content, which is what the package writes for an element without children."),
"C05":("random documents and attribute histories (rapid) against a naive walk and an ordered-list model",
 "Queries by name, namespace and predicate from three elements of each document; histories of up to 14 attribute operations."),
"C06":("metamorphic pairs and mutants (rapid) against a canonical form; enumerated nesting depths",
 "Trees of up to 20 elements, all ordered pairs of three writings each; leaf content is compared as written (entities not expanded)."),
"C07":("differential testing (rapid): the same random document in 21 character sets and in UTF-8",
 "Documents up to 70 kB; two to four documents kept while others are read, one after the other or at the same time. Encodings whose XML declaration is not ASCII (UTF-16, UTF-32) cannot be read by encoding/xml and are outside."),
"C08":("fuzzing with structured generators (rapid), enumerated nesting depths and write faults injected at every position",
 "Random bytes, token soup, mutated documents up to about 20 elements; cyclic graphs of up to five elements; faults at every byte (sampled beyond 400) and every write call."),
"C09":("model-based random schema generation (rapid): parsed types compared with an independent account of the declarations; enumerated element-namespace cases",
 "Schemas of one to three namespaces with about a dozen declarations, all particle and derivation kinds, references into the bundled xml, xlink and SOAP schemas among them; the parse is compared structurally with what the model declares. The element namespaces the repository's own tests fix (K01, K03) are accepted as they are and reported as known findings."),
"C10":("metamorphic testing (rapid): the same schema model written in two ways must parse to the same types",
 "About 20 meaning-preserving rewrites, combined at random: prefixes, order, shorthand, naming and inlining of types, groups and references, splitting and nesting of documents."),
"C11":("random schemas and single-reference faults (rapid) against the model's reference graph; random circular definitions",
 "Every pointer of the parsed graph is followed and compared with the declaration of that name; then one reference at a time is made dangling or circular."),
"C12":("model-based random schema generation (rapid): invariants of the normalised trees; idempotence and determinism as metamorphic relations",
 "Every normalised tree of schemas as in C09, in all writing styles. Occurrence bounds below a choice (where everything is optional) and names generated inside the bundled standard schemas are not compared when normalising a second time."),
"C13":("model-based random documents (rapid) against the model's list of imports and includes; truncations of them",
 "Up to four schema elements anywhere in a document, look-alike elements in other namespaces and nested positions."),
"C14":("structure-aware fuzzing (rapid): mutated schema and service models, mutated repository documents, one invalid value at a time",
 "Totality of all four parsers under one to six structural or textual changes per document set. Documents whose groups nest so as to expand exponentially are outside; they are bounded by the size of the generated models."),
"C15":("model-based random simple types (rapid): recorded facets, variety, base and documentation compared with the model",
 "Every facet the base allows with random legal values over all built-ins, derivation chains, inline lists and unions, up to three documentation blocks per place. Bounds of types derived (not directly) from times and partial dates are not compared, nor are years outside 1 to 9999."),
"C16":("complete enumeration of built-ins x positions x prefix styles; random near-miss names (rapid) against the table of the standard",
 "All 46 built-ins in 15 positions under 7 ways of binding the prefix; misspelt, re-cased, 1.1-only and foreign names must be refused."),
"C17":("model-based random schema and option generation (rapid): generated source is type-checked and its declarations compared with those the model calls for",
 "Schemas as in C09 with names that collide, are no identifiers or are Go keywords; type-checked against the standard library with go/types. Fields that restrictions of complex types leave out may or may not be declared. Tags of references to global attributes (K02) are accepted as they are and reported as a known finding."),
"C18":("model-based random schemas and conforming documents (rapid): generated code is compiled, run, and what it decodes and encodes again compared with the document",
 "Schemas as in C17 compiled with the Go toolchain, about seven documents each in 32 ways of writing. encoding/xml takes prefix declarations for attributes of that name and attributes in a namespace for those of the same local name without: such combinations are left out. Values of xs:QName (K06), empty elements for absent ones of complex type (K07) and references to global attributes (K02) and elements of time and binary types behind those that follow them (K12) are accepted as they are; K06, K07 and K12 are reported as known findings."),
"C19":("random simple types and values (rapid): generated code is compiled, run, and the Go values and the texts it encodes compared with the values they denote",
 "Every built-in but xs:QName (K06), restricted up to three times, as list items and union members, as required, optional, repeated and inherited elements and attributes, character data and on its own; years 1 to 9999. Go's spellings of infinity (K08) and exponents of decimals (K09) are accepted as they are and reported as known findings."),
"C20":("metamorphic testing (rapid): the same random schemas and options generated repeatedly, concurrently, in another process and in another order",
 "Schemas as in C17. Anonymous types, which are numbered in document order, are left out of the re-ordered facet, as are options that override each other."),
"C21":("model-based random option sets and option histories (rapid): output compared with what the model selects, with runs on fresh configurations and before/after undo",
 "Schemas as in C17, one set of options at a time judged against the selection the model calls for; histories of up to eight applications and undos compared with the fresh configuration they amount to; xsdgen and wsdlgen configurations. LogLevel/LogOutput are covered through C23 only."),
"C22":("model-based random array types and arrays (rapid): the generated types are compared with the declared item types; generated code is compiled, run, and the items it decodes and encodes compared with the document",
 "Up to four array types per schema over every built-in but xs:QName (K06), types as in C18 and other array types, restricting the array type or each other; item tags of any name. Sizes (T[5], T[,], T[][]) are outside. Items that are no values of their type are left out without an error (K10), which is reported as a known finding."),
"C23":("model-based random directory layouts, import graphs, flags and injected faults (rapid): what the built commands write is compared with what the library produces for the documents that should have been read",
 "Directories of up to eight schema files linked by imports and includes (chains, diamonds, cycles), all flags of xsdgen; service descriptions with their schemas inside or in other files, all flags of wsdlgen; 17 kinds of faults, one at a time. Only the local file system: the disk is filled by a file size limit."),
"C24":("model-based random service descriptions (rapid): parsed definition compared with the model",
 "Up to four services, ports, bindings and port types each; SOAP 1.1, SOAP 1.2 and HTTP bindings; sections in any order and any prefixes. Documentation of several services is joined."),
"C25":("model-based random service descriptions and options (rapid): the generated client is type-checked and its methods, wrappers and types compared with those the model calls for",
 "Up to four services, ports and port types, six messages of up to four parts of built-in, named and element types; names that collide with each other, with Go and with the generated code. Randomly damaged descriptions must be refused or give source that compiles."),
"C26":("model-based random service descriptions and calls (rapid): the generated clients are compiled and called against a scripted transport; requests, results, errors and hook calls compared with the model, faults injected",
 "POST, PUT and GET ports; up to six calls a client, sequential or parallel; fifteen server behaviours; parts of built-in, named and list types. Parts of QName types and operations with ambiguous method names are not called. The layout of the body is the package's own (K11)."),
"C27":("complete enumeration of digraphs of up to four vertices plus random larger ones (rapid) against graph laws",
 "Complete for up to four vertices; random up to 40; chains and stars up to 20000."),
"C28":("model-based random schemas and command lines (rapid): what the built command prints is compared with the normal form and, parsed again, with the model; faults injected",
 "Schemas as in C12; one -ns value at a time; six kinds of faults, one at a time."),
"C29":("model-based random documented schemas and service descriptions (rapid): tokens of the generated source compared with those generated without documentation, comments with the model",
 "Schemas as in C17 and descriptions as in C25, with 27 kinds of paragraphs and their combinations, lines of up to 75 kB. Comments are compared as words: line breaks and blanks are the formatter's. Types that share a Go name with another are left out."),
}
NOT={}
