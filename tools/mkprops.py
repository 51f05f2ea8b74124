import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if hook is not None: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

RT=["crates/mabo/src/buf/encode.rs","crates/mabo/src/buf/decode.rs","crates/mabo/src/buf/size.rs","crates/mabo/src/varint.rs","crates/mabo/src/lib.rs","crates/mabo-build/src/encode.rs","crates/mabo-build/src/decode.rs","crates/mabo-build/src/size.rs","crates/mabo-build/src/definition.rs"]
p("W01","Encode then decode returns the same value and consumes exactly its bytes",
 "For every type a schema can declare and every value of it, decoding the bytes that encoding produced yields an equal value. The decoder consumes exactly the bytes the encoder wrote, whatever follows them in the buffer. Only collections of elements that occupy zero bytes are excluded.",
 ["inputs","programs"],"all schemas (structs, enums, tuples, arrays, collections, options, non-zero, references, generics, nesting) and all their values",
 "The tests round-trip ten fixed values of two hand-written schemas; the guarantee is over every schema shape, nesting and value.",
 RT,[("generated Encode/Decode implementations","crates/mabo-build/src/{encode,decode}.rs"),("runtime primitives","crates/mabo/src/buf")],["Encode::encode output bytes","Decode::decode result and remaining buffer"])
p("W02","The reported encoded size equals the number of bytes actually written",
 "For every type and value, the size a value reports before encoding equals the number of bytes its encoding occupies. This holds at top level and for every nested element whose size becomes a length prefix.",
 ["inputs","programs"],"all schemas and all their values, including ones whose payload crosses varint size steps",
 "No test calls the size computation; prefixes only go wrong once a payload crosses a varint size step such as 128 bytes.",
 RT,[("Size trait and size_* functions","crates/mabo/src/buf/size.rs"),("generated Size implementations","crates/mabo-build/src/size.rs")],["Size::size result vs encoded byte count"])
p("W03","Encoded bytes follow the wire format exactly",
 "The bytes produced for a value are exactly those the wire format prescribes: one byte for bool/u8/i8, minimal varints with zigzag for signed integers, big-endian floats, byte-length prefixes for strings, bytes, collections, arrays and tuple fields, a presence byte for nested options, each present field announced by an identifier carrying its number and a skip category in declaration order, a zero identifier closing every struct and field-carrying variant, nothing for absent optional fields, and the variant number in front of a variant.",
 ["inputs","programs"],"all schemas and all their values",
 "Round-trip tests cannot see a symmetric change to encoder and decoder that silently breaks compatibility with stored data and other implementations; no test fixes byte sequences.",
 RT,[("encode_* functions","crates/mabo/src/buf/encode.rs"),("field identifiers","crates/mabo/src/lib.rs FieldId"),("generated encoders","crates/mabo-build/src/encode.rs")],["Encode::encode output bytes"])
p("W04","Readers and writers with different schema versions interoperate",
 "A reader whose schema lacks some of the writer's fields skips them and still obtains every field it knows, with the value that was written. Fields the reader declares optional and the writer did not send become absent, and the order in which fields arrive does not matter.",
 ["histories","inputs","programs"],"all histories of adding, removing, renaming and reordering fields or adding variants between the writer's and the reader's schema, and all values",
 "One test reads one message of a two-field writer with a one-field reader; evolution is a property of every pair of versions in a history and every kind of skipped field.",
 RT,[("decode_skip by field encoding","crates/mabo/src/buf/decode.rs decode_skip"),("generated field loop","crates/mabo-build/src/decode.rs")],["Decode::decode of version B on bytes of version A"])
p("W05","Decoding arbitrary bytes never panics, hangs or reads past the message",
 "Decoding any byte sequence as any type terminates with either a value or an error, without panicking. Dropping any bytes from the end of a valid message never yields a value for a type that ends with an end marker.",
 ["inputs","fault_sequences"],"all byte sequences: valid messages that were truncated, bit-flipped, spliced or had lengths corrupted, and arbitrary short strings; collections of zero-byte elements excluded",
 "The tests only ever decode bytes produced by the matching encoder.",
 RT,[("remaining-length checks","crates/mabo/src/buf/decode.rs ensure_size"),("limited sub-buffers for collections","decode_vec/decode_array")],["Decode::decode outcome"])
p("W06","Invalid messages are rejected with the matching error",
 "A message lacking a mandatory field fails with a missing-field error naming that field's number (and name, if it has one); an unknown variant number fails with an unknown-variant error carrying it; a zero or empty non-zero value fails as zero; invalid UTF-8 in a string fails as such; an unknown skip category fails as such; and running out of bytes never produces a value.",
 ["inputs","fault_sequences"],"all schemas, all messages derived from valid ones by removing a mandatory field, changing a variant number, zeroing a non-zero value, corrupting text or truncating",
 "No test decodes an invalid message.",
 RT,[("MissingField/UnknownVariant/Zero/NonUtf8 construction","crates/mabo-build/src/decode.rs, crates/mabo/src/buf/decode.rs")],["Decode::decode error"])
p("W07","Variable-length integers are minimal, bounded and lossless at every width",
 "Every 16- to 128-bit integer encodes to the shortest base-128 form (at most 3, 5, 10 and 19 bytes), signed values via zigzag so that small magnitudes stay small, decoding restores the value and the exact byte count, the reported size matches, and a sequence without a terminating byte within the maximum length is an error.",
 ["inputs"],"all values of u16/i16/u32/i32/u64/i64/u128/i128 and all byte prefixes",
 "The tests round-trip the extremes and 0, 1, -1 only.",
 ["crates/mabo/src/varint.rs"],[("encode/decode/size macros","crates/mabo/src/varint.rs")],["varint::{encode,decode,size}_* results"])
p("W08","Consecutive messages decode in order however the buffer is fragmented",
 "Messages written back to back into one stream are decoded one after another to the same values, and the result does not depend on how the stream's bytes are split into contiguous chunks.",
 ["histories","schedules","inputs"],"all sequences of messages of any types and all ways of splitting their bytes into chunks",
 "All tests decode one message from one contiguous slice; chunk boundaries inside integers, prefixes or strings are never exercised.",
 ["crates/mabo/src/buf/decode.rs","crates/mabo/src/varint.rs"],[("integer decoding from the current chunk","crates/mabo/src/buf/decode.rs decode_int")],["Decode::decode over chained buffers"])

CO=["crates/mabo-compiler/src/simplify.rs","crates/mabo-compiler/src/lib.rs"]
p("C01","Every field and variant gets its declared or next sequential identifier",
 "A field or variant with an explicit number keeps it, one without gets the number after its predecessor, and the first one gets 1. Numbering restarts for every struct, enum and variant, unnamed fields follow the same rule, and all outputs use these numbers.",
 ["inputs","programs"],"all structs, enums and variants with any mix of explicit and implicit identifiers, and any history of appending declarations",
 "Snapshots cover a handful of declarations; the rule quantifies over every mix of explicit and implicit numbers.",
 CO+["crates/mabo-compiler/src/validate/ids.rs"],[("identifier generator","crates/mabo-compiler IdGenerator")],["simplified schema ids","wire bytes"])
p("C02","A schema is accepted only if identifiers are unique per scope",
 "Validation rejects a schema exactly when two variants of one enum or two fields of one struct or variant end up with the same number, counting implicit numbers, at any module depth. The report points at the two conflicting declarations in source order.",
 ["inputs","programs"],"all schemas",
 "Two snapshot tests per duplicate kind; nothing covers implicit/explicit collisions, nesting or absence of false rejections.",
 ["crates/mabo-compiler/src/validate/ids.rs","crates/mabo-compiler/src/validate/mod.rs"],[("id visitors","validate/ids.rs")],["validate_schema result"])
p("C03","A schema is accepted only if names are unique per scope",
 "Validation rejects a schema exactly when two variants of an enum, two named fields of one struct or variant, or two definitions in one module (types, aliases, constants, modules, and imports, which go by the imported element or else by the last segment of their path) carry the same name. The same name in different scopes is accepted.",
 ["inputs","programs"],"all schemas",
 "A few snapshots of single duplicates; scope boundaries and absence of false rejections are not covered.",
 ["crates/mabo-compiler/src/validate/names.rs","crates/mabo-compiler/src/validate/mod.rs"],[("name visitors","validate/names.rs")],["validate_schema result"])
p("C04","Generics must be distinct and used, tuples must have 2 to 12 elements",
 "Validation rejects a schema exactly when a struct or enum declares the same generic twice or declares one that none of its fields mentions at any depth, or when a tuple type has fewer than 2 or more than 12 elements anywhere inside the type of a field, alias or constant. The generics of an alias may stay unused.",
 ["inputs","programs"],"all schemas",
 "Snapshots cover one unused generic and one tuple size; positions deep inside other types are unbounded.",
 ["crates/mabo-compiler/src/validate/generics.rs","crates/mabo-compiler/src/validate/tuples.rs"],[("type visitors","validate/generics.rs, validate/tuples.rs")],["validate_schema result"])
p("C05","Type references resolve exactly when the target exists with matching generics",
 "A set of schemas resolves exactly when every type referenced from a field is a generic parameter in scope, or a struct or enum that is used with as many type arguments as it declares and is defined in the reference's module, along its module path, or behind an import of its own or an enclosing module, and every import names an existing schema, module or struct or enum in it. A reference or import that names a missing schema, module or type, an alias or a constant, or has the wrong number of arguments, is an error.",
 ["programs","inputs"],"all sets of schemas with nested modules, imports and references",
 "Tests resolve one schema with one import; names missing at any path position in any module are not sampled.",
 ["crates/mabo-compiler/src/resolve/mod.rs","crates/mabo-compiler/src/resolve/error.rs"],[("module tree construction and lookup","crates/mabo-compiler/src/resolve/mod.rs")],["resolve_schemas result"])
p("C06","Accepted schemas generate Rust code that compiles and declares what was written",
 "For every schema accepted by validation and resolution that stays within the documented type combinations and literal types, and whose names are not reserved in Rust or used by the generated code itself, generation completes without panicking and its output compiles. The generated items have the declared names, field types, variants, generics, aliases and constant values.",
 ["programs"],"all accepted schemas",
 "Snapshots compare text and one playground crate compiles fixed schemas.",
 ["crates/mabo-build/src/definition.rs","crates/mabo-build/src/lib.rs","crates/mabo-build/src/decode.rs","crates/mabo-build/src/encode.rs","crates/mabo-build/src/size.rs"],[("token generation","crates/mabo-build/src")],["rustc result on generated code","typed construction of generated items"])

PA=["crates/mabo-parser/src/parser.rs","crates/mabo-parser/src/parser/","crates/mabo-parser/src/lib.rs","crates/mabo-parser/src/punctuated.rs"]
p("F01","Formatting preserves the meaning of a schema",
 "The formatted text of any parseable schema parses again and denotes the same schema: same definitions in the same order with the same names, types, identifiers, generics, values, attributes and comment lines.",
 ["programs","inputs"],"all parseable schemas in any layout",
 "Formatter snapshots cover about thirty inputs and never reparse the output.",
 PA,[("Display/Print implementations","crates/mabo-parser/src/lib.rs")],["Schema::parse(format(schema))"])
p("F02","Formatting is deterministic in layout and idempotent",
 "Formatting an already formatted schema changes nothing, and two texts of a schema that differ only in optional whitespace format identically.",
 ["programs","inputs"],"all parseable schemas and all whitespace layouts of them",
 "No test formats twice or compares layouts.",
 PA,[("Display/Print implementations","crates/mabo-parser/src/lib.rs")],["text of format(format(x)) and format(y)"])
p("F03","Parsing yields exactly the schema that was written",
 "For every schema text built from the grammar, in any whitespace layout and with optional trailing separators, parsing succeeds and yields the written definitions, names, types, identifiers, literal values, comments, attributes and imports, in order.",
 ["programs","inputs"],"all schemas of the grammar and all their layouts",
 "Snapshots fix about thirty inputs; the grammar and the layouts are unbounded.",
 PA,[("winnow parsers","crates/mabo-parser/src/parser")],["Schema::parse result"])
p("F04","Parsing any text terminates without panicking and reports in-range errors",
 "Any text either parses or yields an error; parsing never panics or hangs, and a reported error position lies within the text on a character boundary. Text that is not a schema (an unclosed block, a missing name, a lower-case type name, a bad identifier, a malformed literal) is rejected.",
 ["inputs"],"all texts, in particular valid schemas with one character removed, inserted or replaced",
 "Around thirty invalid inputs are snapshot-tested.",
 PA+["crates/mabo-parser/src/error.rs"],[("error recovery positions","crates/mabo-parser/src/error.rs, location.rs")],["Schema::parse result and error location"])
p("F05","Source positions recorded by the parser delimit the written element",
 "Every position range the parser records for a name, identifier, type, literal, comment, keyword, punctuation, field or variant covers exactly the text of that element in the input.",
 ["programs","inputs"],"all schemas and layouts, including multi-byte characters before the element",
 "Span snapshots exist for few inputs without multi-byte text in front.",
 PA,[("Span/Spanned","crates/mabo-parser/src/location.rs and parser/*")],["Spanned::span of parsed elements"])

LS=["crates/mabo-lsp/src/main.rs","crates/mabo-lsp/src/handlers/mod.rs","crates/mabo-lsp/src/state.rs"]
p("L01","The language server's view of a document follows the edit history",
 "After any sequence of open, change, close and delete notifications, the server's answers and diagnostics for a document equal those for a freshly opened document with the text that results from applying the edits in order. Several changes in one notification apply one after another, each relative to the result of the previous one.",
 ["histories","inputs"],"all histories of document notifications with full and ranged changes, multi-byte text and several documents",
 "There is no test of the language server.",
 LS+["crates/mabo-lsp/src/handlers/index.rs"],[("rope update and index conversion","handlers/mod.rs did_change, handlers/index.rs")],["publishDiagnostics, documentSymbol, semanticTokens, hover over stdio"],state=[("files","text and parse result per document","crates/mabo-lsp/src/state.rs")])
p("L02","Every request is answered exactly once and no message kills the server",
 "For any sequence of requests and notifications after initialisation, including malformed parameters, unknown methods, unknown documents and positions outside the text, the server stays alive and answers each request exactly once, in order, with the request's id. After a shutdown request every further one is refused with an error, and exit ends the server cleanly; without a shutdown, it ends at an exit or when the client goes away.",
 ["histories","fault_sequences","inputs"],"all message sequences",
 "There is no test of the language server.",
 LS+["crates/mabo-lsp/src/client.rs"],[("main loop dispatch","crates/mabo-lsp/src/main.rs")],["responses over stdio, process exit status"])
p("L03","No client message is lost while the server waits for a client reply",
 "Notifications and requests that arrive while the server is waiting for the client's answer to one of its own requests are processed afterwards in arrival order, and late, missing or failed replies leave the server working. The settings of an understood reply to the latest question take effect.",
 ["schedules","fault_sequences","histories"],"all interleavings of client messages with the server's configuration and registration requests, and all reply outcomes",
 "There is no test of the language server; the outcome depends on message interleaving.",
 ["crates/mabo-lsp/src/client.rs","crates/mabo-lsp/src/main.rs","crates/mabo-lsp/src/handlers/mod.rs"],[("synchronous client requests","crates/mabo-lsp/src/client.rs send_request")],["responses and diagnostics over stdio"],state=[("inbox","messages received but not yet handled","crates/mabo-lsp/src/client.rs")])
p("L04","Ranges sent by the server are in the negotiated encoding and delimit the item",
 "The server announces one of the client's offered position encodings (UTF-16 by default), and every range it sends for symbols, tokens, hovers and diagnostics delimits, in that encoding, exactly the element's text in the current document. Semantic tokens are ordered and do not overlap.",
 ["inputs","configurations"],"all documents, including multi-byte characters and different line endings, and all three position encodings",
 "There is no test of the language server.",
 ["crates/mabo-lsp/src/handlers/index.rs","crates/mabo-lsp/src/handlers/document_symbols.rs","crates/mabo-lsp/src/handlers/semantic_tokens.rs","crates/mabo-lsp/src/handlers/hover.rs","crates/mabo-lsp/src/handlers/mod.rs"],[("position conversion","handlers/index.rs")],["ranges in responses over stdio"])
p("L05","Diagnostics mirror the compiler's verdict on the open document",
 "After a document is opened or changed the server publishes diagnostics for it: none exactly when its text parses and validates, otherwise one located at the offending place, which of two that clash is the later one. Symbols, tokens and hovers are offered exactly for valid documents.",
 ["inputs","histories"],"all documents, valid and invalid, and all edits between them",
 "There is no test of the language server.",
 ["crates/mabo-lsp/src/handlers/compile.rs","crates/mabo-lsp/src/handlers/mod.rs","crates/mabo-lsp/src/handlers/document_symbols.rs","crates/mabo-lsp/src/handlers/hover.rs"],[("compile on change","handlers/compile.rs")],["publishDiagnostics over stdio"])

p("L06","Hovers say what is true of the item they are over",
 "In a valid document, a hover over the name of a definition, variant or named field says its comment, followed, exactly as far as the client's settings ask for it, by the next free identifier of a struct or variant that has fields and of an enum, and by the sizes the type of a field can have; it says nothing else.",
 ["inputs","configurations"],"all valid documents, positions on names and settings",
 "There is no test of the language server.",
 ["crates/mabo-lsp/src/handlers/hover.rs","crates/mabo-lsp/src/config.rs","crates/mabo-meta/src/lib.rs"],[("hover texts","crates/mabo-lsp/src/handlers/hover.rs")],["hover responses over stdio"])

p("L07","The outline and the highlighting say what every element is",
 "In a valid document the outline has exactly one symbol for each module, definition, variant, field and import, in the order of the text and nested as in it, with its name (the path of an import, the index of an unnamed field) and a kind of its own for each sort; the tokens classify every keyword, name, type and identifier by what it is, and exactly the names being declared are marked as declarations, those of constants also as static and constant, and comments as documentation.",
 ["inputs"],"all valid documents",
 "There is no test of the language server.",
 ["crates/mabo-lsp/src/handlers/document_symbols.rs","crates/mabo-lsp/src/handlers/semantic_tokens.rs"],[("outline and tokens","crates/mabo-lsp/src/handlers/semantic_tokens.rs")],["documentSymbol and semanticTokens responses over stdio"])

p("L08","Files of the workspace are known as they were found until they are opened",
 "When the client's workspace folders contain projects, requests for the document of one of their schema files that was neither opened nor deleted are answered as for an opened document with the content the file had when the server started, and files outside of the projects are unknown. Once a document is opened only its own history counts, whatever is on disk.",
 ["configurations","histories","inputs"],"all workspaces, file names and contents, and all histories of document notifications and requests",
 "There is no test of the language server.",
 LS+["crates/mabo-project/src/lib.rs"],[("workspace discovery","crates/mabo-lsp/src/handlers/mod.rs initialize")],["documentSymbol, semanticTokens and hover responses over stdio or a socket"],state=[("files","text and parse result per document","crates/mabo-lsp/src/state.rs")])

p("K01","A project consists of exactly the schema files its patterns match",
 "The files of a project are exactly those below its directory that have the schema extension, match at least one of its patterns relative to that directory and are not excluded by ignore rules; a single star does not cross directories. Discovery finds every project below a directory, and a missing or malformed project file is an error.",
 ["configurations","inputs"],"all directory trees, patterns and ignore files",
 "There is no test of project loading.",
 ["crates/mabo-project/src/lib.rs","crates/mabo-project/src/de.rs"],[("collect_files, discover","crates/mabo-project/src/lib.rs")],["load/discover results"])
p("K02","The format command rewrites exactly the files that need it",
 "Formatting leaves every selected file that parses with its canonical text, leaves files that cannot be read or do not parse and files that were not selected byte-for-byte unchanged, does not touch files already canonical, and creates no other files; running it again changes nothing.",
 ["histories","inputs","configurations"],"all file trees and all sequences of edits and format runs",
 "There is no test of the command line tool's effects.",
 ["crates/mabo-cli/src/main.rs"],[("format","crates/mabo-cli/src/main.rs")],["file contents and modification times after the command"])
p("K03","The check command fails exactly when a selected schema is invalid",
 "The check command exits successfully exactly when every selected schema file can be read, parses, passes validation and all references between the selected schemas resolve; otherwise it exits with a failure. It modifies no files.",
 ["inputs","configurations","histories"],"all sets of schema files and file selections",
 "There is no test of the command line tool's exit status.",
 ["crates/mabo-cli/src/main.rs"],[("check","crates/mabo-cli/src/main.rs")],["exit status"])
p("K04","A build writes one Rust file per schema, or fails without guessing",
 "Building a project produces for each of its schemas one Rust source file named after it and containing that schema's definitions; if any schema cannot be read, parsed, validated or resolved, or two schemas share a name, the build reports an error and writes no schema's output.",
 ["programs","configurations","fault_sequences"],"all projects, with any subset of files invalid at any stage",
 "Tests call the generator on single files; the project build is only run once by the playground.",
 ["crates/mabo-build/src/lib.rs"],[("Compiler::compile","crates/mabo-build/src/lib.rs")],["result and files in the output directory"])
p("K05","The Go command writes one package per module, or fails and writes nothing",
 "For a project whose schemas can all be read, parsed, validated and resolved, the Go command writes the package of each schema into a directory named after the project, each module's package in a directory inside of that of the module around it and each into one file named after its directory, and changes no other file. If any schema cannot, it fails and writes no package. No package replaces that of another schema.",
 ["programs","configurations","fault_sequences"],"all projects, with any subset of files invalid at any stage",
 "No test runs the command.",
 ["crates/mabo-go/src/main.rs"],[("main","crates/mabo-go/src/main.rs"),("write_output","crates/mabo-go/src/main.rs")],["exit status and files in the output directory"])
p("M01","Reported wire size bounds contain every actual encoded size",
 "The minimum and maximum encoded size shown for a type bound the encoded size of every value of that type as a field value, for types whose size can be computed.",
 ["inputs","programs"],"all types and values",
 "The size tests are absent; bounds quantify over all values.",
 ["crates/mabo-meta/src/lib.rs"],[("wire_size","crates/mabo-meta/src/lib.rs")],["wire_size output vs encoded bytes"])
p("M02","The suggested next identifier is free and larger than all existing ones",
 "The next identifier suggested for a struct, variant or enum is one more than the largest in use there (1 if there are none); unit structs and variants have none.",
 ["inputs","programs"],"all structs and enums",
 "There are no tests of the suggestion.",
 ["crates/mabo-meta/src/lib.rs","crates/mabo-lsp/src/handlers/hover.rs"],[("next_field_id, next_variant_id","crates/mabo-meta/src/lib.rs")],["next_*_id results"])
p("G01","Go output mirrors the schema's modules, types, fields and identifiers",
 "The Go generator yields one package per module nested like the modules, and in each one type per definition with all its fields in order with the corresponding Go types; the encoder, decoder and size code of each type handle exactly its fields with their assigned identifiers.",
 ["programs"],"all accepted schemas within the generator's supported types",
 "Three render snapshots.",
 ["crates/mabo-go/src/lib.rs","crates/mabo-go/src/definition.rs","crates/mabo-go/src/encode.rs","crates/mabo-go/src/decode.rs","crates/mabo-go/src/size.rs"],[("render_schema","crates/mabo-go/src/definition.rs")],["render_schema output tree"])
p("D01","Generated documentation has one correct page per definition and module",
 "Documentation output contains exactly one page per module, struct, enum, alias and constant, placed in its module's directory under a distinct name; each page shows the definition's name, every member with its identifier, and its comment.",
 ["programs"],"all parseable schemas",
 "Existing render tests cover few schemas.",
 ["crates/mabo-doc/src/lib.rs","crates/mabo-doc/src/templates.rs"],[("render_schema","crates/mabo-doc/src/lib.rs")],["render_schema output tree"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
