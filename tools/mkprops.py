#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Source text is split into exactly the lexical items X.680 prescribes",
 "For any source text, the items the lexer delivers are, in order, the ASN.1 items written there: value identifiers and type references carried verbatim, the reserved words recognised exactly when a whole upper-case-initial word equals one, numbers with their value, the multi-character symbols ::= .. ... [[ ]] by longest match, and the single-character symbols. "
 "Whitespace only separates items, and an 'e' or 'E' glued to a number is an exponent mark. A character that can stand in no item (letters outside ASCII apart, which words may hold), or a word that ends with a hyphen or contains two in a row, is reported as an error and never silently skipped.",
 ["inputs"], "every byte string as source text (bounded length and alphabet per harness)",
 "lexer_test.go checks one spelling per token; adjacency, longest match, look-alike words (SEQUENCES, Set, END-1) and invalid bytes are quantified over all strings.",
 ["lexer.go"], [("Lex dispatch", "lexer.go:(*MyLexer).Lex"), ("words", "lexer.go:consumeWord"), ("numbers", "lexer.go:consumeNumber"), ("symbols", "lexer.go:consumeSingleSymbol"), ("reserved words", "lexer.go:RESERVED_WORDS")],
 ["MyLexer.Lex", "ParseString"])
prop("C02", "Comments and layout never change what a module means",
 "A comment is equivalent to white space wherever items may be separated: a line comment runs from -- to the next -- or the end of the line, a block comment from /* to its matching */ with nesting, and nothing inside a comment is ever read as module text nor anything outside it swallowed. "
 "Parsing a module with any comments or white space inserted between its items yields the same module as without them.",
 ["inputs"], "every comment body (bounded length), every placement between items",
 "TestComments tries five texts; odd dash runs, /*/, **/, nested comments and comments ending at end of input are never sampled.",
 ["lexer.go"], [("line comments", "lexer.go:skipLineComment"), ("block comments", "lexer.go:skipBlockComment"), ("dispatch", "lexer.go:(*MyLexer).Lex")],
 ["ParseString", "MyLexer.Lex"])
prop("C03", "Parsing any input ends with exactly one of a module or an error",
 "For every byte string, parsing terminates without panicking and returns either a module and no error, or no module and an error. "
 "A text is accepted only if it is one complete module: a truncated module, or one followed by further items or by an illegal character, is rejected.",
 ["inputs"], "every byte string (bounded), every truncation point and every trailing text of a valid module",
 "The tests feed well-formed modules only; panics, hangs and accepted garbage live in the inputs they do not contain.",
 ["lexer.go", "parser.go", "asn1.y", "y.go"], [("entry points", "parser.go:ParseString, ParseStream"), ("error capture", "lexer.go:(*MyLexer).Error"), ("rune push-back", "lexer.go:unreadRune"), ("look-ahead", "lexer.go:peekRunes")],
 ["ParseString", "ParseStream"])
prop("C04", "Reading is independent of chunking, and read failures are always reported",
 "Parsing from a stream gives the same result however the stream splits its data into reads. "
 "If the stream fails with an error other than end of input, parsing terminates and returns an error; it neither hangs nor returns a module built from the partial text.",
 ["inputs", "fault_sequences"], "every split of the text into reads and every position at which a read fails",
 "All tests read from in-memory strings that arrive whole and never fail.",
 ["lexer.go", "parser.go"], [("stream entry", "parser.go:ParseStream"), ("error handling on reads", "lexer.go:Lex, consumeWord, consumeNumber, skipLineComment, skipBlockComment, peekRunes")],
 ["ParseStream"])
prop("C05", "Integer literals are carried exactly, with their sign, or rejected",
 "Every integer literal appears in the parsed module with exactly the written value and sign, in every position that admits one: assigned values, named numbers, enumeration items, named bits, tag numbers, range and size bounds, single values, defaults and object-identifier arcs. "
 "A literal too large to represent is an error; it is never wrapped, truncated or rounded.",
 ["inputs"], "every digit string (bounded length, beyond 64 bits) in every literal position",
 "Tests use about ten small literals; sign, leading digits, and the 2^63 boundary are not sampled per position.",
 ["lexer.go", "asn1.y", "y.go", "ast.go"], [("digits", "lexer.go:consumeNumber"), ("signs", "asn1.y:SignedNumber, SignedExponent; ast.go:UnaryMinus"), ("positions", "asn1.y:NamedNumber, NamedBit, ClassNumber, LowerEndValue, NumberForm, DefinitiveNumberForm")],
 ["ParseString"])
prop("C06", "REAL literals denote the decimal number that is written",
 "A REAL value written as digits, optional fraction digits and optional signed exponent denotes that decimal number to floating-point accuracy, including fractions with leading or trailing zeros, and negation and exponents of either sign. "
 "PLUS-INFINITY and MINUS-INFINITY denote the infinities of that sign.",
 ["inputs"], "every sign, integer part, fraction digit string and exponent (bounded digits)",
 "TestRealBuilder samples five numbers whose fractions neither start nor end in zero.",
 ["parser.go", "asn1.y", "y.go", "lexer.go", "ast.go"], [("value computation", "parser.go:parseRealNumber"), ("grammar", "asn1.y:realnumber, SignedExponent, NumericRealValue, SpecialRealValue")],
 ["ParseString"])
prop("C07", "Type notation is mirrored faithfully in the parsed module",
 "For every type built from the supported notation, the parsed module contains the same structure: the same kind of type, with the same components, alternatives, extension additions, enumeration items, named numbers and bits, element type and referenced name, in written order and none lost, added or merged. "
 "Each component keeps its own identifier, optionality and type; all assignments appear in written order under their own names.",
 ["inputs", "programs"], "every type expression up to a nesting depth and component count, with symbolic names and numbers",
 "parser_test.go pins a few dozen shapes; combinations of constructors, counts and nesting are unbounded.",
 ["asn1.y", "y.go", "ast.go"], [("grammar actions", "asn1.y:Type .. ComponentType, ChoiceType, EnumeratedType, BitStringType, SetType, SequenceOfType, AnyType"), ("tables", "y.go:yyParse")],
 ["ParseString"])
prop("C08", "A parsed value is unaffected by the text that follows it",
 "Every value held by the parsed module - a component's default, an object-identifier component, a referenced value, a range bound - is the one written at that place, whatever items come before or after it in the module. "
 "Repeating a construct any number of times gives each occurrence its own value.",
 ["inputs", "programs"], "every ordered combination (bounded) of neighbouring components, defaults and OID elements with symbolic values",
 "No test has two defaults or an OID with a leading reference in a context that reuses parser storage.",
 ["asn1.y", "y.go", "ast.go"], [("default capture", "asn1.y:ComponentType DEFAULT"), ("OID reference capture", "asn1.y:ObjectIdentifierValue, ObjIdComponents, NumberForm"), ("list building", "asn1.y:ComponentTypeList, ObjIdComponentsList")],
 ["ParseString"])
prop("C09", "Module header, exports and imports are recorded as written",
 "The parsed module carries the module's name, each component of its definitive identifier (name, number or both, in order), the declared tagging default (EXPLICIT when none is written), whether extensibility is implied, and every import: its symbols in order with their kind, the module they come from and that module's assigned identifier. "
 "EXPORTS clauses are accepted and change nothing else.",
 ["inputs", "programs"], "every header with bounded lists and symbolic names and numbers",
 "Tests pin one header with identifiers and one import list.",
 ["asn1.y", "y.go", "ast.go"], [("header actions", "asn1.y:ModuleDefinition .. ExtensionDefault"), ("imports", "asn1.y:Imports .. Symbol")],
 ["ParseString"])
prop("C10", "Constraints keep their structure, precedence and bounds",
 "A subtype constraint is parsed into the unions, intersections and exclusions its notation denotes - intersection binding tighter than union, exclusion tighter than both, parentheses and the words UNION/INTERSECTION/EXCEPT/ALL honoured - with elements in order. "
 "Ranges keep their lower and upper end in place, MIN/MAX as unspecified ends, and '<' marking exactly the end it is written on as open; size and type constraints and elements after an extension marker are kept in place, on the type they were written on.",
 ["inputs", "programs"], "every constraint expression up to a size, with symbolic bounds",
 "TestRangeTypeConstraint has one expression; precedence and open ends are quantified over all expressions.",
 ["asn1.y", "y.go", "ast.go"], [("constraint grammar", "asn1.y:Constraint .. SizeConstraint"), ("constrained types", "asn1.y:ConstrainedType, TypeWithConstraint"), ("helper", "ast.go:SingleElementConstraint")],
 ["ParseString"])
prop("C11", "A rejected module names the line of the offending item",
 "When a module is rejected, the error names the 1-based line on which the offending character or item stands, counting every line break before it - also those in blank lines, in line comments and in block comments.",
 ["inputs"], "every arrangement (bounded) of line breaks, comments and items before the offending item",
 "Existing tests only see errors on line 1.",
 ["lexer.go"], [("counting", "lexer.go:readRune, unreadRune"), ("reporting", "lexer.go:(*MyLexer).Error")],
 ["ParseString"])
prop("C12", "Tags are recorded with their class, number and tagging mode",
 "Every tag prefix is recorded on exactly the type it precedes, with the written class (context-specific when none), the written number or value reference, and its tagging mode: IMPLICIT or EXPLICIT when written there, otherwise marked as not written so that the module default applies. Nested prefixes nest in written order.",
 ["inputs", "programs"], "every class, number, mode and tagged type (bounded nesting)",
 "Tests cover context-specific tags with three numbers.",
 ["asn1.y", "y.go", "ast.go"], [("grammar", "asn1.y:TaggedType, Tag, Class, ClassNumber")],
 ["ParseString"])
prop("C13", "Generated code is a self-contained, well-formed Go file",
 "When generation succeeds, the output is a syntactically valid Go file whose package clause is the configured package name or else derived from the module name; every type and value it mentions is declared in it, predeclared or taken from an imported package, it imports exactly the packages it uses, each once, and declares each name once (as long as no two names of the module have the same Go form). "
 "Each type assignment yields the declaration of its name and each representable value assignment its variable, in module order.",
 ["inputs", "programs", "configurations"], "every module up to a size over the supported constructs, each integer representation, with and without a package name",
 "Tests compile one RFC module and compare six outputs; missing or unused imports and undeclared names depend on which constructs a module combines.",
 ["codegen.go"], [("file assembly", "codegen.go:Generate"), ("imports", "codegen.go:requireModule"), ("type bodies", "codegen.go:generateTypeBody"), ("type declarations", "codegen.go:generateTypeDecl")],
 ["CodeGenerator.Generate"])
prop("C14", "Every ASN.1 type maps to the Go type encoding/asn1 needs for it",
 "BOOLEAN, INTEGER, REAL, ENUMERATED, BIT STRING, OCTET STRING, OBJECT IDENTIFIER, every character string, ANY, SEQUENCE, SET, SEQUENCE OF, SET OF, GeneralizedTime and UTCTime each generate the documented Go type at any nesting depth and through tags and constraints, which leave the Go type unchanged. "
 "SEQUENCE and SET become structs with one field per component and extension addition, in order, of the mapped type; a reference generates the referenced name, or time.Time / asn1.BitString when it denotes a time or bit string through any chain of references.",
 ["programs", "inputs"], "every type expression up to a depth, in every position (assignment, component, element)",
 "Tests pin about twenty mappings, mostly at top level.",
 ["codegen.go"], [("mapping", "codegen.go:generateTypeBody, generateSpecialCase, structFromComponents"), ("unwrapping", "codegen.go:removeWrapperTypes")],
 ["CodeGenerator.Generate"])
prop("C15", "Field tags tell encoding/asn1 exactly the component's tagging and options",
 "A generated struct field carries a tag number exactly when its component is tagged, equal to the written number, with the application or private class exactly when written, and the explicit flag exactly when the tag is EXPLICIT by its own mode or, lacking one, by the module default. "
 "It is marked optional exactly when the component is OPTIONAL or has a default, carries an integer default's value exactly, and is marked set, ia5, utf8, numeric, generalized or utc exactly when its type is such a type, also through tags and constraints (and, for times, references).",
 ["programs", "configurations", "inputs"], "every combination of module default, tag class, number, mode, optionality, default value and component type (bounded nesting)",
 "TestTagType covers context tags on BOOLEAN; the product of class, mode, default, optionality and type is not sampled.",
 ["codegen.go"], [("field tags", "codegen.go:asn1TagFromType"), ("tagging default", "codegen.go:moduleContext.tagDefault")],
 ["CodeGenerator.Generate"])
prop("C16", "SET and SET OF types, and only those, are generated as sets",
 "A type assignment generates a type that encoding/asn1 treats as a set (a named type whose name ends in SET, aliased by the assigned name) exactly when the assigned type, under any tags and constraints, is itself a SET or SET OF; a component is marked set exactly when its own type is one. "
 "Sets that merely occur inside another type never turn the enclosing type into a set; a CHOICE of a sole alternative counts as that alternative.",
 ["programs"], "every nesting (bounded) of SET, SET OF, SEQUENCE OF, tags and constraints",
 "One test has a plain top-level SET.",
 ["codegen.go"], [("set flag", "codegen.go:generateTypeDecl, generateTypeBody isSet"), ("field marker", "codegen.go:asn1TagFromType")],
 ["CodeGenerator.Generate"])
prop("C17", "CHOICE maps to a raw value exactly when an alternative is tagged",
 "A CHOICE generates asn1.RawValue if any of its alternatives, extension alternatives included, is tagged - directly, under a constraint, or through any chain of references to types of the module - and otherwise the Go type of its sole alternative, or an empty interface when there are several. Time types count as untagged.",
 ["programs"], "every CHOICE (bounded) of tagged, referenced, constrained and plain alternatives in any order",
 "No unit test generates a CHOICE; RFC 5280 exercises a few alternatives.",
 ["codegen.go"], [("choice", "codegen.go:generateChoiceType, hasTaggedAlternatives, taggedChoiceTypeAlternative")],
 ["CodeGenerator.Generate"])
prop("C18", "References resolve through any chain; undefined or circular ones are errors",
 "Whatever the order of assignments, a type reference used in a module is resolved through every chain of references, tags and constraints to the type that is finally assigned. "
 "Referring, in a type that is generated, to a type the module does not define makes generation fail with an error naming a reference, and circular references make it fail too: generation always terminates.",
 ["programs"], "every reference graph over a bounded number of assignments (symbolic edges)",
 "Tests use two-step chains to times and bit strings; dangling and cyclic graphs are never generated.",
 ["codegen.go", "ast.go"], [("resolution", "codegen.go:resolveTypeReference, unwrapToLeafType"), ("lookup", "ast.go:AssignmentList.GetType")],
 ["CodeGenerator.Generate"])
prop("C19", "ASN.1 names become distinct exported Go names",
 "Every ASN.1 reference and identifier becomes a Go identifier that is valid and exported: hyphens become underscores, the first letter is upper-cased and every other character is kept; fields, types and the package use it as is, value variables prefix it with Val, and named numbers prefix it with their type's name and Val. "
 "Two different names of the same kind never become the same Go name unless they differ only in the case of the first letter.",
 ["inputs"], "every ASN.1 name up to a length (symbolic letters, digits and hyphens)",
 "Tests contain a dozen names; hyphen and digit placement is quantified over all names.",
 ["codegen.go"], [("conversion", "codegen.go:goifyName"), ("values", "codegen.go:valueRefToIdent, generateAssociatedValuesIfNeeded")],
 ["CodeGenerator.Generate"])
prop("C20", "Value assignments and named numbers generate the written values",
 "An assigned INTEGER, BOOLEAN or REAL value generates one variable of the mapped type initialised to exactly that value, for either integer representation; each named number of an INTEGER type generates a variable of that type with its value, or with the referenced value's variable, in order. "
 "Values of other kinds generate nothing, and a reference into another module is an error.",
 ["inputs", "programs", "configurations"], "every integer, boolean and REAL value (bounded), every list of named numbers, both representations",
 "Three values and three named numbers are tested, in the int64 representation only.",
 ["codegen.go", "ast.go"], [("values", "codegen.go:tryGenerateValueAssignment, numberToExpr"), ("named numbers", "codegen.go:generateAssociatedValuesIfNeeded")],
 ["CodeGenerator.Generate"])
prop("C21", "The integer representation option governs every INTEGER, and nothing else",
 "With the int64 representation, also the default when none is set, every INTEGER becomes int64 and math/big is not imported; with big.Int every INTEGER becomes *big.Int, its values are built with big.NewInt, and math/big is imported exactly when the output mentions it. "
 "An unknown representation makes generation of a module with an INTEGER fail; no other type changes with the option.",
 ["configurations", "programs"], "every option string (bounded) and every module shape up to a size",
 "Unit tests run the default representation only.",
 ["codegen.go"], [("option", "codegen.go:NewCodeGenerator, GenParams"), ("types", "codegen.go:generateTypeBody IntegerType"), ("values", "codegen.go:numberToExpr")],
 ["NewCodeGenerator", "CodeGenerator.Generate"])
prop("C22", "Generation is a repeatable function of the module and the options",
 "Generating twice from the same module and options, with the same or another generator, gives byte-identical output, and generation leaves the module unchanged. "
 "If generation reports an error, nothing has been written; if the destination fails to accept the output, generation reports that error.",
 ["programs", "histories", "fault_sequences"], "every module up to a size, every iteration order of Go maps, every failing write",
 "Tests generate each module once into a buffer that never fails.",
 ["codegen.go"], [("generation", "codegen.go:Generate"), ("context", "codegen.go:moduleContext")],
 ["CodeGenerator.Generate"])
prop("C23", "Constructs the generator cannot express are errors, never silently dropped",
 "A module with AUTOMATIC tagging, or with a NULL type or COMPONENTS OF anywhere in a type that is generated, makes generation fail with an error, wherever it is nested and whatever surrounds it. "
 "A module made only of supported constructs with defined references never fails.",
 ["programs", "configurations"], "every module up to a size with an unsupported construct at every position",
 "No test checks a generation failure.",
 ["codegen.go"], [("errors", "codegen.go:appendError, Generate"), ("unsupported", "codegen.go:generateTypeBody default, structFromComponents")],
 ["CodeGenerator.Generate"])
prop("C24", "Saving a value writes exactly its encoding, or reports the failure",
 "Saving a value to a file leaves in that file exactly the bytes of the value's DER encoding, replacing previous content, and returns no error. "
 "If the value cannot be encoded the file is not touched and the error is returned; if the file cannot be written the error is returned.",
 ["inputs", "fault_sequences"], "every encoding result (bounded bytes or error), every prior file content and every failure of the file operations",
 "MarshalToFile has no test.",
 ["marshal.go"], [("save", "marshal.go:MarshalToFile")],
 ["MarshalToFile"])
prop("C25", "Hex dumps convert back to exactly the bytes they show",
 "For every byte sequence, converting its Wireshark-style dump - lines of an offset followed by two-digit hex bytes, however many per line, with blank lines and extra spaces - yields exactly that byte sequence in order. The offset column contributes no bytes. The time helper reads every 'YYYY-MM-DD hh:mm:ss' as that UTC instant.",
 ["inputs"], "every byte sequence (bounded), every line split, either digit case; every date and time field",
 "One dump is tested, on its first four bytes.",
 ["internal/utils/dump.go", "cmd/ws2bin/main.go"], [("hex", "internal/utils/dump.go:ParseWiresharkHex"), ("time", "internal/utils/dump.go:ParseWiresharkTime"), ("tool", "cmd/ws2bin/main.go:main")],
 ["ParseWiresharkHex", "ws2bin"])
prop("C26", "The command writes the generated file and succeeds, or fails and says why",
 "asn1go reads the module from its first argument or standard input and writes exactly the generated file to its second argument or standard output, replacing any longer previous content, and exits 0. "
 "If the arguments are wrong, the input cannot be read, the module is rejected, generation fails or the output cannot be opened, it exits non-zero and prints the reason verbatim to standard error. The package and integer-representation flags reach the generator unchanged.",
 ["inputs", "configurations", "fault_sequences"], "every argument list shape, flag value, input text class, prior output content and file failure (bounded)",
 "The command has no tests; go generate runs it on two valid files.",
 ["cmd/asn1go/main.go"], [("main", "cmd/asn1go/main.go:main"), ("flags", "cmd/asn1go/main.go:parseFlags"), ("files", "cmd/asn1go/main.go:openChannels")],
 ["asn1go command"])
prop("C27", "Assignment lookup returns the first match of the right kind",
 "Looking an assignment up by name returns the first one with exactly that name and nothing when there is none; looking up a type or a value returns it only if that assignment is of the requested kind. The result equals the stored assignment, and lookups leave the list unchanged.",
 ["inputs"], "every list up to a length with symbolic names and kinds, every queried name",
 "No test queries an absent name, a wrong kind or a duplicate.",
 ["ast.go"], [("lookup", "ast.go:AssignmentList.Get, GetValue, GetType")],
 ["AssignmentList"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
