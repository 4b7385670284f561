#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","Numeric constraints accept exactly the numbers their rules allow",
 "A number constraint accepts a value iff it is a Go floating-point value (or a non-nil pointer to one; NaN and infinities aside) that lies within the declared minimum and maximum (the bound itself is allowed unless declared exclusive), is divisible by the declared non-zero multipleOf (math.Mod == 0) and, if an enumeration is declared, numerically equals one of its members. An integer constraint accepts any Go signed or unsigned integer or integral float under the same rules (Go integers are compared after conversion to float64). Every other kind of value is rejected, and neither the order in which the rules are declared nor which other rules are present changes the meaning of a rule.",
 ["inputs","configurations"],"every combination and declaration order of minimum/maximum/exclusive*/multipleOf/enum, and every Go value of every numeric and non-numeric kind",
 "TestNumber samples three float64 values against one bound; integer kinds, exclusivity, multipleOf, enum, pointers and rule interaction are never exercised.",
 ["number.go","enum.go"],[("NumberConstraint.Validate / IntegerConstraint.Validate","number.go"),("EnumConstraint.Validate","enum.go")],
 observe=["verdict of Number()/Integer() constraints at Validate"])

p("C02","String constraints accept exactly the strings their rules allow",
 "A string constraint accepts a value iff it is a Go string (of any string type, or a non-nil pointer to one) whose length in Unicode characters lies between the declared minLength and maxLength inclusive, which the declared regular expression matches, and which is a member of the declared enumeration. A rule that was not declared imposes nothing, rules hold jointly in whatever order they were declared, and values of any other kind are rejected.",
 ["inputs","configurations"],"all valid UTF-8 strings (ASCII, multi-byte, empty, very long), all string-like and non-string Go values, all rule combinations",
 "TestString tries two short ASCII strings; multi-byte lengths, boundaries, named string types, pointers and the interplay of rules are unreached.",
 ["string.go","enum.go"],[("StringConstraint.Validate","string.go")],observe=["verdict of String() constraints at Validate"])

p("C03","String formats accept well-formed and reject malformed values",
 "With a format declared, a string constraint accepts the well-formed values of that format and rejects malformed ones: RFC 3339 timestamps for date-time (also spelled datetime), mail addresses for email, DNS host names (labels of 1-63 characters, at most 255 in total, no leading or trailing dash in a label, at least one letter) for hostname, dotted quads for ipv4, textual IPv6 addresses including hexadecimal and compressed forms for ipv6, and parseable URI references for uri. A format name that is not one of these never rejects a string.",
 ["inputs"],"all strings, and all format names, declared by hand or through a JSON schema",
 "No existing test validates any format; the set of strings is infinite and format errors sit at rare boundaries (63-byte labels, hex groups, offsets).",
 ["string.go","builder/string.go"],[("format switch in StringConstraint.Validate","string.go"),("isDomainName","string.go")],observe=["verdict of String().Format(f) at Validate","verdict of validators built from {type:string, format:f}"])

p("C04","Array constraints check length, uniqueness and every element",
 "An array constraint accepts a value iff it is a Go slice whose length lies within the declared minItems and maxItems, whose elements are pairwise different JSON values if uniqueItems is declared, and whose elements satisfy the element rules: with an items constraint every element must satisfy it; otherwise the i-th element must satisfy the i-th positional constraint and, when positional constraints exist, every element after them must satisfy the additional-items constraint (none may exist if that is nil). An element beyond or before a rule's reach is never judged by that rule, and scalars, strings, maps and nil are rejected.",
 ["inputs","configurations"],"slices of any length and element type (interface, scalar, nested slice/map, struct), all rule combinations",
 "The only array test inspects generated source text; no array is ever validated for length, uniqueness, positional or additional items.",
 ["array.go"],[("ArrayConstraint.Validate","array.go")],observe=["verdict of Array() constraints","(element, constraint) pairs delivered to probe constraints"])

p("C05","Every object property is judged by exactly the rules that govern it",
 "An object constraint accepts a string-keyed map iff the number of its properties lies within minProperties and maxProperties, every required property is present (whether or not a constraint is declared for it), every declared property that is present satisfies its constraint, every undeclared property satisfies the constraint of each pattern its name matches, and every property neither declared nor matched satisfies the additional-properties constraint (none may exist when that is nil, the default). Declared properties take precedence over patterns; which keys exist besides and the order of declarations or keys never matter; values that are not objects are rejected.",
 ["inputs","configurations"],"all maps (empty to large, overlapping patterns, nil values, any key characters) and all combinations of declared, pattern, additional, required and count rules",
 "TestObject covers nine inputs of one schema; overlapping patterns, undeclared required names, counts and additional-property constraints are unreached, and Go map iteration order is random per run.",
 ["object.go"],[("ObjectConstraint.Validate","object.go"),("required / properties / patternProperties bookkeeping (premain, pseen)","object.go")],
 state=[("required","names that must be present","object.go ObjectConstraint"),("properties/patternProperties/additionalProperties","which constraint governs which property","object.go ObjectConstraint")],
 observe=["verdict of Object() constraints","(property, value) pairs delivered to probe constraints"])

p("C06","Property and schema dependencies are enforced whenever they are triggered",
 "If a property that has a property dependency is present, the object is accepted only if every property it depends on is present; if a property that has a schema dependency is present, the object is accepted only if the whole object also satisfies that dependency. This holds no matter whether the properties involved are declared, matched by a pattern or merely additional, and a dependency whose trigger is absent imposes nothing. (What a property given both kinds of dependency demands beyond its property dependency is left open.)",
 ["inputs","configurations"],"all objects and all dependency graphs (chains, cycles, self-dependencies, several targets) over declared, pattern-matched and additional properties, each trigger carrying one kind of dependency",
 "Two tests cover one fixed schema each, with declared properties only.",
 ["object.go","builder/object.go"],[("GetPropDependencies / GetSchemaDependency loop over seen properties","object.go Validate")],observe=["verdict of Object() constraints with PropDependency / SchemaDependency"])

p("C07","All, Any, OneOf, Not, Enum, Null and Empty compute exact boolean logic",
 "All accepts iff every child accepts (vacuously for none), Any iff at least one child accepts, OneOf iff exactly one child accepts, Not iff its child rejects, the empty constraint always, the null constraint iff the value is nil, boolean constraints iff the value is a bool, and an enumeration iff the value equals a member. Nesting composes these meanings, the order of children never changes a verdict (children that fill in defaults aside), and reducing a combinator never changes it either.",
 ["inputs","configurations"],"all trees of combinators over arbitrary children (including user-defined constraints) and all values, including uncomparable ones",
 "No test exercises All, Any, OneOf, Not, Enum, Null or Reduce at all.",
 ["combinations.go","basic.go","enum.go","bool.go"],[("AnyConstraint/AllConstraint/OneOfConstraint.Validate, reduceCombined","combinations.go"),("NotConstraint, nullConstraint, emptyConstraint","basic.go"),("EnumConstraint.Validate","enum.go")],observe=["verdict of combinator trees against children with known verdicts"])

p("C08","A reference behaves exactly like the constraint registered under its name",
 "Validating against a reference gives the verdict, and reports the default, of the constraint registered in its resolver under the name that it was last told to refer to, at any depth, including recursive and mutually recursive definitions and validators that share one constraint map. A name that cannot be resolved makes validation fail, never pass, and does not spoil later attempts: once the name is registered, the reference works. (Whether a reference that was already resolved follows a later re-registration of its name is left open.) A constraint map returns for each name the constraint last registered under it, reports unknown names as errors and counts the distinct names.",
 ["inputs","histories"],"all reference graphs (chains, recursion through objects and arrays), all values, and all histories of registering, looking up and validating",
 "TestGenerated validates one failing value; recursion, chains, late registration, shared maps and Len are not exercised.",
 ["reference.go","jsval.go"],[("ReferenceConstraint.Resolved / Validate / HasDefault / DefaultValue","reference.go"),("ConstraintMap","reference.go")],
 state=[("ReferenceConstraint.resolved","cached target","reference.go")],observe=["verdicts through references vs directly","calls arriving at a recording RefResolver"])

p("C09","Defaults fill exactly the absent properties and nothing else is modified",
 "When an object constraint accepts an object, every property it declares that was absent and whose constraint (or the constraint it refers to) has a default now holds that default, in a string-keyed map as well as in an addressable struct's Maybe field (converted to the field's type) and in a struct that sets its own properties (SetPropValue); a value that cannot hold a default that is due is not accepted. Properties that were present keep their value even if it is a zero value, properties without default stay absent, nested objects (reached through maps, slices or pointers) are treated likewise, and a default never counts as an input property for the rules (required, counts, dependencies, patterns) of the constraint that declares it. Nothing else in the input ever changes, and an object constraint whose rules reject an object adds nothing to that object. Defaults stated in a JSON schema by properties of one scalar type behave the same.",
 ["inputs","configurations"],"all objects (maps and pointers to structs, nested), all sets of defaults (declared by hand, through references or in a schema), passing and failing validations",
 "One test checks one MaybeString default on one struct.",
 ["object.go","maybe.go","basic.go","reference.go"],[("setProp / coerceValue","object.go"),("default handling in ObjectConstraint.Validate","object.go")],observe=["deep snapshot of the input before and after Validate"])

p("C10","A struct validates exactly like the JSON object it represents",
 "Validating a struct (or a pointer to one) gives the verdict of validating the equivalent map: exported fields under their json tag name (or field name), fields tagged '-' and unexported fields invisible, untagged embedded structs (also through non-nil pointers) flattened, options such as omitempty ignored, and Maybe fields (the library's or user-defined ones) present iff valid, with their inner value. A struct that reports its own property names and values is judged by those, or by its fields if that fails. The verdict does not depend on whether the struct type was seen before, or on which other types were.",
 ["inputs","histories"],"all struct types (tags, embedding, Maybe fields, nested structs, slices and maps of structs), all field values, and all orders in which types are first seen",
 "Three tests use one two-field struct; tag forms, embedding, nested structs, uninitialised Maybe fields under required/dependency/count rules are unreached.",
 ["structinfo.go","object.go","maybe.go"],[("StructInfoRegistry / extract / PropNames / FieldName","structinfo.go"),("getPropNames / getProp","object.go")],
 state=[("structInfoRegistry","cache of struct layouts by type","object.go")],observe=["verdict on a struct vs verdict on the equivalent map"])

p("C11","Maybe values track validity, value and JSON form faithfully",
 "For every Maybe type and every history of operations: Set with a value of an acceptable type makes it valid with exactly that value (numerically converted), Set or JSON-decoding of an unacceptable value returns an error and leaves validity and value untouched, Reset makes it invalid, and a fresh one is invalid. JSON-encoding a valid Maybe yields the JSON of its value, and decoding that JSON into any Maybe of the same type makes it valid with an equal value (times to the second).",
 ["inputs","histories"],"all six Maybe types, all sequences of Set/Reset/Marshal/Unmarshal with values of all Go types",
 "TestMaybeInt and TestMaybeTime make three calls; TestSanity only checks that the types compile.",
 ["maybe.go"],[("Set / Value / MarshalJSON / UnmarshalJSON of MaybeBool, MaybeFloat, MaybeInt, MaybeString, MaybeTime, MaybeUint; ValidFlag","maybe.go")],observe=["Valid(), Value(), errors and JSON after each operation"])

p("C12","A validator built from a typed JSON schema accepts exactly its instances",
 "For a JSON schema that states its types, the built validator accepts a decoded JSON document iff the document is an instance of the schema under draft-04 meaning: type (one or several), enum, numeric, string, format, array, object, dependencies, allOf, anyOf, oneOf and not keywords all apply, jointly, at every nesting depth. The one documented deviation is that patternProperties are not applied to properties listed under properties. Building does not depend on the order of keywords, and leaves the schema unchanged. A nil schema, and one that states, at whatever depth, a type that does not exist (as a schema made in Go can), are refused with an error and no validator.",
 ["inputs","programs"],"all typed schemas over the draft-04 validation keywords (formats limited to clear-cut values) and all JSON documents",
 "Five schemas are built in the tests, three of them against a handful of inputs; keyword interaction and nesting are unreached.",
 ["builder/builder.go","builder/array.go","builder/bool.go","builder/enum.go","builder/number.go","builder/object.go","builder/string.go"],
 [("buildFromSchema and the per-type build functions","builder/"),("constraint Validate methods","*.go")],observe=["verdict of Builder.Build(schema).Validate(document) vs an independent draft-04 evaluator"])

p("C13","JSON references in schemas resolve to the definitions they name",
 "A $ref in a schema, at any position and depth, means the schema it points to within the document (definitions, other subschemas, chains of references, the document itself), including recursive and mutually recursive ones, with BuildWithCtx given the raw document and, for locations under definitions and properties, with Build alone. The pointer may be percent-encoded; names that need ~ escapes, and references to other documents, are left to the reference library. Only what is reachable is built, and unreferenced definitions never matter. If a referenced location does not exist or is not a schema, or a chain of references leads back to itself, building returns an error instead of a validator, and never panics.",
 ["inputs","programs"],"all well-founded reference graphs in JSON schema documents, all documents as instances, and all dangling or ill-typed references",
 "One test builds one non-recursive reference and never validates against it; README says 'not very well tested'.",
 ["builder/builder.go","builder/reference.go","reference.go"],[("BuildWithCtx / compileReferences","builder/builder.go"),("buildReferenceConstraint","builder/reference.go")],
 state=[("buildctx.R","names of references used","builder/builder.go")],observe=["verdict of validators built from referencing schemas vs an independent evaluator that follows the references"])

p("C14","A schema without a type is validated as the kinds its keywords imply",
 "A schema that omits type accepts exactly the values that fit one of the kinds implied by its keywords and satisfy the keywords of that kind: object keywords (properties, patternProperties, additionalProperties false or a schema, required, min/maxProperties, dependencies) imply object, array keywords (items, additionalItems false or a schema, min/maxItems, uniqueItems) imply array, string keywords (min/maxLength, pattern, a known format) imply string, whole-valued multipleOf, minimum and maximum imply integer and fractional ones number (a mix is left open), and an enumeration implies the kinds of its members. Keywords of several kinds imply any of these kinds, and a schema with none of them accepts every value; combinators alone leave the kind open.",
 ["inputs","programs"],"all untyped schemas, at the root and nested, and all JSON documents",
 "TestGuessType compares nine guessed type lists and never validates a value.",
 ["builder/builder.go"],[("guessSchemaType and schemaLooksLike*","builder/builder.go")],observe=["verdict of validators built from untyped schemas"])

p("C15","Generated Go code compiles to a validator with the same verdicts",
 "For every validator built from a JSON schema or from the library's own constraints, code generation either returns an error or produces Go source that compiles and whose validators, used on any input, give the same verdict and fill in the same defaults as the validators they were generated from. Every rule survives (bounds with full precision, enumerations, patterns with any characters, dependencies, counts, nil and explicit additional rules, references, combinators), also when several validators with distinct names, none of them a name the generator makes up itself, are generated into one file. Generation fails only for validators that hold values or user-defined constraints that cannot be written as Go literals, or that register different constraints under one reference name.",
 ["programs","inputs"],"all validators (random schemas and hand-built constraint trees, single or several with shared references), all JSON inputs",
 "One test greps the generated text; the committed generated file is validated with one failing input. Generated code is never compared with its source.",
 ["generator.go"],[("Generator.Process and generate*Code","generator.go")],observe=["verdicts and default-filled inputs of compiled generated code vs the original validators"])

p("C16","Generation is reproducible, non-destructive and reports every failure",
 "Generating the same validators again, or validators rebuilt from the same schema text, yields byte-identical, gofmt-formatted source, in any process and whatever was generated before; unnamed validators are named after their position, validators appear in the order of their names however they were passed, references are numbered by sorted name, and the validators behave as before afterwards. If generation or writing the output fails at any point, an error is returned; a nil error means the writer accepted the whole source, and a generation error writes nothing.",
 ["configurations","fault_sequences","histories"],"all validator sets, repeated generations, and every position at which the output writer fails or writes short",
 "No test generates twice, compares output, or uses a failing writer.",
 ["generator.go","jsval.go"],[("sorting of names in Process and generateObjectCode","generator.go"),("final out.Write","generator.go")],observe=["bytes and error returned by Process, writes seen by a fault-injecting io.Writer"])

p("C17","Validating, building and generating never panic or hang",
 "Validating any Go value (typed and untyped nils, pointers, channels, functions, complex numbers, maps with any key type, structs with any fields or embedding, user-defined Maybe types, deeply nested or large data) with any constraint tree built from non-nil constraints through the public API, with or without defaults and with well-founded references, returns an error or nil. Building a validator from any JSON document that parses as a schema, and generating code from any such validator, likewise returns with a result or an error.",
 ["inputs","programs"],"arbitrary Go values x arbitrary constraint trees; arbitrary JSON documents as schemas (excluding references that are ill-founded, i.e. expand to themselves without consuming input)",
 "Tests only use well-typed maps and one struct; panics hide in rare reflect kinds.",
 ["object.go","structinfo.go","enum.go","array.go","number.go","string.go","basic.go","jsval.go","builder/builder.go","generator.go"],
 [("reflect kind switches in the Validate methods","*.go"),("setProp / coerceValue / extract","object.go, structinfo.go")],observe=["recovered panics, fatal errors and stuck calls around every API call"])

p("C18","A verdict depends only on the validator and the value",
 "Validating equal inputs with the same validator, or with a validator built the same way, always gives the same verdict: earlier validations (passing, failing, of other values, other types or other validators), repetition, the order in which properties or rules were declared and Go's map iteration order have no influence. Validating does not change the validator.",
 ["histories","inputs"],"all validators and all histories of validations before the observed one",
 "Each test validates each input once with a fresh validator; random map order means a single run cannot show order-dependence.",
 ["object.go","array.go","reference.go","structinfo.go","combinations.go"],[("iteration over maps in ObjectConstraint.Validate","object.go"),("reference and struct-layout caches","reference.go, structinfo.go")],observe=["verdict sequences over repeated, interleaved and rebuilt validations"])

p("C19","One validator can be used from many goroutines at once",
 "Any number of goroutines may validate values with the same or different validators at the same time, including the very first uses (first resolution of references, first sight of a struct type) and validators sharing a constraint map: there is no data race, no deadlock and no panic, and every call returns the verdict and fills the defaults it would have alone.",
 ["schedules","inputs"],"all interleavings of concurrent validations over shared validators, shared maps and fresh struct types",
 "All tests are single-goroutine; races show only in certain interleavings and under the race detector.",
 ["object.go","reference.go","structinfo.go","jsval.go"],[("proplock/reqlock/deplock in ObjectConstraint","object.go"),("ReferenceConstraint.lock, ConstraintMap.lock","reference.go"),("StructInfoRegistry.lock, StructInfo.lock","structinfo.go")],
 state=[("structInfoRegistry","shared type registry","object.go"),("ReferenceConstraint.resolved","lazily cached target","reference.go")],observe=["race detector reports","per-call verdict vs sequential verdict"])

p("C20","Object rules and references may be configured while others use them",
 "Properties, pattern properties, required names, property and schema dependencies of an object constraint, and names in a constraint map, may be added or read from several goroutines while others validate with them: there is no data race, no registration is lost once its call has returned, and a validation that starts after a registration has returned enforces it. Lookups in a constraint map are linearizable: each returns the registration that was current at some moment during the call.",
 ["schedules","histories"],"all interleavings of AddProp, PatternProperties, Required, PropDependency, SchemaDependency, SetReference with Validate, IsPropRequired, GetPropDependencies, GetSchemaDependency, GetReference and Len",
 "No test is concurrent although the types carry locks for this purpose.",
 ["object.go","reference.go"],[("proplock/reqlock/deplock","object.go"),("ConstraintMap.lock","reference.go")],observe=["race detector reports","recorded call/return histories checked against a sequential map","verdicts after registration"])

p("C21","The playground server answers every request with its own result",
 "For every POST to /generate.json the server answers with a JSON object whose success flag is true iff the body is a JSON schema from which code can be generated, and then, served as application/json, code is exactly the generator's output for that body; otherwise it carries a non-empty message and no code. The index page is served as HTML, unknown paths are 404, and concurrent, malformed, huge or truncated requests never crash the server, race, or influence another request's answer. The command jsval server gives these answers on the address it is told to listen to, until it is ended, and exits with a non-zero status if it cannot listen there.",
 ["inputs","schedules","fault_sequences"],"all request bodies, methods and paths, all interleavings of concurrent requests, and bodies that break off",
 "The server package has no tests at all.",
 ["server/server.go","cmd/jsval/jsval.go"],[("ServeHTTP / httpGenerateValidator / httpIndex / getTemplates","server/server.go")],
 state=[("Server.templates","lazily built template set, guarded by mutex","server/server.go")],observe=["HTTP responses of a real listener under the race detector"])

p("C22","The jsval command writes exactly the validators asked for, or fails",
 "Run on a schema file, the command exits 0 iff it wrote the complete generated code, to the named output file or to standard output: one validator per -p pointer in the order given (or one for the whole document), named by the -P prefix and position, each being what the library builds and generates for that part of the document with references resolved against the whole document. Unreadable or malformed schemas, pointers that lead nowhere or not to a schema, and outputs that cannot be written make it exit with a non-zero status and a message, never crash.",
 ["inputs","configurations","fault_sequences"],"all schema files, pointer lists, prefixes and output targets, including unwritable and full ones",
 "The command has no tests.",
 ["cmd/jsval/jsval.go","generator.go"],[("_cli","cmd/jsval/jsval.go")],observe=["exit status, stderr and output bytes of the built binary"])

p("C23","Regenerating the derived sources preserves their behaviour",
 "The Maybe types that the repository's own generator writes satisfy the same contract as the ones in the library (validity, value, error and JSON behaviour, see C11) and work in its place, with the generated sanity test; the validator that the test generator writes for a schema file compiles and gives the verdicts of the validator built from that schema. Running a generator again yields the same bytes.",
 ["programs","inputs"],"all operation histories on regenerated Maybe types; all schema files given to the test generator, all inputs",
 "The generators are never run by the tests.",
 ["internal/cmd/genmaybe/genmaybe.go","internal/cmd/gentest/gentest.go","maybe.go"],[("genMaybe / genMaybeTests","internal/cmd/genmaybe/genmaybe.go"),("_main","internal/cmd/gentest/gentest.go")],observe=["behaviour of the library compiled with the regenerated file in place (build overlay)","bytes written by the generators"])

p("C24","Debug builds behave like ordinary ones",
 "A program compiled with the debug tag, which makes the library trace what it does, behaves as without it: with tracing switched on or off, every validation gives the same verdict, fills in the same defaults, leaves the same state behind and never panics where the ordinary build does not, and building validators and generating code yield the same results.",
 ["configurations","inputs"],"all validators, schemas and inputs, in debug builds with tracing on and off",
 "The tests are run without the tag only; the traced code paths (deferred error reports, formatted values) are never executed.",
 ["array.go","object.go","string.go","number.go","enum.go","reference.go","jsval.go","builder/builder.go"],
 [("if pdebug.Enabled blocks","*.go, builder/*.go")],observe=["verdicts, states and panics of the monitors rebuilt with the debug tag"])

p("C25","A rejection names the validator and the property at fault",
 "If exactly one thing is wrong with a value, the error that rejects it says what: it contains the name of the validator (if it has one), then the names of the properties on the path from the root to the value at fault, in that order (through maps, structs, slices, references, All and schema dependencies, and whether the property is declared, matched by a pattern or additional), and then what the constraint that rejected that value says on its own, the text of a user-defined constraint's error included. A missing required property, the missing target of a property dependency and the name of a reference that cannot be resolved are named likewise. This holds for every call whatever was validated before or at the same time. (What happens inside Any, OneOf and Not may stay hidden, and an unexpected property need not be named.)",
 ["inputs","configurations","schedules"],"every nesting of objects and arrays, every position of the fault, every earlier or concurrent call",
 "No test looks at the text of an error; which of many properties is blamed depends on the input, on bookkeeping during the walk and on shared state.",
 ["jsval.go","object.go","reference.go","array.go"],[("error wrapping in JSVal.Validate","jsval.go"),("error wrapping in ObjectConstraint.Validate","object.go"),("ReferenceConstraint.Validate","reference.go")],
 observe=["the error returned by Validate"])

p("C26","What was configured is what the accessors report",
 "Whatever sequence of configuring calls was made, the accessors report exactly that and no more, for every object on its own: IsPropRequired is true of the names given to Required in any call; GetPropDependencies gives the names of all PropDependency calls for that name and GetSchemaDependency the constraint given last to SchemaDependency for it; Constraints gives what was added to an Any, All or OneOf, in that order and repetitions included, and Reduce the only child if there is exactly one and otherwise the combinator itself; HasDefault and DefaultValue say whether and with what Default was called last on a string, number, integer or boolean constraint, and say the same through a reference to it, while the other constraints have none; Resolved and GetReference give the constraint registered for the name, or an error if there is none, and Len the number of names registered; Root, Name and the constraint map are those set last; sorting a JSValSlice orders it by name. Every configuring call that returns something returns its receiver. Validating, generating and reading change none of this, nor do calls on other objects.",
 ["inputs","histories"],"every sequence of configuring calls, reads, validations and generations on any number of objects",
 "Tests configure an object once and only validate with it; what accumulates over a history of calls on several objects is never read back.",
 ["object.go","combinations.go","basic.go","reference.go","jsval.go","string.go","number.go","bool.go"],[("ObjectConstraint.Required, PropDependency, SchemaDependency and their getters","object.go"),("comboconstraint.Add, Constraints, reduceCombined","combinations.go"),("defaultValue","basic.go"),("ConstraintMap, ReferenceConstraint","reference.go"),("JSVal, JSValSlice","jsval.go")],
 observe=["results of the accessors"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
