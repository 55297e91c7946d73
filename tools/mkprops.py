import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
S="strong_typing/serializer.py";D="strong_typing/deserializer.py";SZ="strong_typing/serialization.py";M="strong_typing/mapping.py"
SC="strong_typing/schema.py";CD="strong_typing/classdef.py";DS="strong_typing/docstring.py";N="strong_typing/name.py";I="strong_typing/inspection.py";T="strong_typing/topological.py";A="strong_typing/auxiliary.py"

p("C01","Serializing and then deserializing gives the value back",
  "For every supported type and every value of it, serializing the value, passing the result through JSON text, and deserializing into the same type yields an equal value built from the same Python types at every level. This covers leaf types, enumerations, containers, unions, literals, data classes, named tuples, plain typed classes and exceptions, including nested, inherited, recursive and forward-referenced ones. (Excepted are values whose JSON an earlier member of a union accepts, too, see C08.)",
  ["inputs","programs"],"every supported type (arbitrarily nested, recursive, forward-referenced, inherited) and every value of that type, including boundary values of each leaf type",
  "Tests round-trip a few dozen hand-picked values of a fixed set of example classes; the space of type nestings and boundary values (offsets with seconds, negative durations, extreme dates, empty containers, keyword names, optional members of named tuples) is not reached.",
  [S,D,M],[("serializer selection by type","strong_typing/serializer.py:_create_serializer"),("deserializer selection by type","strong_typing/deserializer.py:_create_deserializer")],["object_to_json","json_to_object","json_to_generic","create_serializer().generate","create_deserializer().parse"])
p("C02","Serialization produces only pure JSON, and the text form is lossless",
  "Whatever supported value is serialized, the result consists solely of exact None, bool, int, float, str, list and dict-with-str-keys objects. Dumping it as a string or to a file gives compact, single-line JSON text without escaped non-ASCII characters (the file form ends with exactly one newline) that parses back to the same JSON value.",
  ["inputs"],"every value of every supported type, typed or untyped, and every JSON document",
  "Tests compare particular outputs; that no other object kind (enum member, tuple, set, subclass of str/int) ever leaks into the result at any depth, and that the text is stable for any Unicode or nesting, is quantified over all values.",
  [S,SZ],[("generators per type","strong_typing/serializer.py"),("dump options","strong_typing/serialization.py:json_dump_string,json_dump")],["object_to_json","json_dump_string","json_dump"])
p("C03","The JSON encoding of every value follows the documented mapping",
  "The JSON for any value is the documented one: numbers, booleans, strings and null as they are, bytes as Base64, dates and times as ISO 8601 (timestamps with `Z` for UTC), durations as ISO 8601 durations equal in length to the value, UUIDs and IP addresses in canonical text, enumerations as their value, containers recursively in order, and objects as a member-by-member JSON object in which members holding None are left out. A time-zone-naive timestamp is refused with a value error, and serializing through the value's run-time type agrees with serializing through its declared type.",
  ["inputs","programs"],"every supported type and value; both the dynamically typed and the declared-type route",
  "Tests assert the encoding of a handful of constants per type; the mapping is a function on an infinite domain (all offsets, all durations, all nestings) with two separate routes that must agree.",
  [S],[("documented transformations","strong_typing/serializer.py:create_serializer docstring, README.md")],["object_to_json","create_serializer().generate"])
p("C04","Textual values are decoded exactly, and malformed text is refused",
  "A JSON string given for a timestamp, date, time, duration, UUID, IP address or byte array is decoded to exactly the value its lexical form denotes (durations in weeks, days, hours, minutes, seconds and fractions down to microseconds; timestamps with an explicit zone, `Z` meaning UTC; canonical Base64). Text that is not a well-formed value of the type, lacks the required zone, or exceeds the representable range (for durations also the precision) is refused with a value error and never yields an approximate value.",
  ["inputs"],"every well-formed text of each textual type, in every optional-component combination, and every malformed neighbour of one",
  "Tests check about ten well-formed durations and a few bad ones; the combinations of components, digit counts, near-miss characters and ranges are unbounded.",
  [D],[("lexical parsers","strong_typing/deserializer.py:DateTimeDeserializer,TimeDeltaDeserializer,UUIDDeserializer,IPv4Deserializer,BytesDeserializer")],["json_to_object on strings"])
p("C05","JSON of the wrong kind is refused and never silently coerced",
  "Deserializing a JSON document into a type succeeds only if the document has the JSON kind and shape the type calls for at every level (for instance a boolean is not a number, a number is not a string, a fractional number is not an integer, an array of another length is not a tuple, an unknown value is not an enumeration member or literal). Every refusal is reported as a JSON key, type or value error (or a plain value error for malformed text), whatever the document; no other exception escapes.",
  ["inputs","programs"],"every supported type against every JSON document, in particular valid documents corrupted at one arbitrary position",
  "Tests feed a few wrong documents to a few types; acceptance must coincide with the type's meaning for every (type, document) pair.",
  [D],[("kind checks in parsers","strong_typing/deserializer.py:*Deserializer.parse")],["json_to_object","json_to_generic"])
p("C06","Missing, null, extra and defaulted members are treated as declared",
  "When a JSON object is read into a class, a missing required member is a key error and a null one a value error, optional members that are missing or null become None, and data class members with a default or default factory take that default, a freshly made one per object. Members that the class does not declare are a key error unless the caller asked to ignore them, in which case they are ignored at every nesting level and everything else is read as if they were absent.",
  ["inputs","programs"],"every class-like type with any mix of required, optional, defaulted and factory members, nested anywhere, and every presence/null/extra combination of the JSON members, with both option settings",
  "Tests examine single missing or extra fields on small classes; the combination of member kinds, nesting, class kinds (frozen, slots, keyword-only, inherited) and options is exponential.",
  [D],[("field deserializers","strong_typing/deserializer.py:RequiredFieldDeserializer,OptionalFieldDeserializer,DefaultFieldDeserializer,DefaultFactoryFieldDeserializer"),("unassigned check","strong_typing/deserializer.py:ClassDeserializer.parse")],["json_to_object with DeserializerOptions"])
p("C07","Results do not depend on what was converted before",
  "The outcome of any serialization, deserialization or schema generation call is the same in every process history: earlier calls with other types, other options, same-named classes from other modules or scopes, failed conversions, or failed attempts to build a converter do not change it. A type given by name (or with names inside) is the one that the name stands for at the time of the call, in the given module or by default in the module of the calling code.",
  ["histories","configurations"],"every sequence of conversion calls over any set of types (including same-named and mutually referencing ones), options and failing inputs",
  "Each test runs a fixed short call sequence; engines are cached process-wide, so correctness depends on unbounded call histories that tests never permute.",
  [S,D,SC],[("process-wide engine caches","strong_typing/serializer.py:_fetch_serializer; strong_typing/deserializer.py:_get_deserializer")],["all conversion entry points"],
  [("serializer cache","built engines by type","strong_typing/serializer.py"),("deserializer cache","built engines by type and options","strong_typing/deserializer.py")])
p("C08","Unions pick the right member",
  "For a union without a common literal tag, deserialization returns the result of the first listed member type that accepts the document, and a key error if none does, however the other members reject it. For a union of classes sharing a literal-typed member, the class whose literal equals the tag in the document is used, and a missing, unknown or ill-typed tag is a type error; ambiguous tag declarations are refused when the converter is made.",
  ["inputs","programs"],"every union of supported member types (including overlapping ones, classes with literal tags, renamed tags, multi-valued tags, nested unions) and every JSON document",
  "Tests use a few unions of two or three members; the first-match rule depends on how every other member type fails on every document.",
  [D],[("ordered trial","strong_typing/deserializer.py:UnionDeserializer"),("tag dispatch","strong_typing/deserializer.py:TaggedUnionDeserializer")],["json_to_generic"])
p("C09","Conversion neither modifies nor shares state with its inputs",
  "Serializing leaves the Python value unchanged and returns fresh containers; deserializing leaves the JSON document unchanged and returns an object that shares no mutable container with the document, with other results, or with class defaults made by factories. Mutating one result never affects the input, a later result, or a registered schema.",
  ["inputs","histories"],"every supported value or document and every mutation made to a returned result or to the input afterwards",
  "Tests compare results once and never mutate them afterwards; aliasing only shows for particular types, nestings and follow-up mutations.",
  [S,D,SC],[("fresh containers in generators and parsers","strong_typing/serializer.py; strong_typing/deserializer.py"),("deepcopy of registered schema","strong_typing/schema.py")],["object_to_json","json_to_object","classdef_to_schema"])
p("C10","Member names are translated the same way everywhere",
  "The JSON name of a class member is its alias annotation if present, else its Python name with one trailing underscore dropped when what remains is a Python keyword, else its Python name. Serialization, deserialization and JSON schema use this same name for every kind of class and for members made optional, defaulted, inherited or otherwise annotated, and no other spelling is accepted when reading.",
  ["inputs","programs"],"every class kind and every member name (keywords with underscore, soft keywords, double underscores, non-ASCII) with and without alias annotations at any position in the annotation list",
  "Tests use `in_`, `from_` and a couple of aliases on data classes; three separate code paths have to agree on every name for every class kind.",
  [M,S,D,SC],[("name mapping","strong_typing/mapping.py:python_field_to_json_property")],["object_to_json","json_to_object","classdef_to_schema"])
p("C11","Custom to_json / from_json hooks are honoured wherever the type occurs",
  "A type that defines its own JSON conversion methods is converted by exactly those methods, once per occurrence, with the method's result used unchanged, in every position: top level, list item, set member, dictionary value, tuple item, optional, union member, annotated, inherited, and member of a data class, named tuple or plain class. Errors raised by the hook reach the caller, and other types are unaffected.",
  ["inputs","programs"],"every kind of class defining hooks (plain, data class, frozen, named tuple, enumeration, subclass) at every position of every container nesting",
  "Tests check one class with hooks at top level; the position and class-kind space is not covered.",
  [S,D],[("hook dispatch","strong_typing/serializer.py:CustomSerializer; strong_typing/deserializer.py:CustomDeserializer")],["object_to_json","json_to_object"])
p("C12","Concurrent use of a type gives the same results as sequential use",
  "When several threads convert values of the same types at once, in particular of types that have not been used yet (including types that refer to each other), every call returns or raises what it would have on its own.",
  ["schedules","histories"],"every interleaving of the first and later conversions of a set of (mutually recursive) types by two or three threads",
  "Tests are single-threaded; engines are built lazily into process-wide caches, so half-built engines may be visible to another thread.",
  [S,D],[("lazily filled caches","strong_typing/deserializer.py:_get_deserializer; strong_typing/serializer.py:_fetch_serializer")],["json_to_object","object_to_json from threads"])
p("C13","A generated JSON schema is valid and admits every serialized value",
  "For every supported type whose union alternatives exclude one another the generated schema validates against the chosen JSON Schema draft's meta-schema, every reference in it resolves to exactly one included definition, and every value of the type, once serialized, validates against the schema (via the library's own object validation as well as a standard validator).",
  ["inputs","programs","configurations"],"every supported type (registered, recursive, aliased, annotated with ranges, lengths and precision) and value, every draft and option setting",
  "Tests compare schemas of fixed types against literals; agreement between schema and serializer must hold for every type and value.",
  [SC,S],[("schema generation","strong_typing/schema.py:JsonSchemaGenerator"),("serializer","strong_typing/serializer.py")],["classdef_to_schema","validate_object"])
p("C14","A generated JSON schema rejects what the type does not allow",
  "A document with a missing required member, an undeclared member, a wrong JSON kind, an unknown enumeration or literal value, a wrong tuple length, a duplicate set element, a mapping key outside its enumeration, or an integer or string outside its explicitly annotated range or length is rejected by the generated schema at whatever depth the fault lies. The library's own object validation also rejects text that is not a date, UUID or IP address where one is declared. Conversely, a document the schema admits can be deserialized into the type.",
  ["inputs","programs"],"every supported type without overlapping alternatives, and every valid document corrupted at one arbitrary position",
  "Tests never validate systematically corrupted documents; a schema that is too loose passes every positive test.",
  [SC,D],[("schema keywords","strong_typing/schema.py:JsonSchemaGenerator.type_to_schema")],["classdef_to_schema","validate_object","json_to_object"])
p("C15","Schema content follows the documented conversion, doc-strings and defaults",
  "The schema of a type is the documented image of its structure: each Python type maps to its JSON type, format and constraints, members are listed under their JSON names with required exactly those that are not optional, defaults are given in serialized form, and titles and descriptions come from the doc-strings of the class and its members (a member's own description taking precedence, base classes included). Schema options change only what they name: the reference prefix, descriptions, examples and custom property descriptions.",
  ["inputs","programs","configurations"],"every supported type structure, doc-string arrangement, default value and option combination",
  "Tests compare about twenty fixed schemas; doc-string, inheritance, alias, default and option combinations are unbounded.",
  [SC,DS],[("type to schema conversion","strong_typing/schema.py:type_to_schema"),("doc-strings","strong_typing/schema.py:get_class_property_docstrings")],["classdef_to_schema","JsonSchemaGenerator"])
p("C16","Registered types become exactly the right shared definitions",
  "A type registered for schema generation appears by reference wherever it is used and its definition is listed exactly once, sorted by name, if and only if it is reachable from the requested type; user-supplied schemas, names and examples are used verbatim. The result is deterministic and the same whatever was generated or registered in between, and registering a type twice is refused.",
  ["histories","inputs","programs"],"every reference graph of registered and unregistered types (diamonds, cycles, forward references) and every order of registration and generation calls",
  "Tests register a couple of types once per process; reachability over arbitrary graphs and call histories is not covered.",
  [SC],[("type catalogue","strong_typing/schema.py:TypeCatalog"),("definition closure","strong_typing/schema.py:JsonSchemaGenerator.classdef_to_schema")],["classdef_to_schema","register_schema","json_schema_type","get_schema_identifier"],
  [("type catalogue","registered types and names","strong_typing/schema.py")])
p("C17","Types built from a schema have the structure the schema describes",
  "Building Python types from a generated JSON schema yields classes whose own generated schema is equivalent to the original (integer ranges and enumerations are widened to the narrowest of int16, int32, int64 or int that holds them, other integer formats to int; a member is described by its title or else its description), whose members have the types, optionality, defaults, enumerations and doc-strings the schema states, and which round-trip the same JSON documents (those with decimal numbers excepted, which cannot be converted). Schemas outside the supported subset are refused with an error, and types not created by the call are left unchanged.",
  ["inputs","programs"],"every schema in the supported subset (objects, arrays, references, enumerations, constants, formats, ranges, defaults, oneOf), whether produced from generated types or directly",
  "Tests convert a few fixed schemas and compare a few fields; the round trip over arbitrary schemas is not exercised.",
  [CD],[("schema to type","strong_typing/classdef.py:schema_to_type,node_to_typedef")],["schema_to_type","classdef_to_schema"])
p("C18","Flattening a schema lifts exactly the nested object members",
  "Flattening replaces every object-valued member by that object's own members (all the way down in recursive mode, with dotted qualified names in qualified mode), keeps all other members and required markers, in order, and keeps everything else about the schema. The input schema is not modified, and flattening recursively twice equals flattening once.",
  ["inputs","configurations"],"every object schema of any nesting depth and every option combination",
  "Tests flatten one or two fixed schemas of depth two.",
  [CD],[("flattener","strong_typing/classdef.py:SchemaFlattener")],["flatten_schema"])
p("C19","Doc-string parsing is total, exact and stable under re-printing",
  "Parsing any text as a doc-string succeeds; a doc-string written from components parses back to the same short and long description, parameters, returns, raises and see-also entries in order, regardless of indentation and of line wrapping inside an entry. Printing a parsed doc-string and parsing it again gives the same result.",
  ["inputs"],"every text, and every combination of doc-string components and layouts",
  "Tests parse a dozen fixed doc-strings.",
  [DS],[("parser","strong_typing/docstring.py:parse_text"),("printer","strong_typing/docstring.py:Docstring.__str__")],["parse_text","str(Docstring)"])
p("C20","Doc-strings are checked against, and typed from, the code they describe",
  "Parsing the doc-string of a data class or function attaches to each parameter, return value and exception entry the declared type it describes, and refuses doc-strings that name a member (declared in the class itself), parameter, annotated return value or exception that does not exist. The strict check additionally refuses exactly those that leave a member, parameter or return value undocumented (`self` excepted, inherited members not required).",
  ["inputs","programs"],"every function signature and (inherited) data class against every set of documented names",
  "Tests use a handful of functions and classes; the comparison is between two arbitrary name sets under inheritance.",
  [DS],[("type assignment","strong_typing/docstring.py:parse_type"),("checks","strong_typing/docstring.py:check_docstring")],["parse_type","check_docstring"])
p("C21","The printed form of a type denotes that type",
  "Printing any supported type, in either union style, produces a Python type expression that evaluates, in a namespace with the named types, to an equal type; auxiliary type aliases print by name, extra annotations are kept, and user-supplied type or value transformations are applied to every occurrence.",
  ["inputs","configurations"],"every type expression (nested generics, optionals, unions, literals, annotated and auxiliary types, callables, forward references) and formatter option",
  "Tests print about thirty fixed types and compare strings.",
  [N],[("formatter","strong_typing/name.py:TypeFormatter")],["python_type_to_str","TypeFormatter"])
p("C22","Assigned type names are valid identifiers that tell types apart",
  "The short name of a named or auxiliary type is its own name, with annotations ignored. On request composite types of any nesting get a name too, which is a valid identifier, is the same for equal types (with union members in the same order), and differs for structurally different types (as long as tuples and unions, whose item lists have no end mark in a name, only occur outermost); otherwise asking for the name of a composite type is a type error.",
  ["inputs"],"every simple, annotated and arbitrarily nested composite type",
  "Tests name about ten fixed types, none nested more than one level.",
  [N],[("naming","strong_typing/name.py:python_type_to_name")],["python_type_to_name"])
p("C23","Type predicates classify types correctly and unwrapping inverts wrapping",
  "For every type, each predicate (optional, union, literal, generic list/set/dict, enumeration, data class, named tuple, annotated, type-like) is true exactly for types of that form, in old and new union notation and under annotations. Unwrapping a wrapped type returns the original argument, with annotations carried over when re-wrapping, and asking to unwrap a type that is not optional or not a union is a type error.",
  ["inputs"],"every type expression and every wrapper, in both union notations, annotated or not",
  "Tests probe each predicate with a few types; the cross product of predicates, forms and annotations is open-ended.",
  [I],[("predicates and unwrappers","strong_typing/inspection.py")],["is_type_*","is_generic_*","unwrap_*","rewrap_annotated_type","get_annotation"])
p("C24","Run-time type checking of nested objects is exact",
  "Asking whether an object is an instance of a (generic) type answers yes exactly when the object and, recursively, all its items, keys, values and members conform, including tuple length and union alternatives. A recursive member check calls the predicate on every leaf member reachable through containers and class members with that member's declared type, and returns the conjunction.",
  ["inputs","programs"],"every supported type with conforming objects, near-miss objects and arbitrary predicates",
  "Tests probe a few lists, dicts and tuples.",
  [I],[("instance check","strong_typing/inspection.py:is_generic_instance"),("recursive check","strong_typing/inspection.py:RecursiveChecker")],["is_generic_instance","check_recursive"])
p("C25","The set of referenced types is exactly the reachable set",
  "The types reported as referenced by a type are exactly those reachable through generics, unions, annotations, forward references and class members, computed for cyclic and diamond-shaped type graphs alike, each with the direct dependencies its own members mention.",
  ["inputs","programs"],"every type graph of classes referring to each other directly, through containers and through forward references",
  "Tests look at a few small class groups.",
  [I],[("type collector","strong_typing/inspection.py:TypeCollector")],["get_referenced_types","TypeCollector"])
p("C26","Topological sorting puts every dependency first and reports cycles",
  "Sorting a dependency graph returns each node exactly once with every node after all the nodes it depends on (a node depending on itself is allowed), the same way each time, and raises an error exactly when there is a longer cycle, without changing the graph. Sorting types returns precisely the given types and everything they reference, directly or by user-supplied extra dependencies, in such an order.",
  ["inputs"],"every finite graph (within the interpreter's recursion depth) and every set of types with any dependency function",
  "Tests sort three small graphs.",
  [T,I],[("depth-first sort","strong_typing/topological.py:topological_sort"),("type sort","strong_typing/topological.py:type_topological_sort")],["topological_sort","type_topological_sort"])
p("C27","Type annotations behave as immutable values and auxiliary types are coherent",
  "Annotation classes made by the library's decorator are immutable, compare and hash by their field values (ordered when asked for), and print as a positional constructor call that evaluates back to an equal object. The fixed-width integer types carry ranges that equal what their signedness and byte size imply, and each auxiliary type's schema format, printed name and looked-up name agree.",
  ["inputs","programs"],"every annotation class declaration (fields, defaults, eq/order options, inheritance) and every pair of field values; all auxiliary types",
  "Tests check two or three annotation classes and constants.",
  [A,N,SC],[("decorator","strong_typing/auxiliary.py:typeannotation"),("auxiliary types","strong_typing/auxiliary.py")],["typeannotation","python_type_to_str","get_auxiliary_format"])
p("C28","Dynamically created types and modules are equivalent to declared ones",
  "A data class created from a name and a field list has exactly those fields and behaves (construction, equality, conversion) like the declared equivalent; an extended enumeration has all the source's members followed by the new ones, is reachable in the extending module, and refuses duplicate values; a created module is importable by name and an existing one is never overwritten; creating a bare instance of an ordinary or exception class bypasses initialization.",
  ["inputs","histories"],"every field list, pair of enumerations, module name and class kind",
  "Tests create one or two examples of each.",
  [I],[("dynamic creation","strong_typing/inspection.py:create_data_type,extend_enum,create_module,create_object")],["create_data_type","extend_enum","create_module","create_object","get_module_classes"])
p("C29","Types that cannot be converted are refused up front with a type error",
  "Making a converter for a type that has no JSON form (functions, modules, containers without item types when reading, mappings keyed by anything but strings or string-valued enumerations, literals or enumerations of mixed kinds used as keys, ambiguous tagged unions, unknown generics, unresolvable forward references without context) raises a type error (JSON type error or name error where the name is unknown) before any data is read, at any depth inside otherwise supported types, every time it is tried.",
  ["inputs","programs","histories"],"every unsupported type form at every position of every supported nesting, tried repeatedly and interleaved with supported types",
  "Tests try a few unsupported types at top level, once.",
  [S,D],[("construction-time checks","strong_typing/serializer.py:_create_serializer; strong_typing/deserializer.py:_create_deserializer")],["create_serializer","create_deserializer"])
p("C30","Introspection lists exactly what classes, functions and modules declare",
  "The properties reported for a class and the fields reported for a data class are exactly its declared members, inherited ones included, once each and in declaration order, with the types their annotations denote in the scope of the declaring class (whether given directly, quoted or evaluated lazily) and the declared default; a name that is not a member is absent (no property, a lookup error for fields). The signature of a function has every parameter with its kind, default and evaluated annotation, evaluating a reference takes names from the given module only and leaves the reference as it was, and the classes and functions reported for a module are exactly the ones defined in it and not imported into it.",
  ["inputs","programs"],"every class of every kind (inherited within and across modules, quoted, forward-referring and lazily annotated members), every function signature and every module content",
  "Tests list the members of two or three classes in one module; inheritance across modules, lazy annotations and shadowed names are not reached.",
  [I],[("class members","strong_typing/inspection.py:get_class_properties,dataclass_fields,dataclass_field_by_name"),("references","strong_typing/inspection.py:evaluate_type"),("module members","strong_typing/inspection.py:get_module_classes,get_module_functions")],["get_class_properties","get_class_property","dataclass_fields","dataclass_field_by_name","evaluate_type","get_signature","get_module_classes","get_module_functions","enum_value_types","is_reserved_property"])
p("C31","A refusal says what kind of mistake the document has",
  "When reading refuses a document because of one mistake, the class of the error tells what is wrong, the same for every way of reading: a JSON type error for a value of the wrong JSON kind, a literal value or a discriminator value that no alternative has; a JSON key error (quoting the name) for a missing required or an unrecognized member, and for a document that no member of a union without discriminator accepts; a JSON value error or ValueError for data of the right kind that is not valid: null for a required member, an array of the wrong length, malformed text, an enumeration value that does not exist, a number out of range. The same document and type always give the same error.",
  ["inputs","programs"],"every type and every document with a single mistake at any position",
  "Tests check the class of the error for a few scalar documents.",
  [D],[("error classes","strong_typing/exception.py"),("refusals","strong_typing/deserializer.py")],["json_to_object","json_to_generic","create_deserializer"])
p("C32","A name in a member's type means what it means where the member is declared",
  "Where the type of a class member refers to other types by name (as text, in part or as a whole, as a reference, lazily, or through an alias that refers to further names), every operation takes the name from the module of the class that declares the member: serialization, deserialization, schema generation and validation, listing of properties and referenced types, recursive checks and doc-string types. This holds for inherited members, whatever the names stand for in the module of the derived class, in other modules, or in the context passed to the operation.",
  ["programs","histories"],"every chain of classes over several modules in which the same names stand for different things (or nothing), every form of reference, and every order of operations on the classes",
  "Tests define all classes of an example in one module, where every way of looking a name up finds the same thing.",
  [S,D,SC,I,DS],[("member types","strong_typing/inspection.py:get_resolved_hints,get_class_properties,evaluate_type,_field_owner"),("contexts","strong_typing/deserializer.py:_get_deserializer; strong_typing/serializer.py:_fetch_serializer; strong_typing/schema.py:JsonSchemaGenerator")],["json_to_object","object_to_json","classdef_to_schema","validate_object","get_class_properties","get_referenced_types","check_recursive","parse_type"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
