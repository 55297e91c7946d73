"""Adds the entries for repaired defects to known_findings.jsonl (entries of known findings are kept as they are)."""

import json
import pathlib
import subprocess

FIXED = {
    "ceef0d2": ("C01", "an annotated forward reference could not be serialized as the member of a class in another module"),
    "75898f3": ("C01", "a value of a recursive class type could not be serialized (unbounded recursion)"),
    "e8ab58a": ("C07", "a de-serializer depended on earlier calls: options, same-named types and incomplete cache entries were mixed up"),
    "4ae169e": ("C10", "named tuple members with an alias, a keyword name or an optional type could not be read back"),
    "5a09409": ("C08", "an error in one union member other than a JSON error kept later members from being tried"),
    "3660f1d": ("C08", "members of a tagged union were told apart by field name rather than by JSON property name"),
    "67d806d": ("C08", "an array or object as the tag of a tagged union raised an undocumented TypeError"),
    "95c99f8": ("C08", "an enumeration literal as a tag was never recognized"),
    "aec7d0c": ("C05", "`true` was accepted as an integer or number"),
    "640ea3d": ("C05", "a JSON value that merely compares equal to an enumeration value (1.0, true) was accepted"),
    "a51e436": ("C01", "a negative duration could not be read back"),
    "121e4e9": ("C05", "numbers and durations out of range raised OverflowError"),
    "96fed16": ("C07", "a forward reference in json_to_object was evaluated in the module of the library"),
    "0a3dcdd": ("C03", "an untyped dictionary with enumeration keys was serialized with keys that are not strings"),
    "b79822e": ("C11", "from_json of an enumeration or a named tuple was not called"),
    "b129271": ("C10", "the schema listed members named like keywords with their trailing underscore"),
    "0089f6d": ("C13", "no schema could be generated for a literal of several values"),
    "6c6bd9a": ("C13", "no schema could be generated for an optional type within a container"),
    "47f877b": ("C13", "no schema could be generated for IP addresses"),
    "21938e2": ("C14", "enumeration values with characters special in regular expressions broke the pattern of property names"),
    "a4c3567": ("C13", "validate_object refused times with a time zone or fraction that the serializer writes"),
    "9651b5d": ("C16", "forward references were resolved by bare name, whatever the module of the referencing class"),
    "b5142db": ("C16", "an annotated registered type appeared in place instead of by reference"),
    "872b3c5": ("C15", "default values of data classes with slots were missing from the schema"),
    "8113f6f": ("C30", "fields of data classes with string annotations were listed with unresolved types"),
    "571414a": ("C13", "no schema could be generated for a recursive class that is not registered"),
    "e2471a9": ("C19", "a doc-string with a line that starts with a colon but is no field could not be parsed"),
    "585cdd7": ("C19", "the long description of a doc-string without a short one was lost when printed"),
    "efe3735": ("C22", "nested and annotated composite types were given no name"),
    "1c1635a": ("C21", "tuple[()] was printed as an expression that does not evaluate"),
    "2a053a9": ("C26", "the order of types held the internal root, lost references and failed for iterators"),
    "78b5786": ("C26", "types referenced only by additional dependencies were missing from the order"),
    "21998f6": ("C24", "is_generic_instance and check_recursive ignored tuple lengths, annotated types and X | Y"),
    "67b8703": ("C24", "check_recursive failed for literal types"),
    "b420f4c": ("C23", "annotated unions and annotated named tuple types were not recognized"),
    "e6d212a": ("C25", "references of variable-length tuples and recursive aliases were not collected"),
    "3fa5be5": ("C17", "building types from a schema changed the module of types of the library or of the user"),
    "0eaf413": ("C17", "definitions that refer to themselves or to later ones were refused"),
    "c351ac2": ("C17", "enumeration values whose member names clash or are reserved were lost"),
    "aefdaf3": ("C17", "property names that are Python keywords were refused"),
    "3bfb105": ("C18", "properties that are unrestricted objects were lost when flattening"),
    "6d8bfbb": ("C17", "a range beyond 64 bits was given a 64-bit type"),
    "2edb6b4": ("C04", "`P`, `PT` and durations followed by a newline were accepted"),
    "2d45f46": ("C16", "changing a returned schema changed the registered examples"),
    "a34f6d4": ("C03", "members inherited from a class of another module were evaluated in the wrong module"),
    "914a6f4": ("C10", "a class with a member called `self` could not be read"),
    "d125865": ("C14", "the schema of a data class without members admitted any members"),
    "51fc0f5": ("C15", "the auto-generated doc-string of a named tuple showed up as its title"),
    "3211a83": ("C15", "defaults of named tuple members were missing from the schema"),
    "4cc880d": ("C15", "the auto-generated doc-string of a named tuple of one member showed up as its title"),
    "d3033f4": ("C17", "the default of a constant was lost when building a type from a schema"),
    "a19d90a": ("C17", "the minimum length of a string was lost when building a type from a schema"),
    "5944d3e": ("C17", "the schema of an empty data class was read as JsonType"),
    "fad0752": ("C17", "types built from a schema referred to JsonType, which their module lacks"),
    "53d9ed5": ("C30", "forward references saw the local names of library functions"),
    "e6a7d1f": ("C30", "a forward reference evaluated once kept its result, even in another module"),
    "c83a413": ("C01", "recursive type aliases could not be serialized"),
    "3e883bc": ("C19", "blank lines in front of the short description became part of a long description"),
    "0dfafaf": ("C20", "a doc-string of a member that a derived data class declares again was refused"),
    "7886ef0": ("C21", "enumeration members in literal types were printed as text that does not evaluate"),
    "c0a2993": ("C21", "annotated None was printed as text that does not evaluate to it"),
    "1c29227": ("C21", "annotations were lost when an auxiliary type has extra ones"),
    "f904b4c": ("C22", "types with annotations that are not hashable could be neither printed nor named"),
    "1a18edf": ("C21", "the type transformation was not applied to references that are strings"),
    "71bac43": ("C24", "check_recursive failed for IP addresses"),
    "03e532f": ("C25", "references of inherited members were evaluated in the wrong module"),
    "9c9552f": ("C30", "dataclass_field_by_name left out the default value"),
    "71c686f": ("C27", "fields of annotation classes derived from another annotation class were not recorded"),
    "f7ed421": ("C29", "functions, methods, modules and type objects were accepted by the de-serializer"),
    "dc42b58": ("C25", "the type of an inherited data-class member was collected as if it had been declared in the module of the derived class"),
    "a0e975a": ("C01", "a frozen data class with a member declared by field(init=False) could be written but not read (TypeError: unexpected keyword argument)"),
    "ca92397": ("C24", "a recursive check passed the type of a named tuple member without its annotations to the predicate"),
    "2cc21dd": ("C03", "an object without type annotations whose class has a static method could not be serialized (TypeError)"),
    "1789063": ("C07", "an annotated forward reference could not be read back"),
    "5a4b739": ("C29", "a refused type left a serializer behind, so that the same call succeeded when repeated"),
    "30ad6c5": ("C13", "the schema of an empty tuple was not valid"),
    "80e9430": ("C07", "a forward reference to an alias kept the meaning that the name had when first used"),
    "091ac76": ("C13", "no schema could be generated for types with annotations that are not hashable"),
}


def main() -> None:
    here = pathlib.Path(__file__).resolve().parent.parent
    path = here / "known_findings.jsonl"
    rows = [json.loads(line) for line in path.read_text().splitlines() if line.strip()]
    rows = [r for r in rows if r["status"] != "fixed"]
    log = subprocess.run(
        ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True
    ).stdout.splitlines()
    fixes = [line.split()[0] for line in log if line.split(" ", 1)[1].startswith("fix:")]
    assert set(fixes) == set(FIXED), set(fixes) ^ set(FIXED)
    for commit in fixes:
        prop, what = FIXED[commit]
        rows.append(
            {"property": prop, "key": f"fix-{commit}", "status": "fixed", "commit": commit, "what": f"fixed: property={prop} {commit} {what}"}
        )
    path.write_text("".join(json.dumps(r, ensure_ascii=False) + "\n" for r in rows))


if __name__ == "__main__":
    main()
