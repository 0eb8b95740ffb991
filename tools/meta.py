"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
import subprocess

from table import CHECKS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                state=state or [], hook=hook)


M = lambda name, where: {"name": name, "where": where}
S = lambda name, meaning, where: {"name": name, "meaning": meaning, "where": where}
EDIT = ["set.go", "builder.go", "parser.go", "path.go"]
QUERY = ["get.go", "parser.go", "path.go"]

PROPS = {
"P01": P("A value set at an element path is read back at that path",
  "After a successful Set of a non-nil value at an element path (names and non-negative indexes, on an empty or well-formed document), Get with the same path on the new document returns an element whose text is the value's text without surrounding white space, whatever characters the value contains. Strings, booleans, int, int64, float32, and float64 are written in their canonical text form, []byte as raw markup, and values of other types are refused as invalid. This holds after any sequence of earlier edits.",
  ["inputs", "histories"], "every document, every element path, every value of every supported type within the documented limits, after every sequence of edits",
  "Tests set a few dozen values at fixed paths in hand-written documents; the product of document shapes (comments, self-closing tags, repeated names, namespaces), paths and values, and edits following edits, is not reached.",
  EDIT, [M("the element located by the path is rewritten, otherwise created", "builder.go setElement, findElementLocation, createElement"), M("value conversion and escaping", "builder.go valueToXML, parser.go escapeXML")], ["Set, SetBytes, SetWithOptions, SetMany followed by Get"]),
"P02": P("A value set at an attribute path is read back exactly",
  "After a successful Set at a path ending in @name, Get with the same path returns exactly the value that was set, including white space, quotes, and markup characters, and the attribute occurs once on the element. Attributes of the element that were not named keep their values. Missing elements and missing attributes are created.",
  ["inputs", "histories"], "every document, attribute path and value, with either quote style, odd spacing in tags and other attributes present, after every sequence of edits",
  "Tests use double-quoted, regularly spaced attributes and a few values; attribute order, duplicates, quote styles, spacing and following edits are not explored together.",
  EDIT, [M("rewriting of the opening tag", "builder.go replaceAttribute, createElementForAttribute, writeOpeningTag"), M("attribute scanning", "parser.go parseAttributes")], ["Set at @name followed by Get and Valid"]),
"P03": P("An edit changes nothing outside the element it addresses",
  "Every byte before and after the element addressed by a successful Set, SetRaw, or Delete (or, when something is created, before and after the point of insertion) is the same in the new document as in the old one, including comments, processing instructions, white space, and quoting. Setting an element also leaves its own tags byte-identical unless it was self-closing, and setting or deleting an attribute leaves the element's content and closing tag untouched.",
  ["inputs", "histories"], "every document and every edit, after every sequence of edits",
  "Tests compare a few whole outputs; they do not quantify over what else the document contains (comments with tags inside, CDATA, processing instructions, siblings of the same name, odd spacing).",
  EDIT, [M("prefix and suffix copied from the input", "builder.go replaceElement, replaceAttribute, createInParent, deleteElement, deleteAttribute"), M("element boundaries", "builder.go findElementLocation, parser.go parseElementContent, skipMarkup")], ["documents before and after Set, SetRaw, Delete"]),
"P04": P("Setting a missing path creates exactly the missing elements",
  "A successful Set at an element or attribute path of which only a prefix exists creates one element for each missing segment and no other, as last content of the longest existing prefix; self-closing parents are opened. An empty document gets the whole path, and when the first segment names no root element and there is one already, the path is created in the root or as a further root exactly as documented. Paths that cannot name the missing element (an index beyond the end, a wildcard) are refused and leave the document unchanged.",
  ["inputs", "histories"], "every document (empty, with one or several roots, with self-closing elements) and every path, after every sequence of edits",
  "Tests create one or two levels below fixed roots; which prefix exists, in which of several equal elements, and with what else around is not varied.",
  EDIT, [M("creation of missing segments", "builder.go createElement, createInRoot, createInParent, createSiblingRoot, buildElementPathWithDepth"), M("refusal of paths that cannot be created", "builder.go checkCreatable, path.go resolveIndexIntent")], ["document after Set, element count, Get"]),
"P05": P("Appending with index -1 adds one element after its namesakes",
  "A successful Set at path.name.-1 adds exactly one element called name directly after the last one of that name in its parent (or as last content when there is none, creating missing parents), so that the count grows by one, the new value is the last item, and the earlier items are unchanged. Appending at the root adds a root element in the same way. Reading with a negative index gives Null, and deleting with one changes nothing.",
  ["inputs", "histories"], "every document, target and value, with interleaved siblings, self-closing parents and repeated appends",
  "Tests append to simple lists; interleaved names, nested namesakes, comments, self-closing parents and chains of appends mixed with deletes are not covered.",
  EDIT, [M("append intent and insertion point", "path.go resolveIndexIntent, builder.go appendElement, appendRootElement, findLastMatchPosition")], ["Set at .-1, then Get name.# and items"]),
"P06": P("Delete removes exactly the addressed element or attribute",
  "Delete (or Set to nil) removes exactly the bytes of the element that Get with the same path returns, or that one attribute of it, and nothing else. When the path addresses nothing the document is returned unchanged without error, and deleting the only root gives an empty document. Deleting again removes the next match or nothing, never something else.",
  ["inputs", "histories"], "every document and deletable path, repeated until nothing is left",
  "Tests delete from regular documents; namesakes at other depths, comments containing tags, self-closing forms and repeated deletion are not enumerated.",
  EDIT, [M("removal of the located byte range", "builder.go deleteElement, deleteAttribute, findElementLocation")], ["document after Delete, DeleteBytes, DeleteMany, Set(nil)"]),
"P07": P("A failed edit changes nothing and says why",
  "Every edit that returns an error returns the original document unchanged, and the error matches exactly one of the exported sentinel errors: malformed document, invalid path, or invalid value. The byte slices handed to an edit are never modified. Editing a document that is not well-formed is always refused as malformed.",
  ["inputs", "histories", "fault_sequences"], "every edit call with every combination of broken document, broken path and unsupported value",
  "Tests check a handful of error cases with one fault each; combinations of faults, batches failing midway and aliasing of the caller's buffer are not explored.",
  ["set.go", "builder.go", "errors.go", "path.go"], [M("checks before editing", "set.go SetBytesWithOptions, DeleteBytesWithOptions, SetManyBytes, DeleteManyBytes"), M("sentinel errors", "errors.go")], ["returned document and error, caller's buffers"]),
"P08": P("Edits keep a well-formed document well-formed",
  "A successful edit of a well-formed (or empty) document yields a document that Valid accepts, or an empty one: no text value can inject markup, and raw values that would break the document are refused. This holds for element paths made of XML names, for all values, and after any sequence of edits.",
  ["inputs", "histories"], "every well-formed document, path and value, chained to any length",
  "Tests inject a few attack strings into one place; hostile values in every position (text, attribute, raw, created elements, batches) on unusual but well-formed documents are not covered.",
  EDIT + ["validate.go"], [M("escaping and raw checks", "parser.go escapeXML, builder.go valueToXML, set.go validateRawXML"), M("validator", "validate.go validate")], ["Valid on the result of Set, SetRaw, SetMany, Delete"]),
"P09": P("Batch edits equal the sequence of single edits, or change nothing",
  "SetMany gives the document (or the error class) that applying Set for each path and value in order gives, and DeleteMany the one that applying Delete for each distinct path in order gives. If any step fails the original document is returned with that step's error, as if nothing had been done; mismatched list lengths are refused.",
  ["inputs", "histories", "programs"], "every list of paths and values, with overlaps, duplicates, parents and children, and failing members at every position",
  "Tests run fixed lists mostly of independent paths; interaction between members (creating what a later one needs, deleting what a later one addresses) and every failure position are not enumerated.",
  ["set.go", "builder.go"], [M("sequential application on a working copy", "set.go SetManyBytes, DeleteManyBytes")], ["SetMany, SetManyBytes, DeleteMany, DeleteManyBytes"]),
"P10": P("SetRaw inserts exactly the given fragment or refuses it",
  "A successful SetRaw makes the given fragment, byte for byte, the content of the addressed element (created if missing), and the document stays well-formed. Fragments that are not well-formed on their own (unbalanced or stray tags, unterminated comments or quotes), that contain a document type declaration, or that close an enclosing element are refused with the invalid-value error and change nothing. Well-formed fragments are accepted.",
  ["inputs"], "every fragment over the alphabet of markup, every document and path",
  "Tests list a few good and bad fragments; the language of accepted fragments is never compared with well-formedness.",
  ["set.go", "builder.go", "validate.go"], [M("fragment validation", "set.go validateRawXML"), M("insertion", "builder.go setElement, replaceElement, createElement")], ["SetRaw, and Set with []byte"]),
"P11": P("Name and index paths select the documented element",
  "Get with a path of element names and zero-based indexes returns the first element reached by walking the tree through all same-named siblings in document order, with the text, raw content, and type it has there, and Null when there is none. @name returns the attribute of the element the rest of the path selects, % its own text, and # the number of matching elements. Comments, CDATA, processing instructions, and declarations never count as elements.",
  ["inputs"], "every well-formed document and every path of names, indexes, @, % and #",
  "Tests query fixed documents; backtracking through several same-named parents, nested namesakes, and markup-like text in comments or CDATA are only touched.",
  QUERY + ["result.go"], [M("tree walk", "get.go executeQuery"), M("scanner", "parser.go parseElementName, parseElementContent, skipMarkup")], ["Get, GetBytes, GetMany"]),
"P12": P("Wildcards return all matching elements, each once",
  "A path with * returns one result per element matched at that level, in document order; a path starting with or containing ** returns every element below at any depth that the rest of the path matches, each exactly once. One match is returned as itself, several as an array, and none as Null.",
  ["inputs"], "every well-formed document and every path with * and ** in any position",
  "Tests use small regular trees; nested namesakes, mixed depths and ** followed by several segments or attributes are not enumerated.",
  QUERY, [M("wildcard and recursive search", "get.go handleWildcardMatches, handleRecursiveWildcard, recursiveSearchWithContext")], ["Get with * and **"]),
"P13": P("Filters keep exactly the elements that satisfy the condition",
  "name.#(cond) selects the first and name.#(cond)# all elements called name that satisfy cond, in document order; cond compares a child path or @attribute with a value by ==, !=, <, <=, >, >=, %, !%, or tests existence. == and != compare the text exactly, the order comparisons hold only between decimal numerals and compare them as numbers, and an element lacking the compared item never satisfies the condition. Segments after the filter continue from the selected element, or from each of them.",
  ["inputs"], "every well-formed document, every condition (operator, operand, value form) and continuation",
  "Tests fix documents and conditions; numeric versus text comparison, quoting, missing items, and continuations with several matches are not crossed.",
  ["filter.go", "get.go", "path.go"], [M("condition parser and evaluation", "filter.go parseFilterCondition, evaluateFilterWithDepth"), M("continuation", "get.go processFirstMatch, processAllMatches")], ["Get with #(...) and #(...)#"]),
"P14": P("Field extraction collects the field of every matching element",
  "name.#.field returns an array with, for each element called name in document order, its field: all children called field, its attribute for @field, or its own non-empty text for %, elements without the field contributing nothing. Options apply to the field name as to other names.",
  ["inputs", "configurations"], "every well-formed document and field path, with and without case-insensitivity",
  "Tests use uniform lists; missing fields, repeated fields, nested same-named fields, root arrays and namespaced fields are not crossed.",
  ["get.go", "path.go"], [M("extraction", "get.go executeFieldExtraction, executeFieldExtractionWithOptions")], ["Get, GetWithOptions with #.field"]),
"P15": P("Pattern filters implement * and ? exactly",
  "The filter operators % and !% accept a value exactly when the whole value does, respectively does not, match the pattern, where * stands for any run of characters, ? for one character, a backslash makes the next character literal, and everything else for itself. The result does not depend on how the match is searched for, within the documented work limit.",
  ["inputs"], "every pattern and value",
  "Tests match some fifty pattern and value pairs; backtracking with several stars, escapes and multi-byte characters is not enumerated.",
  ["filter.go", "internal/pattern"], [M("matcher", "filter.go evaluateFilterWithDepth and the pattern matcher it calls")], ["Get with #(f % pattern)#"]),
"P16": P("Modifiers transform results as documented and compose in order",
  "A query followed by |@m1|@m2 and so on gives the result of applying m1, then m2, and so on to the query's result: reverse and sort permute arrays (sort orders numerically when all items are numeric, else by text), first and last pick an item, flatten splices nested arrays, ugly removes white space outside tags from the raw markup and pretty puts its tags on indented lines, and none of them changes other kinds of results. Custom modifiers run exactly once each, unknown ones give Null, and Null stays Null.",
  ["inputs", "programs"], "every query result and every chain of built-in and custom modifiers",
  "Tests apply single modifiers and a few chains to fixed arrays; chains after wildcards, filters and extraction, through every entry point, are not covered.",
  ["modifier.go", "get.go"], [M("chain application", "modifier.go applyModifiers, get.go finishQuery, takeModifiers"), M("built-ins", "modifier.go reverseModifier, sortModifier, firstModifier, lastModifier, flattenModifier, uglyModifier")], ["Get with |@modifier"]),
"P17": P("Path syntax is read as documented, whatever was queried before",
  "Dots separate segments except inside filters and when escaped by a backslash, escapes stand for the next character, and every path string has the one documented reading in all functions; strings that are not paths select nothing and are refused by edits. The answer to a query does not depend on earlier queries in the process, however many different paths have been used.",
  ["inputs", "histories"], "every path string over the syntax characters; every sequence of earlier calls, including more distinct paths than any cache holds",
  "Tests parse fixed paths with a fresh or barely used process; eviction and reuse after hundreds of other paths, and odd combinations of syntax characters, are not reached.",
  ["path.go", "get.go"], [M("path parser", "path.go parsePathInternal, splitPath"), M("path cache", "path.go parsePath")], ["Get and Set with arbitrary path strings"], [S("path cache", "parsed paths kept between calls", "path.go")]),
"P18": P("Names match namespaced elements as documented",
  "A path name without a prefix matches elements with that local name whatever their prefix; a name with a prefix matches only elements with the same prefix and local name. This holds alike for reading, filtering, field extraction, counting, recursive search, setting, appending, and deleting, and created elements keep the prefix written in the path.",
  ["inputs", "histories"], "every document with prefixed and unprefixed names and every path, for queries and edits",
  "Tests cover prefixes in a few queries; the agreement between queries and edits, and mixtures of equal local names with different prefixes, are not enumerated.",
  ["path.go", "get.go", "builder.go"], [M("name matching", "path.go matches, splitNamespace")], ["Get, Set, Delete with prefixed names"]),
"P19": P("Case-insensitive options make the spelling of names irrelevant",
  "With case sensitivity turned off, two paths that differ only in letter case select the same elements and attributes in every form of query (filter conditions excepted, which compare names as written), and Set and Delete change the same element or attribute; with it on, names match exactly. Repeated calls give the same answer, also when an element carries attributes whose names differ only in case.",
  ["inputs", "configurations", "histories"], "every document with names differing in case, every path, both option settings, queries and edits",
  "Tests exercise case-insensitivity for plain names; wildcards, recursion, extraction, attributes and edits, and attributes that collide when folded, are not crossed.",
  ["get.go", "path.go", "options.go", "builder.go", "set.go"], [M("folded matching", "path.go matchesWithOptions, get.go lookupAttrFold, executeQueryWithOptions")], ["GetWithOptions, SetWithOptions, DeleteBytesWithOptions"]),
"P20": P("Conversions of a result agree with its text",
  "For every result, Int and Float give the value of a decimal numeral (0 for texts that are no number), Bool is true exactly for the documented texts, String gives the text, Array gives the items (one for a single result, none for Null), Exists is false only for Null, and Value has the type matching the kind of result. Arrays convert as documented and ForEach visits exactly the items in order until told to stop.",
  ["inputs"], "every query result; all numerals with signs, exponents, leading zeros, overflow and surrounding text",
  "Tests convert a few dozen literals; boundaries (overflow, exponents, signs), and agreement between the conversions of one result, are not enumerated.",
  ["result.go"], [M("conversions", "result.go String, Int, Float, Bool, Value, Array, ForEach")], ["methods of Result"]),
"P21": P("Queries on a result equal queries on the element it stands for",
  "For an element result, Get with a path that starts with an element name or wildcard selects among its children exactly what that path selects when written after the element's own path; on arrays it applies to the first item, and on other results it gives Null. Map contains exactly the child elements, with namesakes collected in order, and is consistent with Get; option-taking forms follow the options.",
  ["inputs", "configurations"], "every document and every pair of paths, with default and case-insensitive options",
  "Tests chain fixed queries; equality with the composed path over all documents and path pairs is never stated.",
  ["result.go", "get.go"], [M("query on raw content", "result.go Get, GetMany, GetWithOptions, isMultiRootFragment"), M("map building", "result.go parseMapChildren, parseMapChildrenWithOptions, addChildToMap")], ["Result.Get, GetMany, GetWithOptions, Map, MapWithOptions"]),
"P22": P("Equivalent entry points give identical answers",
  "The string, byte-slice, batch, and option-taking forms of each operation (with default or nil options) give the same result, document, and error for the same arguments; SetMany and DeleteMany of one member equal the single call, and GetMany equals the sequence of Gets.",
  ["inputs", "configurations", "programs"], "every document, path, value and operation",
  "Tests check each form on its own examples; the forms have separate implementations that are never compared over a common input space.",
  ["get.go", "set.go", "validate.go", "result.go", "options.go"], [M("delegation and duplicated code paths", "get.go GetBytes, GetBytesWithOptions, GetMany; set.go Set, SetBytes, SetWithOptions, SetMany; options.go isDefaultOptions")], ["all exported functions"]),
"P23": P("Valid accepts exactly well-formed documents and locates the error",
  "Valid, ValidBytes, ValidateWithError, and ValidateBytesWithError agree and accept exactly the documents whose tags are balanced and properly nested, whose names and quoted attributes follow the documented rules, and whose comments, CDATA, and declarations are terminated. When a document is rejected, the reported line and column are those where the first offending construct is detected, or where the unclosed element starts.",
  ["inputs"], "every byte string over the markup alphabet, including every truncation and single-byte damage of a well-formed document",
  "Tests list good and bad documents and a few positions; the accepted language and the position are not compared with a definition.",
  ["validate.go"], [M("validating scanner with line and column", "validate.go validate, parseTag, parseOpeningTag, parseClosingTag, parseAttributesValidating, advance")], ["Valid, ValidBytes, ValidateWithError, ValidateBytesWithError"]),
"P24": P("Every documented limit holds exactly at its boundary",
  "Inputs up to a documented limit (modifiers in a chain, path segments, nesting depth, attributes of an element, lengths of filters, field names and prefixes, results of a wildcard, values and documents) are processed normally, and beyond it they are refused, truncated, or ignored as documented, never crashing or processing part of the excess. The limits are the same through all entry points.",
  ["inputs", "configurations"], "sizes on both sides of every limit, in every feature the limit applies to",
  "Tests probe some limits through one entry point at sizes far from the boundary; boundary pairs through all entry points and combinations are missing.",
  ["get.go", "path.go", "filter.go", "modifier.go", "parser.go", "set.go", "builder.go"], [M("size guards", "constants Max... and their checks in parser.go, path.go, filter.go, modifier.go, get.go, set.go, builder.go")], ["Get, Set, SetRaw, Delete, Valid on sized inputs"]),
"P25": P("The modifier registry behaves as one atomic map",
  "Registering succeeds exactly when the name is not empty and free, unregistering fails exactly for built-in names and otherwise frees the name, and a lookup or query sees the modifier currently registered. Built-in modifiers can be neither replaced nor removed. Concurrent calls behave as if executed one at a time in an order consistent with real time, without data races.",
  ["histories", "schedules"], "every sequence of registry and query calls, and every interleaving of concurrent ones",
  "Tests register and unregister in one order, and the concurrent ones check only the absence of crashes.",
  ["modifier.go"], [M("registry behind a lock", "modifier.go RegisterModifier, GetModifier, UnregisterModifier, isBuiltinModifier, applyModifiers")], ["RegisterModifier, GetModifier, UnregisterModifier, Get with |@name"], [S("registry", "modifiers by name", "modifier.go")]),
"P26": P("Concurrent calls give the same results as sequential ones",
  "Queries, edits, and validations running concurrently on shared documents, paths, and option values give every caller the result the call has on its own, without data races, and leave shared inputs unmodified.",
  ["schedules", "inputs"], "every interleaving of concurrent calls on shared inputs, including more distinct paths than the cache holds",
  "Concurrency tests run one call in parallel and look for crashes; results under concurrent cache eviction and registry changes are not compared with the sequential ones.",
  ["path.go", "get.go", "set.go", "modifier.go", "options.go"], [M("path cache and registry locks", "path.go parsePath, modifier.go")], ["all exported functions from several goroutines"], [S("path cache", "parsed paths kept between calls", "path.go"), S("registry", "modifiers by name", "modifier.go")]),
"P27": P("Text is escaped once on writing and unescaped once on reading",
  "Writing text escapes the five XML special characters and nothing else, in element and attribute position alike, and reading resolves exactly those five named entities, once; character references and unknown entities are left as written. Hence text that looks like an entity survives a round trip unchanged.",
  ["inputs", "histories"], "every text, including text that looks escaped, in element and attribute position, written and read repeatedly",
  "Tests round-trip a few strings; doubly escaped text, entity-like fragments and repeated copying of values between places are not covered.",
  ["parser.go", "builder.go", "get.go", "result.go"], [M("escape and unescape", "parser.go escapeXML, unescapeXML, extractTextContent, extractDirectTextOnly")], ["Set then Get; Get on documents with entities"]),
"P28": P("Arbitrary bytes never crash, hang, or confuse an operation",
  "Every function returns on every document, path, and value, without panicking and in bounded time, and the same call gives the same answer each time. Edits of byte strings that are not well-formed are refused as malformed, and queries on them return some result without error.",
  ["inputs"], "arbitrary and damaged byte strings as documents, paths, filters, fragments and values",
  "Fuzz targets exist but run no assertions beyond not panicking on a stored corpus; damaged documents combined with every path form, and determinism, are not covered.",
  ["parser.go", "get.go", "path.go", "filter.go", "set.go", "builder.go", "validate.go", "result.go"], [M("bounds checks in scanners", "parser.go, validate.go, path.go, filter.go")], ["all exported functions on damaged input"]),
"P29": P("Indentation only adds white space between newly created tags",
  "With an indent option, Set gives the document it gives without the option except for line breaks and indent strings placed before newly created tags, each indented once per nesting level; existing content is not reformatted, text values get no added white space, and reads give the same values.",
  ["inputs", "configurations"], "every document, path, value and indent string",
  "Tests indent one or two created levels; equality with the unindented result up to added white space is not stated for all inputs.",
  ["builder.go", "set.go", "options.go"], [M("indented creation", "builder.go buildElementPathWithDepth, createInParent, createInRoot")], ["SetWithOptions with Indent"]),
}

TECH = {
    "default": "TLA+ specification; TLC enumerates the property's bounded model, checks the property on every transition and every transition is replayed on the implementation; recorded random histories of the implementation are validated against the specification by TLC",
}
NOTE = "Exhaustive within the bounded model of spec/Models.tla (checked by TLC and replayed in full on the code); beyond it sampled histories validated against the same specification."


def main():
    pids = [p for p in PROPS if p in CHECKS]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in pids:
            q = PROPS[p]
            f.write(json.dumps({
                "id": p, "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "state": q["state"], "mechanism": q["mech"], "observe_at": q["observe"], "hook_needed": q["hook"]},
            }, ensure_ascii=False) + "\n")
    checks = []
    for p in pids:
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick ./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": c.get("technique", TECH["default"]),
                       "level": c.get("level", "model_checking"), "level_note": c.get("note", NOTE)})
    man = {"version": 1, "setup_cmd": "./setup",
           "hooks": {"guard": "none", "enable": "no hooks: the checks use the exported API of the working tree", "source_commits": []},
           "checks": checks, "not_applicable": [],
           "notes": "Specification in spec/, driver in driver/, runner in tools/. ./check --replay FILE repeats a reported violation. Known findings: KNOWN_FINDINGS.jsonl."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
