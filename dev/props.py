#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "aas_test_engines/"
V = P + "test_cases/v3_0/"
TECH = "abstract interpretation of the source (trace partitioning over regular-language, interval and shape domains)"
NOTE = ("All abstract paths of the interpreted source are enumerated for each input class; no code of the repository is executed and no solver is used. "
        "Trusted: the analyser's semantics of Python and its models of the standard library, and the specification tables in /verif/checks. ")
props = []
na = []


def prop(id, title, statement, over, text, tests, files, mech, note="", tech=TECH, observe=None):
    assert len(title) <= 80, (id, len(title))
    props.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                       anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [])), note, tech))


prop("C01", "A verdict covers every entry below it and nothing recorded is lost",
     "The verdict of a result is failing exactly when some entry anywhere below it is of level ERROR or CRITICAL, and the reported level of every entry is the highest level in its subtree. "
     "Every message recorded while a check runs appears exactly once, in order and below the step that was running; aborting a step or an exception in a guarded step ends only that step and leaves an entry of level ERROR or above. "
     "Converting a result to its dictionary form and back changes nothing.",
     ["inputs", "histories"], "every result tree, every sequence of opening, writing, aborting and raising in nested steps",
     "Unit tests build a few fixed trees; the aggregation must hold for every tree and every way of leaving a step.",
     [P + "result.py"], [("result tree and level propagation", P + "result.py"), ("nested contexts with abort", P + "result.py")])
prop("C02", "Every rendering of a result shows every entry, in order, nested and escaped",
     "The text, HTML, JSON (dictionary) and console renderings of a result contain every entry exactly once, in document order, placed below its parent, with its message and a marking that tells its level. "
     "Text originating from checked files or servers is never interpreted as markup, failing entries are visible without interaction in the HTML report and all others can be expanded.",
     ["inputs"], "every result tree and every message text",
     "The tests render one small tree and compare nothing about arbitrary message contents.",
     [P + "result.py", P + "data/template.html"], [("to_lines / to_html / dump", P + "result.py")])
prop("C03", "The command line applies its options and exits 0 exactly for compliant subjects",
     "Checking a file or a server from the command line ends with status 0 exactly when the verdict for that subject, in the requested format and model type, is passing, and prints that result completely in the requested output format. "
     "Server checks use the given host, headers, certificate setting, path prefix, suite, version, filter and dry-run setting for every request. "
     "Invalid invocations end with a non-zero status without sending requests or writing files, and generating files never writes into an existing path.",
     ["inputs", "configurations"], "every command line and every subject", "The tests start the command line for a few fixed files and options only.",
     [P + "__main__.py"], [("argument parsing and exit status", P + "__main__.py")])
prop("C05", "JSON documents are accepted exactly when structurally valid",
     "For every class and attribute of the AAS v3.0 metamodel, a JSON document with a missing required attribute, an unknown attribute, a value of the wrong JSON kind, an empty list, an unknown enumeration literal or a missing or wrong modelType, at any place of the document, gets a failing verdict. "
     "A document that has only allowed attributes with valid values, including every optional one, passes.",
     ["inputs"], "every JSON document, for every class, attribute and nesting place of the metamodel",
     "The tests check a handful of sample files; the guarantee ranges over every class, attribute and value.",
     [V + "model.py", V + "parse.py", V + "adapter.py", P + "reflect.py"], [("reflection-driven parser", P + "reflect.py"), ("metamodel classes", V + "model.py")])
prop("C06", "XML documents are judged by the same rules as JSON, plus XML structure",
     "For every class and attribute of the metamodel, the XML form of a document is accepted exactly when the corresponding JSON form is valid. "
     "Unknown, duplicate, missing or misnamed child elements, elements outside the AAS namespace, stray character data, child elements inside text content, empty lists and non-XSD booleans get a failing verdict.",
     ["inputs"], "every XML document, for every class, attribute and nesting place of the metamodel",
     "The tests check a handful of XML files.",
     [V + "adapter.py", V + "parse.py", V + "model.py", P + "file.py"], [("XML adapter", V + "adapter.py")])
prop("C07", "String attributes obey their length, character set and pattern everywhere",
     "Every constrained string attribute of the metamodel (identifiers, idShort, names, versions, paths, content types, language tags, value types) is accepted exactly when its length is within the specified bounds, all its characters are allowed in XML, and it matches the specified pattern.",
     ["inputs"], "every string as value of every string attribute of the metamodel",
     "Tests sample a few strings per pattern; the boundary and character set have to hold for all strings.",
     [V + "model.py", P + "reflect.py", V + "parse.py"], [("string formats with min_length, max_length and pattern", V + "model.py")])
prop("C08", "Typed values are accepted exactly when in the lexical space of their type",
     "For each of the XSD data types a value of a property, range, qualifier or extension is accepted exactly when it is in the lexical space of the declared type and, for bounded numeric types and dates, within its value range. "
     "The check never fails on a value for any other reason, whatever characters or length it has.",
     ["inputs"], "every string, for each XSD data type and each attribute with a declared value type",
     "Tests sample about ten values per type.",
     [P + "data_types.py", V + "model.py"], [("validators per data type", P + "data_types.py")])
prop("C09", "Reference key chains are accepted exactly as AASd-121 to AASd-128 allow",
     "A reference is accepted exactly when the order and kinds of its keys follow the constraints AASd-121 to AASd-128, for external and model references alike, for any number of keys and any key values.",
     ["inputs"], "every reference with every chain of key types", "Tests cover single chains per constraint.",
     [V + "model.py"], [("constraint methods of references", V + "model.py")])
prop("C10", "The structural AASd constraints are enforced, each under its own name",
     "Each structural constraint of the metamodel (duplicate idShorts, list element types and value types, operation variables, entity types, extensions, administrative information, qualifiers, asset identification, supplemental semantic ids, template kinds and the like) fails exactly the documents violating it, and the violation is reported under the name of that constraint.",
     ["inputs"], "every document containing the constrained classes, any combination of the attributes involved",
     "Tests have one or two documents per constraint; many constraints have none.",
     [V + "model.py"], [("constraint methods of the metamodel classes", V + "model.py")])
prop("C11", "Constraints apply at every place a constrained object can occur",
     "A violation of any constraint is reported wherever in the document the constrained object occurs, at any nesting depth and list position, in JSON and XML alike. "
     "Independent violations in different places of one document are all reported, and valid siblings neither hide nor cause a violation.",
     ["inputs"], "every place of the metamodel that can contain the constrained class, every list position",
     "Tests place each violation at one fixed position.",
     [V + "model.py", V + "parse.py"], [("recursive constraint check", V + "parse.py")])
prop("C12", "IEC 61360 content obeys the AASc-3a constraints",
     "Data specification content of concept descriptions is accepted exactly when it satisfies AASc-3a-002 and AASc-3a-004 to AASc-3a-010, for every combination of category, data type, unit, unit id, value, value list and languages, and every violation is reported under the name of its constraint.",
     ["inputs"], "every combination of category, data type, unit, value and language tags",
     "Tests contain no data specification for most of these constraints.",
     [V + "model.py"], [("constraints of the data specification", V + "model.py")])

exec(open(os.path.join(ROOT, "dev", "props_more.py")).read()) if os.path.exists(os.path.join(ROOT, "dev", "props_more.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, _, _ in sorted(props, key=lambda p: p[0]["id"]):
        f.write(json.dumps(d) + "\n")
nas = {n["property"] for n in na}
man = {
    "version": 1,
    "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 8)'",
    "checks": [dict(property=d["id"], quick_cmd=f"python3 run.py {d['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {d['id']} thorough",
                    technique=t, level="other", level_note=NOTE + n)
               for d, n, t in sorted(props, key=lambda p: p[0]["id"]) if d["id"] not in nas],
    "not_applicable": na,
    "notes": "Checks need only the Python standard library and /repo's source; see DESIGN.md. Known and repaired defects: known_findings.json.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
