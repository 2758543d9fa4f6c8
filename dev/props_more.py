prop("C13", "AASX packages are judged by all their relationships and specification parts",
     "A package fails when its content types part, its root relationships or any reachable relationship part is missing its required form or cannot be read, when a reachable relationship entry lacks type or target or names a part that is not in the package, or when a reachable specification part is unreadable or fails the check of its format, whatever else the package contains. "
     "Otherwise it passes; deprecated relationship types, specifications of unknown file type and missing or several origins and missing specifications are warned about. "
     "Relationship targets are resolved against the folder of their source part or the package root, parts that are referenced repeatedly or cyclically are still followed, and no specification is skipped.",
     ["inputs"], "every package: any graph of relationships between any parts, any contents",
     "Tests check a few fixed packages.",
     [P + "opc.py", P + "file.py"], [("relationship scan", P + "opc.py"), ("package check", P + "file.py")])
prop("C19", "HTTP requests carry exactly the configured host, path, query, headers and body",
     "Every request is sent with its method to the configured host, followed by the path prefixes of the client and the request's path. A configured prefix is removed only at the start and only at a segment boundary. All query parameters that are set are sent percent-encoded (booleans as true or false), unset ones are not; the body is sent as JSON; the request's and the additional headers (which take precedence) and the certificate setting are applied. "
     "Deriving a client for a sub path keeps class, prefixes and all settings and leaves the original unchanged. Identifiers are encoded as base64url without padding and decode to the same text.",
     ["inputs", "configurations"], "every client configuration, path, identifier, query, header and body",
     "Tests send a few fixed requests to a fixed host.",
     [P + "http.py", V + "api.py"], [("client and request", P + "http.py")])
prop("C20", "A filter selects exactly the operations its patterns describe",
     "An operation is tested exactly when there is no inclusion pattern or one matches its name, and no exclusion pattern matches it. Patterns are shell-style globs separated by ':', exclusions follow a single '~', they match the whole name and case-sensitively, and blank patterns count as absent. "
     "More than one '~' is rejected with InvalidFilterException. Operations that are not selected are neither reported nor cause requests of their own.",
     ["inputs", "configurations"], "every filter expression and every operation name",
     "Tests try a few filters on a few names.",
     [P + "config.py", P + "api.py"], [("filter", P + "config.py")])
prop("C04", "A file check always ends with a verdict; unreadable content is never compliant",
     "Whatever bytes a JSON, XML or AASX file contains (malformed, truncated, wrongly encoded, corrupted or encrypted archives, missing or garbled parts, any JSON value or element in any place), the check returns a result and raises nothing, and content that cannot be read or parsed gets a failing verdict. "
     "The verdict on a file is the verdict on its parsed content.",
     ["inputs", "fault_sequences"], "every file content and every failure of the readers it can cause",
     "Tests contain a handful of malformed files.",
     [P + "file.py", P + "opc.py", V + "parse.py", V + "adapter.py"], [("file entry points", P + "file.py"), ("part reading", P + "opc.py")])
prop("C23", "Exactly the announced versions and suites are accepted",
     "The latest version is announced and is the default of every check. Every check of JSON, XML or AASX content accepts the announced versions and raises AasTestToolsException for any other version instead of a verdict. "
     "A server check accepts the announced versions and suites, the four documented ones among them, and raises AasTestToolsException for every other without sending a request.",
     ["inputs", "configurations"], "every version and suite name", "Tests use the default version.",
     [P + "file.py", P + "api.py"], [("version check", P + "file.py"), ("version check", P + "api.py")])
prop("C16", "No text makes a pattern check hang",
     "Every pattern that a value, string attribute or name of a checked document is matched against decides every text without exponential backtracking: "
     "the number of ways in which the matcher can proceed grows at most polynomially with the length of the text, whatever the text is.",
     ["inputs"], "every text of any length", "Tests match a few short texts; exponential matching only shows for crafted ones.",
     [P + "data_types.py", P + "reflect.py"], [("lexical spaces", P + "data_types.py"), ("string formats", P + "reflect.py")])
prop("C17", "Checks in different threads do not affect each other",
     "File and server checks that run at the same time in different threads of one process give the results they give alone, however their steps are interleaved: "
     "every message is recorded below the step of its own thread, steps opened, left or aborted in one thread open, leave or abort nothing in another, and recording outside of any step of the own thread is rejected.",
     ["schedules", "inputs"], "every interleaving of threads", "Tests run one check at a time.",
     [P + "result.py"], [("context stack", P + "result.py"), ("server checks", V + "api.py")])
prop("C24", "Reflection reproduces declared types exactly; string formats decide every string",
     "Reflecting a dataclass gives every field once and in order, inherited ones included, as required exactly when it is not Optional, with its declared type through enumerations, string formats, possibly empty and non-empty lists, forward references and cycles; its subclasses are exactly the concrete transitive ones and only classes marked themselves are abstract. "
     "Excluded fields become constants of constructed objects, forced names are kept, lookup by name finds the unique class or raises ValueError, and unsupported declarations are rejected. "
     "A string format accepts exactly the strings within its length bounds, XML character set and pattern and keeps them unchanged.",
     ["inputs"], "every combination of declarations the package supports and every string",
     "Tests reflect a few classes.",
     [P + "reflect.py"], [("class and function reflection", P + "reflect.py"), ("string formats", P + "reflect.py")])
prop("C21", "Checks leave no trace: inputs, later checks and the system are unaffected",
     "A check leaves the document, element tree, package, client and configuration it is given as they were, judges the content they have now, and gives the same result whatever was checked before, also after failing, unreadable or crashing checks and after the caller changed an earlier result. "
     "File checks write nothing, open no other file and send nothing; repeating a server check sends the same requests; a dry run sends none.",
     ["histories", "inputs"], "every sequence of checks", "Tests check each document once, in one order.",
     [P + "result.py", P + "file.py", P + "reflect.py", P + "http.py", P + "config.py", V + "parse.py"], [("context stack", P + "result.py"), ("file entry points", P + "file.py"), ("server checks", V + "api.py")])
prop("C15", "A server check passes conforming servers and fails deviating ones",
     "For each of the four profiles, a server that answers every request as specified passes every operation. An operation fails when the server answers one of its requests with another status than specified, with something that is not JSON, with JSON that lacks the specified structure, accepts invalid arguments, ignores limits, filters or cursors, or returns another entity than requested. "
     "The failure is reported at that operation, is counted in the summary and leaves the verdicts on the other operations unchanged; a server that cannot be reached fails.",
     ["inputs", "fault_sequences"], "every response of the server to every request of every operation",
     "Tests run the server checks only dry, without any response.",
     [V + "api.py", V + "interfaces/shared.py", P + "http.py", P + "result.py"], [("server checks", V + "api.py"), ("decoding of responses", V + "interfaces/shared.py"), ("request", P + "http.py")])
prop("C22", "A server check always ends with a verdict, whatever the server answers",
     "Whatever a server answers to any request of a check (any status, any body, text that is not JSON, empty pages, unusual but valid content such as missing shells, submodels or optional attributes) and whenever the connection fails, the check returns a report and raises nothing. "
     "A failed connection gets a failing verdict and the remaining operations are still tested.",
     ["inputs", "fault_sequences"], "every response and every connection failure at every request of every operation",
     "Tests run the server checks only dry, without any response.",
     [V + "api.py", V + "interfaces/shared.py", P + "result.py"], [("server checks", V + "api.py"), ("context manager", P + "result.py")])
prop("C14", "Submodels of supported templates are checked for exactly the template's fields",
     "A submodel whose semantic id is that of a supported template (contact information, digital nameplate) passes exactly when each mandatory field is present, no single field is repeated, and each field, at any depth, is an element of the template's kind with a value of its type or value list; otherwise the report names the field. "
     "Elements and submodels without or with another semantic id are not judged by a template, every submodel of an environment is judged, and the verdict is the same in JSON, XML and AASX. Exactly the supported templates are announced.",
     ["inputs"], "every field of every template, every text and literal, every combination of one deviation with a place",
     "Tests contain one or two nameplate files.",
     [P + "file.py", V + "parse_submodel.py", V + "submodel_templates.py", P + "reflect.py"], [("template check", V + "parse_submodel.py"), ("reflection", P + "reflect.py")])
prop("C18", "Time and memory of a check grow in proportion to the checked content",
     "Checking a file or a server answer takes time and memory proportional to the size of its content, so that content of twice the size takes about twice as long.",
     ["inputs"], "every size and shape of content", "Tests use small documents.",
     [P + "file.py", V + "parse.py"], [("parsing and constraint checks", V + "parse.py")])
na.append(dict(property="C18", reason="quantifies over run time and memory of the interpreter and the libraries (json, xml, zip); no static cost bound is in reach. The part that is decidable from the source, exponential matching of patterns, is C16."))
