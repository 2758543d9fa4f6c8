"""development-time: freeze the AAS v3.0 metamodel (from the reference SDK aas_core3) as a table."""
import inspect, typing, enum, json, re
import aas_core3.types as T
import aas_core3.stringification as S
out = {"enums": {}, "classes": {}}
for n, c in vars(T).items():
    if isinstance(c, type) and issubclass(c, enum.Enum) and c.__module__ == T.__name__ and n != "ModelType":
        out["enums"][n] = [m.value for m in c]
def camel(s):
    p = s.rstrip("_").split("_")
    return p[0] + "".join(x.capitalize() if not x.isupper() else x for x in p[1:])
src = inspect.getsource(__import__("aas_core3.jsonization", fromlist=["x"]))
for n, c in vars(T).items():
    if not (isinstance(c, type) and issubclass(c, T.Class)) or c is T.Class:
        continue
    abstract = inspect.isabstract(c)
    props = []
    init = c.__dict__.get("__init__")
    if init is None:
        for b in c.__mro__:
            if "__init__" in b.__dict__ and b is not object:
                init = b.__dict__["__init__"]; break
    if init is not None:
        hints = typing.get_type_hints(init, vars(T))
        for p in inspect.signature(init).parameters.values():
            if p.name == "self": continue
            t = hints[p.name]
            req = p.default is inspect._empty
            if typing.get_origin(t) is typing.Union:
                a = [x for x in typing.get_args(t) if x is not type(None)]
                t = a[0]
            lst = False
            if typing.get_origin(t) is list:
                lst = True
                t = typing.get_args(t)[0]
            tn = t.__name__
            # json name from jsonization
            props.append({"py": p.name, "type": tn, "list": lst, "required": req})
    out["classes"][n] = {"abstract": abstract, "bases": [b.__name__ for b in c.__mro__[1:] if issubclass(b, T.Class) and b is not T.Class], "props": props}
# json names : parse jsonization's transformer  jsonable['xxx'] ... that.yyy
m = {}
for cls, body in re.findall(r"def transform_(\w+)\(.*?\)(.*?)return jsonable", src, re.S):
    for a in re.finditer(r"jsonable\['(\w+)'\]\s*=\s*[^=]*?that\.(\w+)", body, re.S):
        pass
    for j, p in re.findall(r"jsonable\['(\w+)'\]\s*=\s*\(?[^']*?that\.(\w+)", body, re.S):
        m[p] = j
for c in out["classes"].values():
    for p in c["props"]:
        p["name"] = m.get(p["py"], "?" + camel(p["py"]))
json.dump(out, open("/verif/dev/metamodel_raw.json", "w"), indent=1)
for n, c in out["classes"].items():
    print(n, "ABSTRACT" if c["abstract"] else "", c["bases"])
    for p in c["props"]:
        print("     ", p["name"], ("[" + p["type"] + "]") if p["list"] else p["type"], "req" if p["required"] else "")
print(out["enums"].keys())
