import random, sys, copy
sys.path.insert(0, '/verif')
from checks import meta as M
S = {"Identifier": ["urn:x"], "NameType": ["nm"], "LabelType": ["lb"], "MessageTopic": ["t"], "Path": ["/a/b.pdf", "file:x"],
     "Version": ["1", "12"], "Revision": ["0"], "ContentType": ["text/plain"], "Blob": ["YQ=="], "Value": ["1", "true", "abc", "2020-01-01"], "NonEmpty": ["x"],
     "ValueIec": ["v"], "DateTime": ["2020-01-01T00:00:00Z"], "Duration": ["P1D"], "IdShort": ["idA", "idB", "idC", "a_1"]}
def val(r, t, d, opt):
    if t.startswith("["):
        return [val(r, t[1:-1], d, opt) for _ in range(r.randint(1, 2))]
    if t[0] == "@": return r.choice(S[t[1:]])
    if t[0] == "#": return r.choice(M.ENUMS[t[1:]])
    if t == "bool": return r.random() < .5
    if t == "str:lang": return r.choice(["en", "de", "EN-us"])
    if t == "str:text": return "text"
    return obj(r, t, d, opt)
def obj(r, cls, d, opt):
    if cls in M.ABSTRACT:
        c = M.ABSTRACT[cls]
        cls = r.choice(c if d < 5 else [x for x in c if x not in ("SubmodelElementCollection", "SubmodelElementList", "Entity", "Operation", "AnnotatedRelationshipElement")] )
    o = {}
    for n, t, req in M.CLASSES[cls]:
        if req or r.random() < opt / (1 + d):
            if cls == "Reference" and n == "referredSemanticId" and r.random() < .8: continue
            o[n] = val(r, t, d + 1, opt)
    if cls == "Reference" and r.random() < .9:
        if r.random() < .5:
            o["type"] = "ExternalReference"; o["keys"] = [{"type": "GlobalReference", "value": "urn:g"}]
        else:
            o["type"] = "ModelReference"; o["keys"] = [{"type": "Submodel", "value": "urn:s"}]
    if cls in M.MODEL_TYPED: o["modelType"] = cls
    return o
def mutate(r, o):
    # one random mutation
    spots = []
    def walk(x, set_, del_):
        spots.append((x, set_, del_))
        if isinstance(x, dict):
            for k in list(x):
                walk(x[k], lambda v, x=x, k=k: x.__setitem__(k, v), lambda x=x, k=k: x.pop(k))
        elif isinstance(x, list):
            for k in range(len(x)):
                walk(x[k], lambda v, x=x, k=k: x.__setitem__(k, v), lambda x=x, k=k: x.pop(k))
    walk(o, None, None)
    x, s, d = r.choice(spots)
    if s is None: return
    k = r.randint(0, 5)
    if k == 0: d()
    elif k == 1: s(r.choice([None, 1, "", [], {}, True, "xs:int", "\x00", "a" * 3000, 1.5, "en\n", " 1 "]))
    elif k == 2 and isinstance(x, dict): x["foo"] = 1
    elif k == 3 and isinstance(x, str): s(x + r.choice(["\n", " ", "1", "é", "-"]))
    elif k == 4 and isinstance(x, list): x.append(copy.deepcopy(x[0]) if x else 1)
    else: s(copy.deepcopy(r.choice(spots)[0]))
def doc(seed):
    r = random.Random(seed)
    o = obj(r, "Environment", 0, r.choice([.3, 1, 2]))
    for _ in range(r.choice([0, 0, 1, 1, 2])): mutate(r, o)
    return o
