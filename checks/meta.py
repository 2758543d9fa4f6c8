"""The AAS v3.0 metamodel (Details of the Asset Administration Shell, Part 1, v3.0), frozen as data.

Attribute types:
  "@X"    string type X (see STRINGS)       "bool"   boolean          "str:lang"/"str:text"  language string parts
  "#X"    enumeration X                     "X"      class X (abstract classes accept their concrete subclasses)
  "[T]"   non-empty list of T
Attribute = (json name, type, required)
"""

STRINGS = {
    # name: (min, max, pattern kind)
    "Identifier": (1, 2000, None),
    "NameType": (1, 128, None),
    "LabelType": (1, 64, None),
    "MessageTopic": (1, 255, None),
    "Path": (1, 2000, "uri"),
    "Version": (1, 4, "version"),
    "Revision": (1, 4, "version"),
    "ContentType": (1, 100, "mime"),
    "Blob": (1, None, None),
    "Value": (0, None, None),
    "NonEmpty": (1, None, None),
    "ValueIec": (1, 2000, None),
    "DateTime": (1, None, "datetime"),
    "Duration": (1, None, "duration"),
    "IdShort": (1, 128, "idshort"),
}

XSD = ["anyURI", "base64Binary", "boolean", "byte", "date", "dateTime", "decimal", "double", "duration", "float",
       "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth", "hexBinary", "int", "integer", "long", "negativeInteger",
       "nonNegativeInteger", "nonPositiveInteger", "positiveInteger", "short", "string", "time", "unsignedByte",
       "unsignedInt", "unsignedLong", "unsignedShort"]

KEY_TYPES = ["AnnotatedRelationshipElement", "AssetAdministrationShell", "BasicEventElement", "Blob", "Capability",
             "ConceptDescription", "DataElement", "Entity", "EventElement", "File", "FragmentReference",
             "GlobalReference", "Identifiable", "MultiLanguageProperty", "Operation", "Property", "Range", "Referable",
             "ReferenceElement", "RelationshipElement", "Submodel", "SubmodelElement", "SubmodelElementCollection",
             "SubmodelElementList"]
SME_KEYS = ["AnnotatedRelationshipElement", "BasicEventElement", "Blob", "Capability", "DataElement", "Entity",
            "EventElement", "File", "MultiLanguageProperty", "Operation", "Property", "Range", "ReferenceElement",
            "RelationshipElement", "SubmodelElement", "SubmodelElementCollection", "SubmodelElementList"]

ENUMS = {
    "ReferenceTypes": ["ExternalReference", "ModelReference"],
    "KeyTypes": KEY_TYPES,
    "ListElementType": SME_KEYS,
    "Xsd": ["xs:" + x for x in XSD],
    "ModellingKind": ["Instance", "Template"],
    "QualifierKind": ["ConceptQualifier", "TemplateQualifier", "ValueQualifier"],
    "AssetKind": ["Instance", "NotApplicable", "Type"],
    "StateOfEvent": ["off", "on"],
    "Direction": ["input", "output"],
    "EntityType": ["CoManagedEntity", "SelfManagedEntity"],
    "Iec": ["BLOB", "BOOLEAN", "DATE", "FILE", "HTML", "INTEGER_COUNT", "INTEGER_CURRENCY", "INTEGER_MEASURE", "IRDI",
            "IRI", "RATIONAL", "RATIONAL_MEASURE", "REAL_COUNT", "REAL_CURRENCY", "REAL_MEASURE", "STRING",
            "STRING_TRANSLATABLE", "TIME", "TIMESTAMP"],
}

LANG_LEN = {"LangStringNameType": 128, "LangStringTextType": 1023, "PreferredName": 255, "ShortName": 18,
            "Definition": 1023}

_SEM = [("semanticId", "Reference", False), ("supplementalSemanticIds", "[Reference]", False)]
_DS = [("embeddedDataSpecifications", "[EmbeddedDataSpecification]", False)]
_EXT = [("extensions", "[Extension]", False)]
_REF = _EXT + [("category", "@NameType", False), ("idShort", "@IdShort", False),
               ("displayName", "[LangStringNameType]", False), ("description", "[LangStringTextType]", False)]
_QUAL = [("qualifiers", "[Qualifier]", False)]
_ID = _REF + [("administration", "AdministrativeInformation", False), ("id", "@Identifier", True)]
_SME = _REF + _SEM + _QUAL + _DS
_LANG = [("language", "str:lang", True), ("text", "str:text", True)]
_RANGE_VT = [("valueType", "#Xsd", True)]

CLASSES = {
    "Environment": [("assetAdministrationShells", "[AssetAdministrationShell]", False),
                    ("submodels", "[Submodel]", False), ("conceptDescriptions", "[ConceptDescription]", False)],
    "AssetAdministrationShell": _ID + _DS + [("derivedFrom", "Reference", False),
                                             ("assetInformation", "AssetInformation", True),
                                             ("submodels", "[Reference]", False)],
    "Submodel": _ID + [("kind", "#ModellingKind", False)] + _SEM + _QUAL + _DS + [
        ("submodelElements", "[SubmodelElement]", False)],
    "ConceptDescription": _ID + _DS + [("isCaseOf", "[Reference]", False)],
    "Reference": [("type", "#ReferenceTypes", True), ("referredSemanticId", "Reference", False),
                  ("keys", "[Key]", True)],
    "Key": [("type", "#KeyTypes", True), ("value", "@Identifier", True)],
    "Extension": _SEM + [("name", "@NameType", True), ("valueType", "#Xsd", False), ("value", "@Value", False),
                         ("refersTo", "[Reference]", False)],
    "Qualifier": _SEM + [("kind", "#QualifierKind", False), ("type", "@NameType", True), ("valueType", "#Xsd", True),
                         ("value", "@Value", False), ("valueId", "Reference", False)],
    "AdministrativeInformation": _DS + [("version", "@Version", False), ("revision", "@Revision", False),
                                        ("creator", "Reference", False), ("templateId", "@Identifier", False)],
    "EmbeddedDataSpecification": [("dataSpecification", "Reference", True),
                                  ("dataSpecificationContent", "DataSpecificationContent", True)],
    "DataSpecificationIec61360": [("preferredName", "[PreferredName]", True), ("shortName", "[ShortName]", False),
                                  ("unit", "@NonEmpty", False), ("unitId", "Reference", False),
                                  ("sourceOfDefinition", "@NonEmpty", False), ("symbol", "@NonEmpty", False),
                                  ("dataType", "#Iec", False), ("definition", "[Definition]", False),
                                  ("valueFormat", "@NonEmpty", False), ("valueList", "ValueList", False),
                                  ("value", "@ValueIec", False), ("levelType", "LevelType", False)],
    "ValueList": [("valueReferencePairs", "[ValueReferencePair]", True)],
    "ValueReferencePair": [("value", "@ValueIec", True), ("valueId", "Reference", True)],
    "LevelType": [("min", "bool", True), ("nom", "bool", True), ("typ", "bool", True), ("max", "bool", True)],
    "AssetInformation": [("assetKind", "#AssetKind", True), ("globalAssetId", "@Identifier", False),
                         ("specificAssetIds", "[SpecificAssetId]", False), ("assetType", "@Identifier", False),
                         ("defaultThumbnail", "Resource", False)],
    "SpecificAssetId": _SEM + [("name", "@LabelType", True), ("value", "@Identifier", True),
                               ("externalSubjectId", "Reference", False)],
    "Resource": [("path", "@Path", True), ("contentType", "@ContentType", False)],
    "Property": _SME + _RANGE_VT + [("value", "@Value", False), ("valueId", "Reference", False)],
    "MultiLanguageProperty": _SME + [("value", "[LangStringTextType]", False), ("valueId", "Reference", False)],
    "Range": _SME + _RANGE_VT + [("min", "@Value", False), ("max", "@Value", False)],
    "ReferenceElement": _SME + [("value", "Reference", False)],
    "Blob": _SME + [("value", "@Blob", False), ("contentType", "@ContentType", True)],
    "File": _SME + [("value", "@Path", False), ("contentType", "@ContentType", True)],
    "RelationshipElement": _SME + [("first", "Reference", True), ("second", "Reference", True)],
    "AnnotatedRelationshipElement": _SME + [("first", "Reference", True), ("second", "Reference", True),
                                            ("annotations", "[DataElement]", False)],
    "Entity": _SME + [("statements", "[SubmodelElement]", False), ("entityType", "#EntityType", True),
                      ("globalAssetId", "@Identifier", False), ("specificAssetIds", "[SpecificAssetId]", False)],
    "BasicEventElement": _SME + [("observed", "Reference", True), ("direction", "#Direction", True),
                                 ("state", "#StateOfEvent", True), ("messageTopic", "@MessageTopic", False),
                                 ("messageBroker", "Reference", False), ("lastUpdate", "@DateTime", False),
                                 ("minInterval", "@Duration", False), ("maxInterval", "@Duration", False)],
    "Operation": _SME + [("inputVariables", "[OperationVariable]", False),
                         ("outputVariables", "[OperationVariable]", False),
                         ("inoutputVariables", "[OperationVariable]", False)],
    "OperationVariable": [("value", "SubmodelElement", True)],
    "Capability": _SME,
    "SubmodelElementCollection": _SME + [("value", "[SubmodelElement]", False)],
    "SubmodelElementList": _SME + [("orderRelevant", "bool", False), ("semanticIdListElement", "Reference", False),
                                   ("typeValueListElement", "#ListElementType", True),
                                   ("valueTypeListElement", "#Xsd", False), ("value", "[SubmodelElement]", False)],
}
for _c in LANG_LEN:
    CLASSES[_c] = _LANG

DATA_ELEMENTS = ["Property", "MultiLanguageProperty", "Range", "ReferenceElement", "Blob", "File"]
SUBMODEL_ELEMENTS = DATA_ELEMENTS + ["RelationshipElement", "AnnotatedRelationshipElement", "Entity",
                                     "BasicEventElement", "Operation", "Capability", "SubmodelElementCollection",
                                     "SubmodelElementList"]
ABSTRACT = {"SubmodelElement": SUBMODEL_ELEMENTS, "DataElement": DATA_ELEMENTS,
            "DataSpecificationContent": ["DataSpecificationIec61360"]}
# classes whose JSON form carries a modelType and where it selects / is checked against the class
IDENTIFIABLE = ["AssetAdministrationShell", "Submodel", "ConceptDescription"]
MODEL_TYPED = set(IDENTIFIABLE) | set(SUBMODEL_ELEMENTS) | {"DataSpecificationIec61360"}


def attr(cls, name):
    for a in CLASSES[cls]:
        if a[0] == name:
            return a
    raise KeyError((cls, name))
