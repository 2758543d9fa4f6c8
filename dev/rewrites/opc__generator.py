import io
import itertools
import operator
import zipfile
from functools import reduce
from typing import Dict, Iterator, List, Optional, Tuple
from xml.etree import ElementTree

from .result import AasTestResult, Level

NS_CONTENT_TYPES = "{http://schemas.openxmlformats.org/package/2006/content-types}"
NS_RELATIONSHIPS = "{http://schemas.openxmlformats.org/package/2006/relationships}"
_CONTENT_TYPES = "[Content_Types].xml"


def _step(done: Tuple[str, ...], token: str) -> Tuple[str, ...]:
    if token.strip() in ("",) or token == ".":
        return done
    return done[:-1] if token == ".." else (*done, token)


def normpath(path: str) -> str:
    stripped = path.strip()
    root = "/" if stripped.startswith("/") else ""
    return root + "/".join(reduce(_step, stripped.split("/"), ()))


def splitpath(path: str) -> Tuple[str, str]:
    *head, tail = path.rsplit("/", 1)
    return (head[0] if head else "", tail)


class UnreadablePartException(Exception):
    pass


def read_part(zipfile: zipfile.ZipFile, name: str) -> bytes:
    try:
        with zipfile.open(name) as part:
            return part.read()
    except Exception as e:
        match e:
            case KeyError():
                raise
            case _:
                raise UnreadablePartException("Cannot read %s: %s" % (name, e))


def _parse_part(zipfile: zipfile.ZipFile, name: str) -> ElementTree.Element:
    with io.BytesIO(read_part(zipfile, name)) as stream:
        try:
            return ElementTree.parse(stream).getroot()
        except (ElementTree.ParseError, LookupError, ValueError) as e:
            raise UnreadablePartException(f"Invalid xml in {name}: {e}")


class Relationship:
    def __init__(self, type: str, target: str) -> None:
        self.type = type
        self.target = target
        self.sub_rels: List[Relationship] = []

    def sub_rels_by_type(self, type: str) -> List["Relationship"]:
        return list(filter(lambda rel: rel.type == type, self.sub_rels))

    def dump(self, indent=0):
        *_, suffix = self.type.split("/")
        print("{}{} [{}]".format("  " * indent, self.target, suffix))
        for sub_rel in self.sub_rels:
            sub_rel.dump(indent + 1)


def _content_type_problems(zipfile: zipfile.ZipFile) -> Iterator[str]:
    try:
        root = _parse_part(zipfile, _CONTENT_TYPES)
    except KeyError:
        yield f"{_CONTENT_TYPES} not found"
        return
    except UnreadablePartException as e:
        yield str(e)
        return
    if root.tag != (expected := NS_CONTENT_TYPES + "Types"):
        yield f"root must have tag {expected}, got {root.tag}"


def _check_content_type(zipfile: zipfile.ZipFile) -> AasTestResult:
    result = AasTestResult(f"Checking {_CONTENT_TYPES}")
    for problem in _content_type_problems(zipfile):
        result.append(AasTestResult(problem, Level.ERROR))
    return result


def _resolve(base: str, target: str) -> str:
    """targets are relative to the folder of their source, unless they start with a slash"""
    return normpath(target.removeprefix("/") if target.startswith("/") else base + target)


def _findings(
    zipfile: zipfile.ZipFile,
    element: ElementTree.Element,
    parent_rel: Relationship,
    base: str,
    visited: Dict[str, Relationship],
    deprecated_types: Dict[str, str],
) -> Iterator[AasTestResult]:
    if element.tag != f"{NS_RELATIONSHIPS}Relationship":
        yield AasTestResult(f"Invalid tag {element.tag}", Level.ERROR)
        return
    missing = [name for name in ("Type", "Target") if element.get(name) is None]
    if missing:
        yield AasTestResult(f"Attribute {missing[0]!r} is missing", Level.ERROR)
        return
    type, target = operator.itemgetter("Type", "Target")(element.attrib)

    replacement = deprecated_types.get(type)
    if replacement is not None:
        yield AasTestResult(f"Deprecated type {type}, considering as {replacement}", level=Level.WARNING)
        type = replacement

    target = _resolve(base, target)
    sub_rel = Relationship(type, target)
    parent_rel.sub_rels.append(sub_rel)
    yield AasTestResult(f"Relationship {target} is of type {type}")

    known = visited.setdefault(target, sub_rel)
    if known is not sub_rel:
        yield AasTestResult(f"Already checked {target}")
        sub_rel.sub_rels = known.sub_rels
    elif not any(name == target for name in zipfile.namelist()):
        yield AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR)
    else:
        folder, name = splitpath(target)
        sub_result = _scan_relationships(zipfile, sub_rel, folder and folder + "/", name, visited, deprecated_types)
        if sub_result is not None:
            yield sub_result


def _scan_relationships(
    zipfile: zipfile.ZipFile,
    parent_rel: Relationship,
    dir: str,
    file: str,
    visited_targets: Dict[str, Relationship],
    deprecated_types: Dict[str, str],
) -> Optional[AasTestResult]:
    try:
        root = _parse_part(zipfile, "".join((dir, "_rels/", file, ".rels")))
    except UnreadablePartException as e:
        return AasTestResult(str(e), Level.ERROR)
    except KeyError:
        return None
    if root.tag != f"{NS_RELATIONSHIPS}Relationships":
        return AasTestResult(f"Invalid root tag {root.tag}, expected {NS_RELATIONSHIPS}Relationships", Level.ERROR)
    result = AasTestResult(f"Checking relationships of {dir}{file}" if file else "Checking root relationship")
    for finding in itertools.chain.from_iterable(
        _findings(zipfile, element, parent_rel, dir, visited_targets, deprecated_types) for element in root
    ):
        result.append(finding)
    return result


def _check_relationships(
    zipfile: zipfile.ZipFile, root_rel: Relationship, deprecated_types: Dict[str, str]
) -> AasTestResult:
    result = AasTestResult("Checking relationships")
    result.append(
        _scan_relationships(zipfile, root_rel, "", "", {}, deprecated_types)
        or AasTestResult("Root relationship does not exist", Level.ERROR)
    )
    return result


def read_opc(
    zipfile: zipfile.ZipFile,
    root_rel: Relationship,
    root_result: AasTestResult,
    deprecated_types: Dict[str, str],
):
    steps = (
        lambda: _check_content_type(zipfile),
        lambda: _check_relationships(zipfile, root_rel, deprecated_types),
    )
    for step in steps:
        root_result.append(step())
        if not root_result.ok():
            break
