from collections import defaultdict
from dataclasses import dataclass, field
from typing import Callable, Dict, Iterable, List, NamedTuple, Optional, Tuple
import posixpath
import zipfile
from xml.etree import ElementTree

from .result import AasTestResult, Level

_BASE = "http://schemas.openxmlformats.org/package/2006"
NS_CONTENT_TYPES = "{%s/content-types}" % _BASE
NS_RELATIONSHIPS = "{%s/relationships}" % _BASE


def _tokens(path: str) -> Iterable[str]:
    return (t for t in path.split("/") if t.strip() and t != ".")


def normpath(path: str) -> str:
    path = path.strip()
    if not path:
        return ""
    stack: List[str] = []
    for token in _tokens(path):
        if token != "..":
            stack.append(token)
        elif stack:
            del stack[-1]
    joined = "/".join(stack)
    return f"/{joined}" if path[0] == "/" else joined


def splitpath(path: str) -> Tuple[str, str]:
    idx = path.rfind("/")
    return ("", path) if idx < 0 else (path[:idx], path[idx + 1:])


class UnreadablePartException(Exception):
    pass


def read_part(zipfile: zipfile.ZipFile, name: str) -> bytes:
    try:
        return zipfile.read(name)
    except Exception as e:
        if isinstance(e, KeyError):
            raise
        raise UnreadablePartException(f"Cannot read {name}: {e}") from e


def _parse_part(zipfile: zipfile.ZipFile, name: str) -> ElementTree.Element:
    content = read_part(zipfile, name)
    try:
        root = ElementTree.fromstring(content)
    except (LookupError, ValueError) as e:
        raise UnreadablePartException(f"Invalid xml in {name}: {e}")
    except ElementTree.ParseError as e:
        raise UnreadablePartException(f"Invalid xml in {name}: {e}")
    else:
        return root


@dataclass
class Relationship:
    type: str
    target: str
    sub_rels: List["Relationship"] = field(default_factory=list)

    def sub_rels_by_type(self, type: str) -> List["Relationship"]:
        return list(filter(lambda rel: rel.type == type, self.sub_rels))

    def dump(self, indent=0):
        *_, type_suffix = self.type.split("/")
        print("  " * indent + f"{self.target} [{type_suffix}]")
        for sub_rel in self.sub_rels:
            sub_rel.dump(indent + 1)


def _error(message: str) -> AasTestResult:
    return AasTestResult(message, Level.ERROR)


def _check_content_type(zipfile: zipfile.ZipFile) -> AasTestResult:
    name = "[Content_Types].xml"
    result = AasTestResult(f"Checking {name}")
    try:
        tag = _parse_part(zipfile, name).tag
    except KeyError:
        result.append(_error(f"{name} not found"))
        return result
    except UnreadablePartException as e:
        result.append(_error(str(e)))
        return result
    if (expected := NS_CONTENT_TYPES + "Types") != tag:
        result.append(_error(f"root must have tag {expected}, got {tag}"))
    return result


class _Scanner:
    """Follows the relationships of a package depth first"""

    def __init__(self, package: zipfile.ZipFile, deprecated_types: Dict[str, str]) -> None:
        self._package = package
        self._names = frozenset(package.namelist())
        self._deprecated = deprecated_types
        self._visited: Dict[str, Relationship] = {}

    def _resolve(self, folder: str, target: str) -> str:
        return normpath(target[1:] if target.startswith("/") else folder + target)

    def _entry(self, result: AasTestResult, parent: Relationship, folder: str, rel: ElementTree.Element) -> None:
        if rel.tag != f"{NS_RELATIONSHIPS}Relationship":
            result.append(_error(f"Invalid tag {rel.tag}"))
            return
        for attribute in ("Type", "Target"):
            if attribute not in rel.attrib:
                result.append(_error(f"Attribute '{attribute}' is missing"))
                return
        type_, target = rel.attrib["Type"], rel.get("Target")
        new_type = self._deprecated.get(type_)
        if new_type is not None:
            result.append(AasTestResult(f"Deprecated type {type_}, considering as {new_type}", level=Level.WARNING))
            type_ = new_type
        target = self._resolve(folder, target)
        child = Relationship(type_, target)
        result.append(AasTestResult(f"Relationship {child.target} is of type {child.type}", Level.INFO))
        parent.sub_rels.append(child)
        known = self._visited.setdefault(target, child)
        if known is not child:
            result.append(AasTestResult(f"Already checked {target}", Level.INFO))
            child.sub_rels = known.sub_rels
        elif target not in self._names:
            result.append(_error(f"Relationship has non-existing target {target}"))
        else:
            head, tail = splitpath(target)
            nested = self.scan(child, f"{head}/" if head else "", tail)
            if nested is not None:
                result.append(nested)

    def scan(self, parent: Relationship, folder: str = "", name: str = "") -> Optional[AasTestResult]:
        try:
            root = _parse_part(self._package, f"{folder}_rels/{name}.rels")
        except KeyError:
            return None
        except UnreadablePartException as e:
            return _error(str(e))
        expected = f"{NS_RELATIONSHIPS}Relationships"
        if not root.tag == expected:
            return _error(f"Invalid root tag {root.tag}, expected {expected}")
        result = AasTestResult(f"Checking relationships of {folder}{name}" if name else "Checking root relationship")
        for rel in root:
            self._entry(result, parent, folder, rel)
        return result


def _check_relationships(
    zipfile: zipfile.ZipFile, root_rel: Relationship, deprecated_types: Dict[str, str]
) -> AasTestResult:
    result = AasTestResult("Checking relationships")
    scanned = _Scanner(zipfile, deprecated_types).scan(root_rel)
    result.append(_error("Root relationship does not exist") if scanned is None else scanned)
    return result


def read_opc(
    zipfile: zipfile.ZipFile,
    root_rel: Relationship,
    root_result: AasTestResult,
    deprecated_types: Dict[str, str],
):
    steps: List[Callable[[], AasTestResult]] = [
        lambda: _check_content_type(zipfile),
        lambda: _check_relationships(zipfile, root_rel, deprecated_types),
    ]
    for step in steps:
        root_result.append(step())
        if not root_result.ok():
            break
