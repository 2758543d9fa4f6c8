import functools
import io
import json
import zipfile as zip_
from contextlib import closing
from typing import Any, Callable, Dict, List, Optional, TextIO, Union
from xml.etree import ElementTree

from . import opc
from .exception import AasTestToolsException
from .opc import Relationship, UnreadablePartException
from .result import AasTestResult, Level
from .test_cases.v3_0 import json_to_obj, xml_to_obj
from .test_cases.v3_0.submodel_templates import supported_templates

JSON = Union[str, int, float, bool, None, Dict[str, Any], List[Any]]

_DEFAULT_VERSION = "3.0"
_TOO_DEEP = "Data is nested too deeply to be checked"


def supported_versions() -> Dict[str, List[str]]:
    return dict([(_DEFAULT_VERSION, supported_templates())])


def latest_version():
    return _DEFAULT_VERSION


def _check_version(version: str):
    supported = supported_versions()
    if version in supported:
        return
    raise AasTestToolsException(f"Unknown version {version}, must be one of {supported}")


def _guarded(check: Callable) -> Callable:
    """Turns excessive nesting into a verdict"""

    @functools.wraps(check)
    def wrapper(*args, **kwargs):
        try:
            return check(*args, **kwargs)
        except RecursionError:
            return AasTestResult(_TOO_DEEP, Level.CRITICAL)

    return wrapper


@_guarded
def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
    _check_version(version)
    return json_to_obj(data, model_type)[0]


@_guarded
def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
    try:
        data = json.loads(file.read())
    except ValueError as e:
        return AasTestResult("Invalid JSON: " + str(e), Level.ERROR)
    return check_json_data(data, version, model_type)


@_guarded
def check_xml_data(
    data: ElementTree, version: str = _DEFAULT_VERSION, model_type: str = "Environment"
) -> AasTestResult:
    _check_version(version)
    return xml_to_obj(data, model_type)[0]


def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
    try:
        data = ElementTree.XML(file.read())
    except (ElementTree.ParseError, LookupError, ValueError) as e:
        return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
    return check_xml_data(data, version, model_type)


_RELATIONSHIPS = "admin-shell.io/aasx/relationships/"
TYPE_AASX_ORIGIN, TYPE_AASX_SPEC, TYPE_AASX_SUPPL = (f"http://{_RELATIONSHIPS}{i}" for i in ("aasx-origin", "aas-spec", "aas-suppl"))
DEPRECATED_TYPES = {
    new.replace("http://", "http://www.", 1): new for new in (TYPE_AASX_ORIGIN, TYPE_AASX_SPEC, TYPE_AASX_SUPPL)
}
TYPE_THUMBNAIL = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"

_CHECKS = {".xml": check_xml_file, ".json": check_json_file}


def _check_content(target: str, content: bytes, version: str) -> AasTestResult:
    for suffix, check in _CHECKS.items():
        if target[-len(suffix):] == suffix:
            with closing(io.BytesIO(content)) as f:
                return check(f, version)
    return AasTestResult("Unknown filetype", Level.WARNING)


def _check_spec(package: zip_.ZipFile, target: str, version: str) -> AasTestResult:
    result = AasTestResult("Checking %s" % target)
    try:
        content = opc.read_part(package, target)
    except KeyError:
        outcome = AasTestResult("File does not exist", Level.ERROR)
    except UnreadablePartException as e:
        outcome = AasTestResult(str(e), Level.ERROR)
    else:
        outcome = _check_content(target, content, version)
    result.append(outcome)
    return result


def _check_files(package: zip_.ZipFile, root_rel: Relationship, version: str) -> AasTestResult:
    result = AasTestResult("Checking files")
    origins = root_rel.sub_rels_by_type(TYPE_AASX_ORIGIN)
    n = len(origins)
    if not n == 1:
        result.append(AasTestResult(f"Expected exactly one aas origin, but found {n}", level=Level.WARNING))
    for specs in map(lambda origin: origin.sub_rels_by_type(TYPE_AASX_SPEC), origins):
        if len(specs) == 0:
            result.append(AasTestResult("No aas spec found", level=Level.WARNING))
            continue
        for spec in specs:
            result.append(_check_spec(package, spec.target, version))
    return result


def check_aasx_data(zipfile: zip_.ZipFile, version: str = _DEFAULT_VERSION) -> AasTestResult:
    _check_version(version)
    result, root_rel = AasTestResult("Checking AASX package"), Relationship("ROOT", "/")
    opc.read_opc(zipfile, root_rel, result, DEPRECATED_TYPES)
    if result.ok():
        result.append(_check_files(zipfile, root_rel, version))
    return result


def check_aasx_file(file: TextIO, version: str = _DEFAULT_VERSION) -> AasTestResult:
    try:
        package = zip_.ZipFile(file)
    except (zip_.BadZipFile, NotImplementedError, ValueError) as e:
        return AasTestResult(f"Cannot read: {e}", level=Level.ERROR)
    else:
        return check_aasx_data(package, version)
