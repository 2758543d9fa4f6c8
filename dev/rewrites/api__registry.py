from types import ModuleType
from typing import Dict, List, Tuple

from fences.core.util import ConfusionMatrix

from .config import CheckApiConfig
from .exception import AasTestToolsException
from .http import HttpClient
from .result import AasTestResult
from .test_cases.v3_0 import api as v3_0

_ENGINES: Dict[str, ModuleType] = {"3.0": v3_0}


def supported_versions() -> Dict[str, List[str]]:
    return {version: engine.available_suites.keys() for version, engine in _ENGINES.items()}


def latest_version():
    return max(_ENGINES)


def execute_tests(client: HttpClient, conf: CheckApiConfig) -> Tuple[AasTestResult, ConfusionMatrix]:
    version = conf.version if conf.version else latest_version()
    try:
        engine = _ENGINES[version]
    except KeyError:
        raise AasTestToolsException(f"Unknown version {version}, must be one of {supported_versions()}") from None
    return engine.execute_tests(client, conf)
