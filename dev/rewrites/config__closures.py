import re
from dataclasses import dataclass
from fnmatch import fnmatchcase
from typing import Callable, List, Optional

from .exception import InvalidFilterException


class TestCaseFilter:
    FILTER_SEP = "~"
    PATTERN_SEP = ":"

    def __init__(self, filter_pattern: str):
        include, found, exclude = filter_pattern.partition(self.FILTER_SEP)
        if self.FILTER_SEP in exclude:
            raise InvalidFilterException(f"Separator {self.FILTER_SEP} must only occur once")
        self.includes = self._patterns(include)
        self.excludes = self._patterns(exclude)

    @classmethod
    def _patterns(cls, text: str) -> List[str]:
        result = []
        for pattern in text.split(cls.PATTERN_SEP):
            if not pattern or pattern.isspace():
                continue
            result.append(pattern)
        return result

    def selects(self, test_case: str) -> bool:
        included = not self.includes
        for pattern in self.includes:
            if fnmatchcase(test_case, pattern):
                included = True
                break
        if not included:
            return False
        for pattern in self.excludes:
            if fnmatchcase(test_case, pattern):
                return False
        else:
            return True


@dataclass
class CheckApiConfig:
    suite: str
    version: Optional[str] = None
    dry: bool = False
    filter: Optional[TestCaseFilter] = None
