"""Results of tests"""
from __future__ import annotations
from contextlib import suppress
from dataclasses import dataclass, field
from enum import IntEnum, Enum, unique
from functools import reduce
from html import escape
from pathlib import Path
import threading
from typing import Any, Dict, Final, Iterator, List, Optional, TypeVar, Union

T = TypeVar("T")

script_dir = str(Path(__file__).resolve().parent)
_TEMPLATE: Final = Path(script_dir) / "data" / "template.html"
_PLACEHOLDER: Final[str] = "<!-- CONTENT -->"
_RESET = "\033[0m"
_CODES = (92, 93, 91, 94)


@unique
class Level(Enum):
    INFO = 0
    WARNING = 1
    ERROR = 2
    CRITICAL = 3

    def __or__(self, other: Level) -> Level:
        return self if self.value >= other.value else other

    @property
    def css(self) -> str:
        return self.name.lower()

    def color(self) -> str:
        return f"\033[{_CODES[self.value]}m"


@dataclass(eq=False, repr=False)
class AasTestResult:
    message: str
    level: Level = Level.INFO
    sub_results: List[AasTestResult] = field(default_factory=list, init=False)

    def __post_init__(self) -> None:
        assert isinstance(self.level, Level)

    def append(self, result: AasTestResult) -> None:
        self.sub_results += [result]
        self.level |= result.level

    def ok(self) -> bool:
        return self.level.value < Level.ERROR.value

    def dump(self) -> None:
        """Outputs the result to console"""
        print(*self.to_lines(), sep="\n")

    def to_lines(self, indent: int = 0, path: str = "") -> Iterator[str]:
        pending = [(self, indent)]
        while pending:
            node, depth = pending.pop()
            yield "".join(("   " * depth, node.level.color(), node.message, _RESET))
            pending.extend((child, depth + 1) for child in reversed(node.sub_results))

    def _html_parts(self, level: int) -> Iterator[str]:
        msg, cls, failed = escape(self.message), self.level.css, not self.ok()
        yield "<div>\n"
        match self.sub_results:
            case []:
                yield f'<div class="{cls}">{msg}</div>\n'
            case children:
                yield '<div class="{}">{}<span class="caret level-{} {}"/></div>\n'.format(cls, msg, level, "caret-down" if failed else "")
                yield '<div class="sub-results %s">\n' % ("visible" if failed else "")
                for child in children:
                    yield from child._html_parts(level + 1)
                yield "</div>\n"
        yield "</div>\n"

    def _to_html(self, level: int) -> str:
        return "".join(self._html_parts(level))

    def to_html(self) -> str:
        """Generates an interactive view of the result as HTML."""
        return self._to_html(0).join(_TEMPLATE.read_text().split(_PLACEHOLDER))

    def to_dict(self) -> Dict[str, Any]:
        return dict(m=self.message, l=self.level.value, s=list(map(AasTestResult.to_dict, self.sub_results)))

    @classmethod
    def from_json(cls, data: dict) -> AasTestResult:
        result = cls(data["m"], Level(data["l"]))
        for sub in map(cls.from_json, data["s"]):
            result.append(sub)
        return result


class _Threads(threading.local):
    def __init__(self):
        self.managers: List[ContextManager] = []


_threads = _Threads()


def _current() -> Optional[ContextManager]:
    managers = _threads.managers
    return managers[-1] if managers else None


class ContextManager:
    __slots__ = ("result", "catch_all_exceptions")

    def __init__(self, result: AasTestResult, catch_all_exceptions: bool):
        self.result = result
        self.catch_all_exceptions = catch_all_exceptions

    def __enter__(self) -> AasTestResult:
        _threads.managers.append(self)
        return self.result

    def _failure(self, error: BaseException) -> Optional[AasTestResult]:
        if isinstance(error, ResultException):
            return error.result
        if self.catch_all_exceptions:
            return AasTestResult(f"Internal error: {error!s}", Level.CRITICAL)
        return None

    def __exit__(self, exc_type, exc_val, traceback):
        top = _threads.managers.pop()
        assert top is self
        if exc_val is not None:
            if (failure := self._failure(exc_val)) is None:
                return False
            self.result.append(failure)
        if (outer := _current()) is not None:
            outer.result.append(self.result)
        return exc_val is not None


class ResultException(Exception):
    def __init__(self, result: AasTestResult) -> None:
        self.result = result


def _as_result(message: Union[str, AasTestResult], level: Level) -> AasTestResult:
    if isinstance(message, AasTestResult):
        return message
    assert isinstance(message, str)
    return AasTestResult(message, level=level)


def write(message: Union[str, AasTestResult]) -> None:
    if (current := _current()) is None:
        raise RuntimeError("No open context")
    current.result.append(_as_result(message, Level.INFO))


def start(message: Union[str, AasTestResult], catch_all_exceptions: bool = False) -> ContextManager:
    return ContextManager(_as_result(message, Level.INFO), catch_all_exceptions)


def abort(message: Union[str, AasTestResult]):
    raise ResultException(_as_result(message, Level.ERROR))
