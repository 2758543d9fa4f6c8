from enum import IntEnum
from functools import reduce
from pathlib import Path
from typing import Iterator, List, Optional, Tuple, TypeVar, Union
import html
import io
import operator
import os
import threading

T = TypeVar("T")

script_dir = os.path.dirname(os.path.realpath(__file__))

_RESET = "\033[0m"
_COLORS = ("\033[92m", "\033[93m", "\033[91m", "\033[94m")
_PLACEHOLDER = "<!-- CONTENT -->"


class Level(IntEnum):
    INFO = 0
    WARNING = 1
    ERROR = 2
    CRITICAL = 3

    def __or__(self, other: "Level") -> "Level":
        return self if self >= other else other

    def color(self) -> str:
        return _COLORS[self]

    @property
    def css(self) -> str:
        return self.name.lower()


class AasTestResult:
    __slots__ = ("message", "level", "sub_results")

    def __init__(self, message: str, level=Level.INFO):
        assert isinstance(level, Level)
        self.message, self.level, self.sub_results = message, level, []

    def append(self, result: "AasTestResult"):
        self.sub_results += [result]
        self.level |= result.level

    def ok(self) -> bool:
        return self.level < Level.ERROR

    def _walk(self, depth: int = 0) -> Iterator[Tuple[int, "AasTestResult"]]:
        """this result and all below it, parents first"""
        todo = [(depth, self)]
        while todo:
            d, r = todo.pop()
            yield d, r
            todo.extend((d + 1, s) for s in reversed(r.sub_results))

    def dump(self):
        """Outputs the result to console"""
        print(*self.to_lines(), sep="\n")

    def to_lines(self, indent=0, path=""):
        for depth, r in self._walk(indent):
            yield "".join(("   " * depth, r.level.color(), r.message, _RESET))

    def _render(self, level: int, out: io.StringIO) -> None:
        out.write("<div>\n")
        head = f'<div class="{self.level.css}">{html.escape(self.message)}'
        if not self.sub_results:
            print(head, "</div>", sep="", file=out)
        else:
            caret, shown = ("", "") if self.ok() else ("caret-down", "visible")
            print(f'{head}<span class="caret level-{level} {caret}"/></div>', file=out)
            print('<div class="sub-results ', shown, '">', sep="", file=out)
            for sub_result in self.sub_results:
                sub_result._render(level + 1, out)
            out.write("</div>\n")
        out.write("</div>\n")

    def _to_html(self, level: int) -> str:
        out = io.StringIO()
        self._render(level, out)
        return out.getvalue()

    def to_html(self) -> str:
        template = (Path(script_dir) / "data" / "template.html").read_text()
        return self._to_html(0).join(template.split(_PLACEHOLDER))

    def to_dict(self):
        return dict(m=self.message, l=self.level.value, s=list(map(AasTestResult.to_dict, self.sub_results)))

    @classmethod
    def from_json(cls, data: dict) -> "AasTestResult":
        subs = [cls.from_json(s) for s in data["s"]]
        result = cls(data["m"], reduce(operator.or_, (s.level for s in subs), Level(data["l"])))
        result.sub_results.extend(subs)
        return result


class ResultException(Exception):
    def __init__(self, result) -> None:
        super().__init__(result)
        self.result = result


class _Local(threading.local):
    top: Optional["ContextManager"] = None


_local = _Local()


class ContextManager:
    """contexts form a chain, the innermost one is _local.top"""

    def __init__(self, result: AasTestResult, catch_all_exceptions: bool):
        self.result = result
        self.catch_all_exceptions = catch_all_exceptions
        self.parent: Optional["ContextManager"] = None

    def __enter__(self) -> AasTestResult:
        self.parent, _local.top = _local.top, self
        return self.result

    def _finding(self, exc: BaseException) -> Optional[AasTestResult]:
        match exc:
            case ResultException(result=result):
                return result
            case _ if self.catch_all_exceptions:
                return AasTestResult("Internal error: {}".format(exc), Level.CRITICAL)
            case _:
                return None

    def __exit__(self, exc_type, exc_val, traceback):
        assert _local.top is self
        _local.top = self.parent
        if exc_val is not None:
            finding = self._finding(exc_val)
            if finding is None:
                return False
            self.result.append(finding)
        if self.parent is not None:
            self.parent.result.append(self.result)
        return exc_val is not None


def _as_result(message: Union[str, AasTestResult], level: Level):
    if isinstance(message, AasTestResult):
        return message
    assert isinstance(message, str)
    return AasTestResult(message, level=level)


def write(message: Union[str, AasTestResult]):
    top = _local.top
    if top is None:
        raise RuntimeError("No open context")
    top.result.append(_as_result(message, Level.INFO))


def start(message: Union[str, AasTestResult], catch_all_exceptions: bool = False) -> ContextManager:
    return ContextManager(_as_result(message, Level.INFO), catch_all_exceptions)


def abort(message: Union[str, AasTestResult]):
    raise ResultException(_as_result(message, Level.ERROR))
