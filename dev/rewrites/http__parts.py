import json
import urllib.parse
from copy import copy
from dataclasses import asdict, dataclass, field
from typing import Any, Dict, Iterator, List, Tuple

import requests
from requests.models import Response


@dataclass
class Request:
    path: str
    method: str = "get"
    body: Any = None
    query_parameters: dict = field(default_factory=dict)
    headers: dict = field(default_factory=dict)
    cookies: dict = field(default_factory=dict)

    def _query(self) -> Iterator[Tuple[str, Any]]:
        for name, value in self.query_parameters.items():
            match value:
                case None:
                    continue
                case True | False:
                    yield name, "true" if value else "false"
                case _:
                    yield name, value

    def make_url(self) -> str:
        query = urllib.parse.urlencode(list(self._query()))
        return f"{self.path}?{query}" if query else self.path

    def dump(self, body_max_chars=80):
        print(self.method.upper(), self.make_url())
        if self.body is None:
            return
        text = json.dumps(self.body)
        shown, rest = text[:body_max_chars], text[body_max_chars:]
        print(f"  BODY: {shown}{'...' if rest else ''}")


class HttpClient:
    def __init__(
        self, host: str, verify: bool = False, remove_path_prefix: str = "", additional_headers: Dict[str, str] = {}
    ):
        self.__dict__.update(
            host=host,
            verify=verify,
            remove_path_prefix=remove_path_prefix,
            additional_headers=additional_headers,
            prefixes=[],
        )

    def descend(self, prefix: str):
        child = copy(self)
        child.prefixes = [*self.prefixes, prefix]
        return child

    @property
    def _base(self) -> str:
        return self.host.removesuffix("/")

    def _without_prefix(self, url: str) -> str:
        head, rest = url[: len(self.remove_path_prefix)], url[len(self.remove_path_prefix) :]
        if head != self.remove_path_prefix:
            return url
        return url if rest and not rest.startswith(("/", "?")) else rest

    def send(self, request: Request) -> Response:
        headers = dict(request.headers)
        headers.update(self.additional_headers)
        url = self._without_prefix("".join([*self.prefixes, request.make_url()]))
        kwargs = {
            "method": request.method,
            "url": f"{self._base}{url}",
            "data": None if request.body is None else json.dumps(request.body),
            "headers": headers,
            "verify": self.verify,
        }
        return requests.request(**kwargs)
