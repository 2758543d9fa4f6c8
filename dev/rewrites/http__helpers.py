from __future__ import annotations

import json
from dataclasses import dataclass, field
from typing import Any, Dict, List, Mapping, Optional
from urllib.parse import urlencode

import requests
from requests import Response


def _query_value(value: Any) -> Any:
    """Booleans are written in lower case"""
    if value is True:
        return "true"
    return "false" if value is False else value


@dataclass
class Request:
    path: str
    method: str = "get"
    body: Any = None
    query_parameters: dict = field(default_factory=dict)
    headers: dict = field(default_factory=dict)
    cookies: dict = field(default_factory=dict)

    def _query(self) -> str:
        pairs = []
        for key, value in self.query_parameters.items():
            if value is None:
                continue
            pairs.append((key, _query_value(value)))
        return urlencode(pairs)

    def make_url(self) -> str:
        return "?".join(filter(None, [self.path, self._query()])) if self.path else self._query() and "?" + self._query()

    def dump(self, body_max_chars=80):
        print(self.method.upper(), self.make_url())
        if self.body is None:
            return
        text = json.dumps(self.body)
        print("  BODY: " + (text if len(text) <= body_max_chars else f"{text[:body_max_chars]}..."))


class HttpClient:
    def __init__(
        self, host: str, verify: bool = False, remove_path_prefix: str = "", additional_headers: Optional[Mapping[str, str]] = None
    ):
        self.host = host
        self.verify = verify
        self.remove_path_prefix = remove_path_prefix
        self.prefixes: List[str] = []
        self.additional_headers = {} if additional_headers is None else additional_headers

    def descend(self, prefix: str) -> HttpClient:
        result = self.__class__.__new__(self.__class__)
        result.__dict__.update(self.__dict__)
        result.prefixes = [*self.prefixes, prefix]
        return result

    def _strip(self, url: str) -> str:
        prefix = self.remove_path_prefix
        if not url.startswith(prefix):
            return url
        rest = url[len(prefix):]
        return rest if rest == "" or rest[0] in ("/", "?") else url

    def _url(self, request: Request) -> str:
        base = self.host[:-1] if self.host[-1:] == "/" else self.host
        return base + self._strip("".join(self.prefixes) + request.make_url())

    def send(self, request: Request) -> Response:
        headers: Dict[str, str] = dict(request.headers)
        headers.update(self.additional_headers)
        kwargs = dict(method=request.method, url=self._url(request), headers=headers, verify=self.verify)
        kwargs["data"] = None if request.body is None else json.dumps(request.body)
        return requests.request(**kwargs)
