from typing import Optional, Pattern
import calendar
import contextlib
import functools
import re
import base64
from dataclasses import dataclass
from enum import Enum


_NUMERAL = r"[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)"
_DECIMAL = re.compile(_NUMERAL)
_DOUBLE = re.compile(_NUMERAL + r"(?:[eE][+-]?[0-9]+)?")
_INTEGER = re.compile(r"[+-]?[0-9]+")


def _matches(pattern: Pattern[str], s: str) -> bool:
    return bool(pattern.fullmatch(s))


is_decimal = functools.partial(_matches, _DECIMAL)


@dataclass(frozen=True)
class _Interval:
    """closed interval; a missing end is unbounded"""

    low: Optional[float] = None
    high: Optional[float] = None

    def __contains__(self, v) -> bool:
        if self.low is not None and v < self.low:
            return False
        return self.high is None or not v > self.high


@dataclass(frozen=True)
class _FloatRange:
    limit: float
    SPECIAL = frozenset(("INF", "-INF", "NaN"))

    def __call__(self, s: str) -> bool:
        if s in self.SPECIAL:
            return True
        return _matches(_DOUBLE, s) and float(s) in _Interval(-self.limit, self.limit)


is_float = _FloatRange(3.4028234663852886e38)
is_double = _FloatRange(1.7976931348623158e308)


@dataclass(frozen=True)
class _IntegerRange:
    interval: _Interval

    @classmethod
    def between(cls, low=None, high=None):
        return cls(_Interval(low, high))

    @classmethod
    def signed(cls, bits: int):
        return cls.between(-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)

    @classmethod
    def unsigned(cls, bits: int):
        return cls.between(0, (1 << bits) - 1)

    def __call__(self, s: str) -> bool:
        if not _matches(_INTEGER, s):
            return False
        with contextlib.suppress(ValueError):
            return int(s) in self.interval
        return False


def _is_bounded_integer(s: str, min: float, max: float) -> bool:
    return _IntegerRange.between(min, max)(s)


def is_hex_binary(s: str) -> bool:
    return re.fullmatch(r"([0-9a-fA-F]{2})*", s) is not None


_YEAR = "-?(?:[1-9][0-9]{3,}|0[0-9]{3})"
_MONTH = "(?:0[1-9]|1[0-2])"
_DAY = "(?:0[1-9]|[12][0-9]|3[01])"
_CLOCK = r"(?:(?:[01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](?:\.[0-9]+)?|24:00:00(?:\.0+)?)"
_ZONE = r"(?:Z|[+-](?:(?:0[0-9]|1[0-3]):[0-5][0-9]|14:00))"
_DATE = re.compile(f"(?P<year>{_YEAR})-(?P<month>{_MONTH})-(?P<day>{_DAY}){_ZONE}?")
_DATE_TIME = re.compile(f"(?P<date>{_YEAR}-{_MONTH}-{_DAY})T{_CLOCK}{_ZONE}?")
_DATE_TIME_UTC = re.compile(f"(?P<date>{_YEAR}-{_MONTH}-{_DAY})T{_CLOCK}(?:Z|[+-]00:00)")


def _is_leap_year(year: int) -> bool:
    return calendar.isleap(year if year >= 0 else -year - 1)


def _days_in_month(month: int, leap: bool) -> int:
    if month == 2:
        return 28 + leap
    return 30 if month in (4, 6, 9, 11) else 31


def is_xs_date(value: str) -> bool:
    match = _DATE.fullmatch(value)
    if not match:
        return False
    try:
        year, month, day = (int(match[i]) for i in ("year", "month", "day"))
    except ValueError:
        # exceeds the integer conversion limit of the interpreter
        return False
    return year != 0 and day <= _days_in_month(month, _is_leap_year(year))


def _is_date_time(pattern: Pattern[str], s: str) -> bool:
    m = pattern.fullmatch(s)
    return m is not None and is_xs_date(m.group("date"))


def is_xs_date_time(s: str) -> bool:
    return _is_date_time(_DATE_TIME, s)


def is_xs_date_time_utc(s: str) -> bool:
    return _is_date_time(_DATE_TIME_UTC, s)


def _construct_matches_xs_any_uri() -> Pattern[str]:
    scheme = "[a-zA-Z][a-zA-Z0-9+\\-.]*"
    ucschar = "[\\xa0-\\ud7ff\\uf900-\\ufdcf\\ufdf0-\\uffef\\U00010000-\\U0001fffd\\U00020000-\\U0002fffd\\U00030000-\\U0003fffd\\U00040000-\\U0004fffd\\U00050000-\\U0005fffd\\U00060000-\\U0006fffd\\U00070000-\\U0007fffd\\U00080000-\\U0008fffd\\U00090000-\\U0009fffd\\U000a0000-\\U000afffd\\U000b0000-\\U000bfffd\\U000c0000-\\U000cfffd\\U000d0000-\\U000dfffd\\U000e1000-\\U000efffd]"
    iunreserved = f"([a-zA-Z0-9\\-._~]|{ucschar})"
    pct_encoded = "%[0-9A-Fa-f][0-9A-Fa-f]"
    sub_delims = "[!$&'()*+,;=]"
    iuserinfo = f"({iunreserved}|{pct_encoded}|{sub_delims}|:)*"
    h16 = "[0-9A-Fa-f]{1,4}"
    dec_octet = "([0-9]|[1-9][0-9]|1[0-9]{2}|2[0-4][0-9]|25[0-5])"
    ipv4address = f"{dec_octet}\\.{dec_octet}\\.{dec_octet}\\.{dec_octet}"
    ls32 = f"({h16}:{h16}|{ipv4address})"
    ipv6address = f"(({h16}:){{6}}{ls32}|::({h16}:){{5}}{ls32}|({h16})?::({h16}:){{4}}{ls32}|(({h16}:)?{h16})?::({h16}:){{3}}{ls32}|(({h16}:){{2}}{h16})?::({h16}:){{2}}{ls32}|(({h16}:){{3}}{h16})?::{h16}:{ls32}|(({h16}:){{4}}{h16})?::{ls32}|(({h16}:){{5}}{h16})?::{h16}|(({h16}:){{6}}{h16})?::)"
    unreserved = "[a-zA-Z0-9\\-._~]"
    ipvfuture = f"[vV][0-9A-Fa-f]+\\.({unreserved}|{sub_delims}|:)+"
    ip_literal = f"\\[({ipv6address}|{ipvfuture})\\]"
    ireg_name = f"({iunreserved}|{pct_encoded}|{sub_delims})*"
    ihost = f"({ip_literal}|{ipv4address}|{ireg_name})"
    port = "[0-9]*"
    iauthority = f"({iuserinfo}@)?{ihost}(:{port})?"
    ipchar = f"({iunreserved}|{pct_encoded}|{sub_delims}|[:@])"
    isegment = f"({ipchar})*"
    ipath_abempty = f"(/{isegment})*"
    isegment_nz = f"({ipchar})+"
    ipath_absolute = f"/({isegment_nz}(/{isegment})*)?"
    ipath_rootless = f"{isegment_nz}(/{isegment})*"
    ipath_empty = f"({ipchar}){{0}}"
    ihier_part = f"(//{iauthority}{ipath_abempty}|{ipath_absolute}|{ipath_rootless}|{ipath_empty})"
    iprivate = "[\\ue000-\\uf8ff\\U000f0000-\\U000ffffd\\U00100000-\\U0010fffd]"
    iquery = f"({ipchar}|{iprivate}|[/?])*"
    ifragment = f"({ipchar}|[/?])*"
    isegment_nz_nc = f"({iunreserved}|{pct_encoded}|{sub_delims}|@)+"
    ipath_noscheme = f"{isegment_nz_nc}(/{isegment})*"
    irelative_part = f"(//{iauthority}{ipath_abempty}|{ipath_absolute}|{ipath_noscheme}|{ipath_empty})"
    irelative_ref = f"{irelative_part}(\\?{iquery})?(#{ifragment})?"
    iri = f"{scheme}:{ihier_part}(\\?{iquery})?(#{ifragment})?"
    iri_reference = f"({iri}|{irelative_ref})"
    pattern = f"^{iri_reference}$"

    return re.compile(pattern)


_MONTH_DAY = re.compile(f"--({_MONTH})-({_DAY}){_ZONE}?")


def is_xs_g_month_day(s: str) -> bool:
    if m := _MONTH_DAY.fullmatch(s):
        month, day = map(int, m.groups())
        return day <= _days_in_month(month, True)
    return False


_REGEX_MATCHES_XS_ANY_URI = _construct_matches_xs_any_uri()


def is_any_uri(s: str) -> bool:
    return _REGEX_MATCHES_XS_ANY_URI.fullmatch(s) is not None


def is_base64_binary(s: str) -> bool:
    # b64decode() silently skips characters outside of the alphabet
    b64 = "[A-Za-z0-9+/]"
    last = f"({b64} ?){{3}}{b64}|({b64} ?){{2}}[AEIMQUYcgkosw048] ?=|{b64} ?[AQgw] ?= ?="
    return re.fullmatch(f"((({b64} ?){{4}})*({last}))?", s) is not None


def _construct_matches_bcp_47() -> Pattern[str]:
    alphanum = "[a-zA-Z0-9]"
    singleton = "[0-9A-WY-Za-wy-z]"
    extension = f"{singleton}(-({alphanum}){{2,8}})+"
    extlang = "[a-zA-Z]{3}(-[a-zA-Z]{3}){0,2}"
    irregular = "(en-GB-oed|i-ami|i-bnn|i-default|i-enochian|i-hak|i-klingon|i-lux|i-mingo|i-navajo|i-pwn|i-tao|i-tay|i-tsu|sgn-BE-FR|sgn-BE-NL|sgn-CH-DE)"
    regular = "(art-lojban|cel-gaulish|no-bok|no-nyn|zh-guoyu|zh-hakka|zh-min|zh-min-nan|zh-xiang)"
    grandfathered = f"({irregular}|{regular})"
    language = f"([a-zA-Z]{{2,3}}(-{extlang})?|[a-zA-Z]{{4}}|[a-zA-Z]{{5,8}})"
    script = "[a-zA-Z]{4}"
    region = "([a-zA-Z]{2}|[0-9]{3})"
    variant = f"(({alphanum}){{5,8}}|[0-9]({alphanum}){{3}})"
    privateuse = f"[xX](-({alphanum}){{1,8}})+"
    langtag = f"{language}(-{script})?(-{region})?(-{variant})*(-{extension})*(-{privateuse})?"
    language_tag = f"({langtag}|{privateuse}|{grandfathered})"
    pattern = f"^{language_tag}$"

    return re.compile(pattern)


_REGEX_MATCHES_BCP_47 = _construct_matches_bcp_47()


def is_bcp_lang_string(s: str) -> bool:
    return _REGEX_MATCHES_BCP_47.fullmatch(s) is not None


def _construct_matches_version_type() -> Pattern[str]:
    pattern = "^(0|[1-9][0-9]*)$"
    return re.compile(pattern)


_REGEX_MATCHES_VERSION_TYPE = _construct_matches_version_type()


def is_version_string(text: str) -> bool:
    return _REGEX_MATCHES_VERSION_TYPE.fullmatch(text) is not None


_REGEX_IS_BCP_47_FOR_ENGLISH = re.compile("^(en|EN)(-.*)?$")


def is_bcp_47_for_english(text: str) -> bool:
    return _REGEX_IS_BCP_47_FOR_ENGLISH.match(text) is not None


class DataTypeDefXsd(Enum):
    anyURI = "xs:anyURI"
    base64Binary = "xs:base64Binary"
    boolean = "xs:boolean"
    byte = "xs:byte"
    date = "xs:date"
    dateTime = "xs:dateTime"
    decimal = "xs:decimal"
    double = "xs:double"
    duration = "xs:duration"
    float = "xs:float"
    gDay = "xs:gDay"
    gMonth = "xs:gMonth"
    gMonthDay = "xs:gMonthDay"
    gYear = "xs:gYear"
    gYearMonth = "xs:gYearMonth"
    hexBinary = "xs:hexBinary"
    int = "xs:int"
    integer = "xs:integer"
    long = "xs:long"
    negativeInteger = "xs:negativeInteger"
    nonNegativeInteger = "xs:nonNegativeInteger"
    nonPositiveInteger = "xs:nonPositiveInteger"
    positiveInteger = "xs:positiveInteger"
    short = "xs:short"
    string = "xs:string"
    time = "xs:time"
    unsignedByte = "xs:unsignedByte"
    unsignedInt = "xs:unsignedInt"
    unsignedLong = "xs:unsignedLong"
    unsignedShort = "xs:unsignedShort"


def _regex(pattern: str):
    return functools.partial(_matches, re.compile(pattern))


_TIME_PART = r"T(?:[0-9]+H(?:[0-9]+M)?(?:[0-9]+(?:\.[0-9]+)?S)?|[0-9]+M(?:[0-9]+(?:\.[0-9]+)?S)?|[0-9]+(?:\.[0-9]+)?S)"
_DATE_PART = "(?:[0-9]+Y(?:[0-9]+M)?(?:[0-9]+D)?|[0-9]+M(?:[0-9]+D)?|[0-9]+D)"

validators = {
    DataTypeDefXsd.string: lambda _: True,
    DataTypeDefXsd.boolean: ("true", "false", "1", "0").__contains__,
    DataTypeDefXsd.decimal: is_decimal,
    DataTypeDefXsd.integer: _IntegerRange.between(),
    DataTypeDefXsd.float: is_float,
    DataTypeDefXsd.double: is_double,
}
for _name, _bits in {"byte": 8, "short": 16, "int": 32, "long": 64}.items():
    validators[DataTypeDefXsd[_name]] = _IntegerRange.signed(_bits)
    validators[DataTypeDefXsd[f"unsigned{_name.title()}"]] = _IntegerRange.unsigned(_bits)
validators.update(
    {
        DataTypeDefXsd.positiveInteger: _IntegerRange.between(low=1),
        DataTypeDefXsd.nonNegativeInteger: _IntegerRange.between(low=0),
        DataTypeDefXsd.negativeInteger: _IntegerRange.between(high=-1),
        DataTypeDefXsd.nonPositiveInteger: _IntegerRange.between(high=0),
        DataTypeDefXsd.date: is_xs_date,
        DataTypeDefXsd.dateTime: is_xs_date_time,
        DataTypeDefXsd.gMonthDay: is_xs_g_month_day,
        DataTypeDefXsd.gYearMonth: _regex(f"{_YEAR}-{_MONTH}{_ZONE}?"),
        DataTypeDefXsd.gDay: _regex(f"---{_DAY}{_ZONE}?"),
        DataTypeDefXsd.gMonth: _regex(f"--{_MONTH}{_ZONE}?"),
        DataTypeDefXsd.gYear: _regex(f"{_YEAR}{_ZONE}?"),
        DataTypeDefXsd.time: _regex(f"{_CLOCK}{_ZONE}?"),
        DataTypeDefXsd.duration: _regex(f"-?P(?:{_DATE_PART}(?:{_TIME_PART})?|{_TIME_PART})"),
        DataTypeDefXsd.anyURI: is_any_uri,
        DataTypeDefXsd.base64Binary: is_base64_binary,
        DataTypeDefXsd.hexBinary: is_hex_binary,
    }
)


def base64_urlsafe(s: str) -> str:
    encoded = base64.b64encode(s.encode("utf-8"), altchars=b"-_")
    return encoded.rstrip(b"=").decode("ascii")
