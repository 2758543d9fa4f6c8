"""Reflection of declared types"""
import inspect
import re
from dataclasses import MISSING, dataclass, field as dc_field, fields, is_dataclass
from enum import Enum, EnumMeta
from functools import partial
from typing import Any, Callable, ClassVar, Dict, ForwardRef, Generic, Iterable, Iterator, List, Optional, Pattern, Tuple, TypeVar, Union, get_args, get_origin

from .data_types import base64_urlsafe

_XML_CHARACTERS = re.compile("[\x09\x0a\x0d\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]*")


def _marker(cls) -> str:
    return "_{}_abstract".format(cls)


def abstract(cls):
    setattr(cls, _marker(cls), True)
    return cls


def is_abstract(cls):
    return getattr(cls, _marker(cls), False)


def _unwrap_optional(cls) -> Tuple[bool, type]:
    if getattr(cls, "__origin__", None) is not Union:
        return True, cls
    inner, *others = cls.__args__
    assert others == [type(None)]
    return False, inner


def _unwrap_forward_ref(cls, globals, locals) -> type:
    if not isinstance(cls, ForwardRef):
        return cls
    try:
        try:
            return cls._evaluate(globals, locals, recursive_guard=frozenset())
        except TypeError:
            return cls._evaluate(globals, locals)
    except NameError as e:
        raise Exception(f"{e}: Have you tried passing globals() and locals() to reflect?")


class StringFormattedValue:
    min_length: Optional[int] = None
    max_length: Optional[int] = None
    pattern: Optional[Pattern] = None
    base64: bool = False

    @classmethod
    def _problems(cls, value: str) -> Iterator[str]:
        size = len(value)
        if cls.min_length is not None and size < cls.min_length:
            yield f"String is shorter than {cls.min_length} characters"
        if cls.max_length is not None and size > cls.max_length:
            yield f"String is longer than {cls.max_length} characters"
        if not _XML_CHARACTERS.fullmatch(value):
            yield "Constraint AASd-130 violated: String is not XML serializable"
        if cls.pattern and not re.fullmatch(cls.pattern, value):
            yield f"String '{value}' does not match pattern {cls.pattern}"

    def __init__(self, raw_value: str):
        self.raw_value = raw_value
        for problem in self._problems(raw_value):
            raise ValueError(problem)

    def __eq__(self, other: "StringFormattedValue") -> bool:
        return self.raw_value == other.raw_value

    def __str__(self) -> str:
        return base64_urlsafe(self.raw_value) if self.base64 else self.raw_value


T = TypeVar("T")


class NonEmptyList(List[T], Generic[T]):
    """A list that has at least one element"""


class TypeBase:
    def construct(self, args: Dict[str, any]):
        raise NotImplementedError(self)


class NoneType(TypeBase): ...
class StringType(TypeBase): ...
class BoolType(TypeBase): ...
class AnyType(TypeBase): ...
class NumberType(TypeBase): ...
class BytesType(TypeBase): ...


class _Wrapper(TypeBase):
    def __init__(self, cls):
        self.cls = cls

    def construct(self, args):
        return self.cls(args)


class EnumType(_Wrapper):
    pass


class StringFormattedValueType(_Wrapper):
    pass


class FunctionType(AnyType):
    @dataclass(eq=False)
    class Argument:
        name: str
        type: TypeBase
        required: bool

        def __eq__(self, other):
            assert isinstance(other, FunctionType.Argument)
            return (self.name, self.required) == (other.name, other.required)

    def __init__(self, func: callable, return_type: TypeBase, args: List[Argument]):
        self.func, self.return_type, self.args = func, return_type, args

    def __eq__(self, other) -> bool:
        assert isinstance(other, FunctionType)
        return self.args == other.args


class ClassType(TypeBase):
    @dataclass
    class Attribute:
        name: str
        type: TypeBase
        required: bool
        force_name: Optional[str]

    def __init__(self, cls, attrs, static_attrs, subclasses):
        self.cls = cls
        self.attrs = attrs
        self.static_attrs = static_attrs
        self.subclasses = subclasses

    def construct(self, args):
        return self.cls(**dict(args, **self.static_attrs))

    def is_abstract(self) -> bool:
        return is_abstract(self.cls)


class ListType(TypeBase):
    def __init__(self, item_type: TypeBase, allow_empty: bool):
        self.item_type = item_type
        self.allow_empty = allow_empty


class UnresolvedType(TypeBase):
    def __init__(self, cls):
        self.ref_cls = cls


def _collect_subclasses(cls) -> List[type]:
    result: List[type] = []
    for sub in cls.__subclasses__():
        if not is_abstract(sub):
            result.append(sub)
        result += _collect_subclasses(sub)
    return result


def _is_enum(cls) -> bool:
    return isinstance(cls, EnumMeta)


def _symbol_key(cls) -> str:
    return f"<enum '{cls.__module__}:{cls.__qualname__}'>" if _is_enum(cls) else str(cls)


class SymbolTable:

    MissingRef = object()

    def __init__(self):
        self.symbols: Dict[str, TypeBase] = {}

    def dump(self):
        for item in self.symbols.items():
            print("{:80}: {}".format(*item))

    def lookup(self, type_name):
        suffix = f".{type_name}'>"
        found = None
        for name, symbol in self.symbols.items():
            if not name.endswith(suffix):
                continue
            if found is not None:
                raise ValueError(f"{type_name} is ambiguous")
            found = symbol
        if found is None:
            raise ValueError(f"{type_name} not found")
        return found

    def _target(self, unresolved: TypeBase) -> TypeBase:
        assert isinstance(unresolved, UnresolvedType)
        return self.symbols[_symbol_key(unresolved.ref_cls)]

    def _resolve(self):
        for symbol in self.symbols.values():
            if isinstance(symbol, ListType):
                symbol.item_type = self._target(symbol.item_type)
            if isinstance(symbol, ClassType):
                for attr in symbol.attrs:
                    attr.type = self._target(attr.type)
                symbol.subclasses = list(map(self._target, symbol.subclasses))


class _Reflector:
    _LEAFS: ClassVar[List[Tuple[Any, type]]] = [
        (None, NoneType), (bool, BoolType), (str, StringType), (any, AnyType), (int, NumberType), (bytes, BytesType),
    ]

    def __init__(self, globals, locals, table: SymbolTable):
        self.globals, self.locals, self.table = globals, locals, table

    def visit(self, cls) -> TypeBase:
        key, symbols = _symbol_key(cls), self.table.symbols
        if key not in symbols:
            symbols[key] = None  # avoids infinite recursion
            symbols[key] = self._create(cls)
        return symbols[key]

    def _ref(self, cls) -> UnresolvedType:
        cls = _unwrap_forward_ref(cls, self.globals, self.locals)
        self.visit(cls)
        return UnresolvedType(cls)

    def _create(self, cls) -> TypeBase:
        origin = getattr(cls, "__origin__", None)
        if origin is not None:
            for kind, allow_empty in ((list, True), (NonEmptyList, False)):
                if origin is kind:
                    return ListType(self._ref(cls.__args__[0]), allow_empty)
        else:
            for leaf, make in self._LEAFS:
                if cls is leaf:
                    return make()
            if _is_enum(cls):
                return EnumType(cls)
            if issubclass(cls, StringFormattedValue):
                return StringFormattedValueType(cls)
            if inspect.isclass(cls):
                return self._class(cls)
        raise NotImplementedError(
            f"There is no reflection implemented for:\n"
            f"  origin:    {origin}\n"
            f"  args:      {getattr(cls, '__args__', None)}\n"
            f"  cls:       {cls}\n"
        )

    def _class(self, cls) -> ClassType:
        if not is_dataclass(cls):
            raise Exception(f"Classes must be dataclasses, but {cls} is not. Maybe you forgot to add @dataclass?")
        static = {f.name: f.metadata["exclude_as"] for f in fields(cls) if "exclude_as" in f.metadata}
        attrs = []
        for f in fields(cls):
            required, declared = _unwrap_optional(f.type)
            if f.name not in static:
                attrs.append(ClassType.Attribute(f.name, self._ref(declared), required, f.metadata.get("force_name")))
        return ClassType(cls, attrs, static, [self._ref(sub) for sub in _collect_subclasses(cls)])


def reflect(cls: any, globals={}, locals={}) -> Tuple[TypeBase, SymbolTable]:
    table = SymbolTable()
    result = _Reflector(globals, locals, table).visit(cls)
    table._resolve()
    return result, table


def reflect_function(fn: callable, globals={}, locals={}) -> FunctionType:
    visit = _Reflector(globals, locals, SymbolTable()).visit
    annotations = dict(fn.__annotations__)
    return_type = visit(annotations.pop("return", None))
    args = []
    for name, (required, declared) in ((n, _unwrap_optional(a)) for n, a in annotations.items()):
        args.append(FunctionType.Argument(name, visit(declared), required))
    return FunctionType(fn, return_type, args)
