import typing
from enum import Enum
from types import UnionType
from typing import Annotated, Any, ClassVar, Final, Literal, Self, TypeVar, get_origin
from sonolus.script.internal.impl import validate_value
from sonolus.script.internal.simple_meta_fn import simple_meta_fn
from sonolus.script.internal.value import Value

def validate_type_arg(arg):
    arg = validate_value(arg)
    if not arg._is_py_():
        raise TypeError(f'Expected a compile-time constant type argument, got {arg}')
    result = arg._as_py_()
    if isinstance(result, type) and issubclass(result, Enum):
        result = validate_type_arg(result.__mro__[1])
    if hasattr(result, '_type_mapping_'):
        return result._type_mapping_
    if get_origin(result) is Annotated:
        return result.__args__[0]
    if get_origin(result) is Literal:
        return result.__args__[0]
    return result

def preprocess_type_spec(arg):
    arg = validate_value(arg)
    if not arg._is_py_():
        raise TypeError(f'Expected a compile-time constant type, got {arg}')
    result = arg._as_py_()
    if isinstance(result, type) and issubclass(result, Enum):
        result = validate_type_arg(result.__mro__[1])
    if hasattr(result, '_type_mapping_'):
        return result._type_mapping_
    if get_origin(result) is Annotated:
        return result.__args__[0]
    if get_origin(result) is Literal:
        if len({type(v) for v in result.__args__}) != 1:
            raise TypeError(f'Literal[] type arguments must all be of the same type, got {result.__args__}')
        return validate_type_arg(type(result.__args__[0]))
    return result

def validate_type_spec(spec):
    spec = preprocess_type_spec(spec)
    if isinstance(spec, PartialGeneric | TypeVar) or (isinstance(spec, type) and issubclass(spec, Value)):
        return spec
    origin = typing.get_origin(spec)
    if origin is UnionType:
        args = typing.get_args(spec)
        validated_args = {validate_type_arg(arg) for arg in args}
        if len(validated_args) == 1:
            return validated_args.pop()
    elif origin is Final:
        args = typing.get_args(spec)
        if len(args) != 1:
            raise TypeError(f'Final[] takes exactly one type argument, got {len(args)}')
        return validate_type_arg(args[0])
    from sonolus.script.archetype import _BaseArchetype
    if isinstance(spec, type) and issubclass(spec, _BaseArchetype):
        raise TypeError(f'Expected a concrete type, got {spec}. Did you mean to write EntityRef[{spec.__name__}]?')
    raise TypeError(f'Unsupported type spec: {spec}')

class TypeInfo(typing.NamedTuple):
    value: PartialGeneric | TypeVar | type[Value]
    final: bool

def validate_type_spec_with_extras(spec):
    spec = validate_type_arg(spec)
    if isinstance(spec, PartialGeneric | TypeVar) or (isinstance(spec, type) and issubclass(spec, Value)):
        return TypeInfo(spec, final=False)
    origin = typing.get_origin(spec)
    if origin is UnionType:
        args = typing.get_args(spec)
        validated_args = {validate_type_spec_with_extras(arg) for arg in args}
        if len(validated_args) == 1:
            return validated_args.pop()
    elif origin is Final:
        args = typing.get_args(spec)
        if len(args) != 1:
            raise TypeError(f'Final[] takes exactly one type argument, got {len(args)}')
        inner_type_info = validate_type_spec_with_extras(args[0])
        return TypeInfo(inner_type_info.value, final=True)
    from sonolus.script.archetype import _BaseArchetype
    if isinstance(spec, type) and issubclass(spec, _BaseArchetype):
        raise TypeError(f'Expected a concrete type, got {spec}. Did you mean to write EntityRef[{spec.__name__}]?')
    raise TypeError(f'Invalid type spec: {spec}')

def validate_concrete_type(spec):
    spec = validate_type_spec(spec)
    if isinstance(spec, type) and issubclass(spec, Value) and spec._is_concrete_():
        return spec
    if isinstance(spec, type) and issubclass(spec, Value) and (not spec._is_concrete_()) and issubclass(spec, GenericValue):
        raise TypeError(f'Expected a concrete type, got {spec}. Are there missing type arguments?')
    if isinstance(spec, PartialGeneric):
        raise TypeError(f'Expected a concrete type, got {spec}. Invalid use of a type parameter as a type argument?')
    raise TypeError(f'Expected a concrete type, got {spec}')

def contains_incomplete_type(args):
    if not isinstance(args, tuple):
        args = (args,)
    return any((isinstance(arg, TypeVar | PartialGeneric) for arg in args))

def format_type_arg(arg):
    if isinstance(arg, type):
        return arg.__name__
    return f'{arg}'

class GenericValue(Value):
    _parameterized_: ClassVar[dict[tuple[Any, ...], type[Self]]] = {}
    _type_args_: ClassVar[tuple[Any, ...] | None] = None
    _type_vars_to_args_: ClassVar[dict[TypeVar, Any] | None] = None

    def __init__(self):
        if self._type_args_ is None:
            raise TypeError(f'Missing type arguments for {self.__class__.__name__}')

    @classmethod
    def _validate_type_args_(cls, args):
        if len(args) != len(cls.__type_params__):
            raise TypeError(f'Expected {len(cls.__type_params__)} type arguments, got {len(args)}')
        return args

    @classmethod
    def _is_concrete_(cls):
        return cls._type_args_ is not None

    @classmethod
    @simple_meta_fn
    def type_var_value(cls, var):
        if isinstance(var, Value):
            var = var._as_py_()
        if cls._type_args_ is None:
            raise TypeError(f'Type {cls.__name__} is not parameterized')
        if var in cls._type_vars_to_args_:
            return cls._type_vars_to_args_[var]
        raise TypeError(f'Missing type argument for {var}')

    def __class_getitem__(cls, args):
        if cls._type_args_ is not None:
            raise TypeError(f'Type {cls.__name__} is already parameterized')
        if not isinstance(args, tuple):
            args = (args,)
        validated_args = []
        for i, arg in enumerate(args):
            if i < len(cls.__type_params__):
                type_param = cls.__type_params__[i]
            else:
                type_param = None
            try:
                validated_args.append(validate_type_arg(arg))
            except TypeError as e:
                if type_param is not None:
                    type_param_body = ', '.join((str(tp) for tp in cls.__type_params__))
                    raise TypeError(f'Invalid type argument for type parameter {type_param} of class {cls.__name__}[{type_param_body}]: {e}') from e
                else:
                    raise TypeError(f'Invalid type argument at position {i} of class {cls.__name__}: {e}') from e
        args = tuple(validated_args)
        args = cls._validate_type_args_(args)
        if contains_incomplete_type(args):
            return PartialGeneric(cls, args)
        if args not in cls._parameterized_:
            cls._parameterized_[args] = cls._get_parameterized(args)
        return cls._parameterized_[args]

    @classmethod
    def _get_parameterized(cls, args):

        class Parameterized(cls):
            _type_args_ = args
            _type_vars_to_args_ = dict(zip(cls.__type_params__, args, strict=True))
        if args:
            Parameterized.__name__ = f'{cls.__name__}[{', '.join((format_type_arg(arg) for arg in args))}]'
            Parameterized.__qualname__ = f'{cls.__qualname__}[{', '.join((format_type_arg(arg) for arg in args))}]'
        else:
            Parameterized.__name__ = cls.__name__
            Parameterized.__qualname__ = cls.__qualname__
        Parameterized.__module__ = cls.__module__
        return Parameterized

class PartialGeneric:

    def __init__(self, base, args):
        self.base = base
        self.args = args

    def __repr__(self):
        return f'PartialGeneric({self.base!r}, {self.args!r})'

    def __str__(self):
        params = ', '.join((format_type_arg(arg) for arg in self.args))
        return f'{self.base.__name__}?[{params}]'

    def __call__(self, *args, **kwargs):
        instance = self.base(*args, **kwargs)
        accept_and_infer_types(self, instance, {})
        return instance

def infer_and_validate_types(dst, src, results=None):
    results = results if results is not None else {}
    match dst:
        case TypeVar():
            if dst in results:
                if results[dst] != src:
                    raise TypeError(f'Conflicting types for {dst}: {format_type_arg(results[dst])} and {format_type_arg(src)}')
            else:
                results[dst] = validate_type_arg(src)
        case PartialGeneric():
            if not isinstance(src, type) or not issubclass(src, dst.base):
                raise TypeError(f'Expected type {dst.base.__name__}, got {format_type_arg(src)}')
            assert issubclass(src, GenericValue)
            for d, s in zip(dst.args, src._type_args_, strict=True):
                infer_and_validate_types(d, s, results)
        case _:
            if src != dst and dst != Any and (not (isinstance(dst, type) and isinstance(src, type) and issubclass(src, dst))):
                raise TypeError(f'Expected {format_type_arg(dst)}, got {format_type_arg(src)}')
    return results

def accept_and_infer_types(dst, val, results):
    val = validate_value(val)
    match dst:
        case TypeVar():
            infer_and_validate_types(dst, type(val), results)
            return val
        case PartialGeneric():
            val = dst.base._accept_(val)
            infer_and_validate_types(dst, type(val), results)
            return val
        case type():
            return dst._accept_(val)
        case _:
            raise TypeError(f'Expected a type, got {format_type_arg(dst)}')

def validate_and_resolve_type(dst, results):
    match dst:
        case TypeVar():
            if dst in results:
                return results[dst]
            raise TypeError(f'Missing type for {dst}')
        case PartialGeneric():
            return dst.base[tuple((validate_and_resolve_type(arg, results) for arg in dst.args))]
        case _:
            return dst
