from types import FunctionType
from typing import Any, Never, assert_never
from sonolus.backend.ops import Op
from sonolus.script.array import Array
from sonolus.script.array_like import ArrayLike
from sonolus.script.debug import error, require
from sonolus.script.internal import impl
from sonolus.script.internal.context import ctx
from sonolus.script.internal.dict_impl import DictImpl
from sonolus.script.internal.impl import validate_value
from sonolus.script.internal.math_impls import MATH_BUILTIN_IMPLS, _trunc
from sonolus.script.internal.meta_fn import meta_fn
from sonolus.script.internal.native import native_function
from sonolus.script.internal.random import RANDOM_BUILTIN_IMPLS
from sonolus.script.internal.range import Range
from sonolus.script.internal.set_impl import SetImpl
from sonolus.script.internal.tuple_impl import TupleImpl, has_tuple_iter, tuple_iter
from sonolus.script.internal.value import Value
from sonolus.script.iterator import SonolusIterator, _EmptyIterator, _Enumerator, _FilteringIterator, _MappingIterator, _Zipper
from sonolus.script.num import Num, _is_num
from sonolus.script.record import Record
_empty = object()

@meta_fn
def _isinstance(value, type_):
    value = validate_value(value)
    type_ = validate_value(type_)._as_py_()
    if type_ in {dict, _dict}:
        return isinstance(value, DictImpl)
    if type_ in {set, frozenset, _set}:
        return isinstance(value, SetImpl)
    if type_ is tuple:
        return isinstance(value, TupleImpl)
    if type_ in {_int, _float, _bool}:
        raise TypeError('Instance check against int, float, or bool is not supported, use Num instead')
    if not (isinstance(type_, type) and (issubclass(type_, Value) or getattr(type_, '_allow_instance_check_', False))):
        raise TypeError(f'Unsupported type: {type_} for isinstance')
    return validate_value(isinstance(value, type_))

@meta_fn
def _len(value):
    from sonolus.script.internal.visitor import compile_and_call
    value = validate_value(value)
    if has_tuple_iter(value):
        return len(tuple_iter(value))
    if not hasattr(value, '__len__'):
        raise TypeError(f"object of type '{type(value).__name__}' has no len()")
    return compile_and_call(value.__len__)

@meta_fn
def _enumerate(iterable, start=0):
    from sonolus.script.internal.visitor import compile_and_call
    iterable = validate_value(iterable)
    if has_tuple_iter(iterable):
        return TupleImpl._accept_(tuple(((start + i, value) for i, value in enumerate(tuple_iter(iterable)))))
    elif not hasattr(iterable, '__iter__'):
        raise TypeError(f"'{type(iterable).__name__}' object is not iterable")
    elif isinstance(iterable, ArrayLike):
        return compile_and_call(iterable._enumerate_, start)
    else:
        iterator = compile_and_call(iterable.__iter__)
        if not isinstance(iterator, SonolusIterator):
            raise TypeError('Only subclasses of SonolusIterator are supported as iterators')
        return _Enumerator(0, start, iterator)

@meta_fn
def _reversed(iterable):
    from sonolus.script.internal.visitor import compile_and_call
    iterable = validate_value(iterable)
    if has_tuple_iter(iterable):
        return TupleImpl(tuple(reversed(tuple_iter(iterable))))
    if not isinstance(iterable, ArrayLike):
        raise TypeError(f'Unsupported type: {type(iterable)} for reversed')
    return compile_and_call(iterable.__reversed__)

@meta_fn
def _zip(*iterables, strict=False):
    from sonolus.script.containers import Pair
    from sonolus.script.internal.visitor import compile_and_call
    if validate_value(strict)._as_py_():
        raise NotImplementedError('Strict zipping is not supported')
    if not iterables:
        return _EmptyIterator()
    iterables = [validate_value(iterable) for iterable in iterables]
    if any((has_tuple_iter(iterable) for iterable in iterables)):
        if not all((has_tuple_iter(iterable) for iterable in iterables)):
            raise TypeError('Cannot mix tuples with other types in zip')
        return TupleImpl._accept_(tuple(zip(*(tuple_iter(iterable) for iterable in iterables), strict=False)))
    iterators = [compile_and_call(iterable.__iter__) for iterable in iterables]
    if not all((isinstance(iterator, SonolusIterator) for iterator in iterators)):
        raise TypeError('Only subclasses of SonolusIterator are supported as iterators')
    v = iterators.pop()
    while iterators:
        v = Pair(iterators.pop(), v)
    return _Zipper(v)

@meta_fn
def _abs(value):
    from sonolus.script.internal.visitor import compile_and_call
    value = validate_value(value)
    if not hasattr(value, '__abs__'):
        raise TypeError(f"bad operand type for abs(): '{type(value).__name__}'")
    return compile_and_call(value.__abs__)

def _identity(value):
    return value

@meta_fn
def _max(*args, default=_empty, key=None):
    from sonolus.script.internal.visitor import compile_and_call
    if key is None:
        key = _identity
    args = tuple((validate_value(arg) for arg in args))
    if len(args) == 0:
        raise ValueError('Expected at least one argument to max')
    elif len(args) == 1:
        iterable, = args
        if isinstance(iterable, ArrayLike):
            if default is not _empty:
                return compile_and_call(_max_array_or_default, iterable, default, key=key)
            return compile_and_call(iterable._max_, key=key)
        elif has_tuple_iter(iterable) and all((_is_num(v) for v in tuple_iter(iterable))):
            t = tuple_iter(iterable)
            if len(t) == 0:
                if default is not _empty:
                    return default
                raise ValueError('max() arg is an empty sequence')
            return compile_and_call(Array(*t)._max_, key=key)
        elif isinstance(iterable, SonolusIterator):
            if not (default is _empty or Num._accepts_(default)):
                raise TypeError('default argument must be a number')
            return compile_and_call(_max_num_iterator, iterable, Num._accept_(default) if default is not _empty else None, key=key if key is not _identity else None)
        else:
            raise TypeError(f'Unsupported type: {type(iterable)} for max')
    else:
        if default is not _empty:
            raise TypeError('default argument is not supported for max with multiple arguments')
        if not all((_is_num(arg) for arg in args)):
            raise TypeError('Arguments to max must be numbers')
        if ctx():
            result = _max2(args[0], args[1], key=key)
            for arg in args[2:]:
                result = _max2(result, arg, key=key)
            return result
        else:
            return max((arg._as_py_() for arg in args), key=key)

def _max2(a, b, key=_identity):
    from sonolus.script.internal.visitor import compile_and_call
    a = validate_value(a)
    b = validate_value(b)
    if _is_num(a) and _is_num(b) and (key == _identity):
        return compile_and_call(_max2_num, a, b)
    return compile_and_call(_max2_generic, a, b, key=key)

@native_function(Op.Max, const_eval=True)
def _max2_num(a, b):
    if a > b:
        return a
    else:
        return b

def _max2_generic(a, b, key=_identity):
    if key(b) > key(a):
        return b
    else:
        return a

def _max_array_or_default(iterable, default, key):
    if len(iterable) == 0:
        return default
    return iterable._max_(key=key)

def _max_num_iterator(iterable, default, key):
    iterator = iterable.__iter__()
    initial = iterator.next()
    if initial.is_nothing:
        require(default is not None, 'default must be provided if the iterator is empty')
        return default
    if key is not None:
        result = initial.get_unsafe()
        best_key = key(result)
        for value in iterator:
            new_key = key(value)
            if new_key > best_key:
                result = value
                best_key = new_key
        return result
    else:
        result = initial.get_unsafe()
        for value in iterator:
            if value > result:
                result = value
        return result

@meta_fn
def _min(*args, default=_empty, key=None):
    from sonolus.script.internal.visitor import compile_and_call
    if key is None:
        key = _identity
    args = tuple((validate_value(arg) for arg in args))
    if len(args) == 0:
        raise ValueError('Expected at least one argument to min')
    elif len(args) == 1:
        iterable, = args
        if isinstance(iterable, ArrayLike):
            if default is not _empty:
                return compile_and_call(_min_array_or_default, iterable, default, key=key)
            return compile_and_call(iterable._min_, key=key)
        elif has_tuple_iter(iterable) and all((_is_num(v) for v in tuple_iter(iterable))):
            t = tuple_iter(iterable)
            if len(t) == 0:
                if default is not _empty:
                    return default
                raise ValueError('min() arg is an empty sequence')
            return compile_and_call(Array(*t)._min_, key=key)
        elif isinstance(iterable, SonolusIterator):
            if not (default is _empty or Num._accepts_(default)):
                raise TypeError('default argument must be a number')
            return compile_and_call(_min_num_iterator, iterable, Num._accept_(default) if default is not _empty else None, key=key if key is not _identity else None)
        else:
            raise TypeError(f'Unsupported type: {type(iterable)} for min')
    else:
        if default is not _empty:
            raise TypeError('default argument is not supported for min with multiple arguments')
        if not all((_is_num(arg) for arg in args)):
            raise TypeError('Arguments to min must be numbers')
        if ctx():
            result = _min2(args[0], args[1], key=key)
            for arg in args[2:]:
                result = _min2(result, arg, key=key)
            return result
        else:
            return min((arg._as_py_() for arg in args), key=key)

def _min2(a, b, key=_identity):
    from sonolus.script.internal.visitor import compile_and_call
    a = validate_value(a)
    b = validate_value(b)
    if _is_num(a) and _is_num(b) and (key == _identity):
        return compile_and_call(_min2_num, a, b)
    return compile_and_call(_min2_generic, a, b, key=key)

@native_function(Op.Min, const_eval=True)
def _min2_num(a, b):
    if a < b:
        return a
    else:
        return b

def _min2_generic(a, b, key=_identity):
    if key(b) < key(a):
        return b
    else:
        return a

def _min_array_or_default(iterable, default, key):
    if len(iterable) == 0:
        return default
    return iterable._min_(key=key)

def _min_num_iterator(iterable, default, key):
    iterator = iterable.__iter__()
    initial = iterator.next()
    if initial.is_nothing:
        require(default is not None, 'default must be provided if the iterator is empty')
        return default
    if key is not None:
        result = initial.get_unsafe()
        best_key = key(result)
        for value in iterator:
            new_key = key(value)
            if new_key < best_key:
                result = value
                best_key = new_key
        return result
    else:
        result = initial.get_unsafe()
        for value in iterator:
            if value < result:
                result = value
        return result

@meta_fn
def _callable(value):
    return callable(value)

def _map(fn, iterable, *iterables):
    if len(iterables) == 0:
        return _MappingIterator(fn, iterable.__iter__())
    return _MappingIterator(lambda args: fn(*args), zip(iterable, *iterables))

def _filter(fn, iterable):
    if fn is None:
        fn = _identity
    return _FilteringIterator(fn, iterable.__iter__())

class _Int:
    _is_comptime_value_ = True
    _type_mapping_ = Num

    @meta_fn
    def __call__(self, value=0):
        value = validate_value(value)
        if not _is_num(value):
            raise TypeError('Only numeric arguments to int() are supported')
        return _trunc(value)

    def __or__(self, other):
        other = validate_value(other)
        if other._is_py_():
            other = other._as_py_()
        other = getattr(other, '_type_mapping_', other)
        return Num | other
_int = _Int()

class _Float:
    _is_comptime_value_ = True
    _type_mapping_ = Num

    @meta_fn
    def __call__(self, value=0.0):
        value = validate_value(value)
        if not _is_num(value):
            raise TypeError('Only numeric arguments to float() are supported')
        return value

    def __or__(self, other):
        other = validate_value(other)
        if other._is_py_():
            other = other._as_py_()
        other = getattr(other, '_type_mapping_', other)
        return Num | other
_float = _Float()

class _Bool:
    _is_comptime_value_ = True
    _type_mapping_ = Num

    @meta_fn
    def __call__(self, value=False):
        value = validate_value(value)
        if _is_num(value) and (not value._is_py_()):
            return value != 0
        if value:
            return True
        else:
            return False

    def __or__(self, other):
        other = validate_value(other)
        if other._is_py_():
            other = other._as_py_()
        other = getattr(other, '_type_mapping_', other)
        return Num | other
_bool = _Bool()

class _Set:
    _is_comptime_value_ = True
    _type_mapping_ = SetImpl

    @meta_fn
    def __call__(self, iterable=_empty):
        if iterable is _empty:
            return SetImpl.from_set(set())
        iterable = validate_value(iterable)
        if isinstance(iterable, SetImpl):
            return SetImpl.from_set(tuple_iter(iterable._dict))
        if has_tuple_iter(iterable):
            return SetImpl.from_set(tuple_iter(iterable))
        raise TypeError(f"'{type(iterable).__name__}' object is not iterable")

    @meta_fn
    def __getitem__(self, item):
        return self

    def __or__(self, other):
        other = validate_value(other)
        if other._is_py_():
            other = other._as_py_()
        other = getattr(other, '_type_mapping_', other)
        return SetImpl | other
_set = _Set()

class _Dict:
    _is_comptime_value_ = True
    _type_mapping_ = DictImpl

    @meta_fn
    def __call__(self, mapping_or_iterable=_empty, **kwargs):
        if mapping_or_iterable is _empty:
            if not kwargs:
                return DictImpl.from_dict({})
            return DictImpl.from_dict(kwargs)
        arg = validate_value(mapping_or_iterable)
        if isinstance(arg, DictImpl):
            d = arg._as_dict_with_py_keys()
            if kwargs:
                d.update(kwargs)
            return DictImpl.from_dict(d)
        if has_tuple_iter(arg):
            items = tuple_iter(arg)
            d = {}
            for item in items:
                item = validate_value(item)
                if not has_tuple_iter(item):
                    raise TypeError(f"cannot convert '{type(item).__name__}' object to dict items")
                kv = tuple_iter(item)
                if len(kv) != 2:
                    raise ValueError(f'dictionary update sequence element has length {len(kv)}; 2 is required')
                k, v = kv
                d[k] = v
            if kwargs:
                d.update(kwargs)
            return DictImpl.from_dict(d)
        raise TypeError(f"'{type(arg).__name__}' object is not a mapping")

    @meta_fn
    def __getitem__(self, item):
        return self

    def __or__(self, other):
        other = validate_value(other)
        if other._is_py_():
            other = other._as_py_()
        other = getattr(other, '_type_mapping_', other)
        return DictImpl | other
_dict = _Dict()

def _any(iterable):
    for value in iterable:
        if value:
            return True
    return False

def _all(iterable):
    for value in iterable:
        if not value:
            return False
    return True

def _sum(iterable, /, start=0):
    for value in iterable:
        start += value
    return start

def _next(iterator):
    require(isinstance(iterator, SonolusIterator), 'Only subclasses of SonolusIterator are supported as iterators')
    value = iterator.next()
    if value.is_some:
        return value.get_unsafe()
    error('Iterator has been exhausted')

def _iter(iterable):
    return iterable.__iter__()

@meta_fn
def _super(*args):
    return super(*(arg._as_py_() if arg._is_py_() else arg for arg in args))

@meta_fn
def _hasattr(obj, name):
    from sonolus.script.internal.constant import ConstantValue
    from sonolus.script.internal.descriptor import SonolusDescriptor
    name = validate_value(name)._as_py_()
    if isinstance(obj, ConstantValue):
        obj = obj._as_py_()
    descriptor = None
    for cls in type.mro(type(obj)):
        descriptor = cls.__dict__.get(name, None)
        if descriptor is not None:
            break
    match descriptor:
        case None:
            return hasattr(obj, name)
        case property() | SonolusDescriptor() | FunctionType() | classmethod() | staticmethod():
            return True
        case non_descriptor if not hasattr(non_descriptor, '__get__'):
            return True
        case _:
            raise TypeError(f'Unsupported field or descriptor {name}')

@meta_fn
def _getattr(obj, name, default=_empty):
    from sonolus.script.internal.constant import ConstantValue
    from sonolus.script.internal.descriptor import SonolusDescriptor
    from sonolus.script.internal.visitor import compile_and_call
    name = validate_value(name)._as_py_()
    if isinstance(obj, ConstantValue):
        obj = obj._as_py_()
    descriptor = None
    for cls in type.mro(type(obj)):
        descriptor = cls.__dict__.get(name, None)
        if descriptor is not None:
            break
    match descriptor:
        case property(fget=getter):
            return compile_and_call(getter, obj)
        case SonolusDescriptor() | FunctionType() | classmethod() | staticmethod() | None:
            return validate_value(getattr(obj, name) if default is _empty else getattr(obj, name, default))
        case non_descriptor if not hasattr(non_descriptor, '__get__'):
            return validate_value(getattr(obj, name) if default is _empty else getattr(obj, name, default))
        case _:
            raise TypeError(f'Unsupported field or descriptor {name}')

@meta_fn
def _setattr(obj, name, value):
    from sonolus.script.internal.descriptor import SonolusDescriptor
    from sonolus.script.internal.visitor import compile_and_call
    name = validate_value(name)._as_py_()
    if obj._is_py_():
        obj = obj._as_py_()
    descriptor = getattr(type(obj), name, None)
    match descriptor:
        case property(fset=setter):
            if setter is None:
                raise AttributeError(f'Cannot set attribute {name} because property has no setter')
            compile_and_call(setter, obj, value)
        case SonolusDescriptor():
            setattr(obj, name, value)
        case _:
            raise TypeError(f'Unsupported field or descriptor {name}')

class _Type(Record):

    @meta_fn
    def __call__(self, value, /):
        value = validate_value(value)
        if value._is_py_():
            value = value._as_py_()
        return validate_value(type(value))

    def __getitem__(self, item):
        return self
_type = _Type()

@meta_fn
def _assert_never(arg, /):
    error('Expected code to be unreachable')
BUILTIN_IMPLS = {id(abs): _abs, id(all): _all, id(any): _any, id(bool): _bool, id(callable): _callable, id(dict): _dict, id(enumerate): _enumerate, id(filter): _filter, id(float): _float, id(getattr): _getattr, id(hasattr): _hasattr, id(int): _int, id(isinstance): _isinstance, id(iter): _iter, id(len): _len, id(map): _map, id(max): _max, id(min): _min, id(next): _next, id(range): Range.frozen, id(reversed): _reversed, id(set): _set, id(setattr): _setattr, id(sum): _sum, id(super): _super, id(type): _type, id(zip): _zip, id(assert_never): _assert_never, **MATH_BUILTIN_IMPLS, **RANDOM_BUILTIN_IMPLS}
impl.BUILTIN_IMPLS = BUILTIN_IMPLS
