from collections.abc import Iterable
from typing import Any, ClassVar, Self
from sonolus.backend.place import BlockPlace
from sonolus.script.internal.simple_meta_fn import simple_meta_fn
from sonolus.script.internal.value import DataValue, Value

class _Missing:

    def __repr__(self):
        return 'MISSING'

    def __bool__(self):
        return False
_MISSING = _Missing()

class ConstantValue(Value):
    _parameterized_: ClassVar[dict[Any, type[Self]]] = {}
    _value: ClassVar[Any] = _MISSING
    instance: ClassVar[Self | _Missing] = _MISSING

    def __new__(cls):
        if cls.value() is _MISSING:
            raise TypeError(f'Class {cls.__name__} is not parameterized')
        return cls.instance

    @classmethod
    def value(cls):
        return cls._value[0] if cls._value is not _MISSING else _MISSING

    @classmethod
    def of(cls, value):
        parameterized = cls._parameterized_.get(value)
        if parameterized is None:
            parameterized = cls._get_parameterized(value)
            cls._parameterized_[value] = parameterized
        return parameterized.instance

    @classmethod
    def _get_parameterized(cls, parameter):

        class Parameterized(cls):
            _value = (parameter,)
        Parameterized.__name__ = f'Const[{object.__repr__(parameter)}]'
        Parameterized.__qualname__ = Parameterized.__name__
        Parameterized.__module__ = cls.__module__
        Parameterized.instance = object.__new__(Parameterized)
        return Parameterized

    @classmethod
    def _is_concrete_(cls):
        return True

    @classmethod
    def _size_(cls):
        return 0

    @classmethod
    def _is_value_type_(cls):
        return False

    @classmethod
    def _from_place_(cls, place):
        if cls.value() is _MISSING:
            raise TypeError(f'Class {cls.__name__} is not parameterized')
        return cls()

    @classmethod
    def _accepts_(cls, value):
        from sonolus.script.internal.impl import validate_value
        return isinstance(validate_value(value), cls)

    @classmethod
    def _accept_(cls, value):
        from sonolus.script.internal.impl import validate_value
        value = validate_value(value)
        if not isinstance(value, cls):
            raise ValueError(f'Value {value} is not of type {cls}')
        return value

    def _is_py_(self):
        return True

    def _as_py_(self):
        return self.value()

    @classmethod
    def _from_list_(cls, values):
        return cls()

    def _to_list_(self, level_refs=None):
        return []

    @classmethod
    def _flat_keys_(cls, prefix):
        return []

    def _get_(self):
        return self

    def _set_(self, value):
        if value is not self:
            raise ValueError(f'{type(self).__name__} is immutable')

    def _copy_from_(self, value):
        if value is not self:
            raise ValueError(f'{type(self).__name__} is immutable')

    def _copy_(self):
        return self

    @classmethod
    def _alloc_(cls):
        return cls()

    @classmethod
    def _zero_(cls):
        return cls()

    @simple_meta_fn
    def __eq__(self, other):
        return self is other

    @simple_meta_fn
    def __ne__(self, other):
        return self is not other

    @simple_meta_fn
    def __hash__(self):
        return hash(self.value())

class BasicConstantValue(ConstantValue):
    pass

class TypingSpecialFormConstant(ConstantValue):

    @simple_meta_fn
    def __getitem__(self, item):
        if not item._is_py_():
            raise TypeError(f'Invalid value for type parameter: {item}')
        return self.value()[item._as_py_()]
