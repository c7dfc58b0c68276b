from abc import abstractmethod
from collections.abc import Callable, Iterable
from types import NotImplementedType
from typing import Any, Self
from sonolus.backend.ir import IRConst, IRExpr, IRStmt
from sonolus.backend.place import BlockPlace

class BackingValue:
    __slots__ = ()

    def read(self):
        raise NotImplementedError()

    def write(self, value):
        raise NotImplementedError()

class ExprBackingValue(BackingValue):
    __slots__ = ('_expr',)

    def __init__(self, expr):
        self._expr = expr

    def read(self):
        return self._expr

    def write(self, value):
        raise RuntimeError('Value is read-only, cannot write to it')

class ReadOnlyBackingValueWrapper(BackingValue):
    __slots__ = ('_value',)

    def __init__(self, value):
        self._value = value

    def read(self):
        return self._value.read()

    def write(self, value):
        raise RuntimeError('Value is read-only, cannot write to it')

class Value:
    __slots__ = ()

    @classmethod
    def _is_concrete_(cls):
        return False

    @classmethod
    @abstractmethod
    def _size_(cls):
        raise NotImplementedError

    @classmethod
    @abstractmethod
    def _is_value_type_(cls):
        raise NotImplementedError

    @classmethod
    @abstractmethod
    def _from_place_(cls, place):
        raise NotImplementedError

    @classmethod
    @abstractmethod
    def _accepts_(cls, value):
        raise NotImplementedError

    @classmethod
    @abstractmethod
    def _accept_(cls, value):
        raise NotImplementedError

    @abstractmethod
    def _is_py_(self):
        raise NotImplementedError

    @abstractmethod
    def _as_py_(self):
        raise NotImplementedError

    @classmethod
    def _from_backing_source_(cls, source):
        return cls._from_list_((source(IRConst(i)) for i in range(cls._size_())))

    @classmethod
    @abstractmethod
    def _from_list_(cls, values):
        raise NotImplementedError

    @abstractmethod
    def _to_list_(self, level_refs=None):
        raise NotImplementedError

    @classmethod
    @abstractmethod
    def _flat_keys_(cls, prefix):
        raise NotImplementedError

    def _to_flat_dict_(self, prefix, level_refs=None):
        return dict(zip(self._flat_keys_(prefix), self._to_list_(level_refs), strict=False))

    @abstractmethod
    def _get_(self):
        raise NotImplementedError

    def _get_readonly_(self):
        return self._get_()

    @abstractmethod
    def _set_(self, value):
        raise NotImplementedError

    @abstractmethod
    def _copy_from_(self, value):
        raise NotImplementedError

    @abstractmethod
    def _copy_(self):
        raise NotImplementedError

    @classmethod
    @abstractmethod
    def _alloc_(cls):
        raise NotImplementedError

    @classmethod
    @abstractmethod
    def _zero_(cls):
        raise NotImplementedError

    @classmethod
    def _get_merge_target_(cls, values):
        if cls._is_value_type_():
            from sonolus.script.internal.context import ctx
            return cls._from_place_(ctx().alloc(size=cls._size_()))
        else:
            return NotImplemented

    def __imatmul__(self, other):
        self._copy_from_(other)
        return self
Value.__imatmul__._meta_fn_ = True
