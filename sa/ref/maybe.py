from collections.abc import Callable
from typing import Any
from sonolus.script.internal.context import ctx
from sonolus.script.internal.impl import validate_value
from sonolus.script.internal.meta_fn import meta_fn
from sonolus.script.internal.transient import TransientValue
from sonolus.script.internal.value import Value
from sonolus.script.num import Num
from sonolus.script.values import copy, zeros

class Maybe(TransientValue):
    _present: Num
    _value: T

    def __init__(self, *, present, value):
        self._present = Num._accept_(present)
        self._value = validate_value(value)

    @property
    @meta_fn
    def is_some(self):
        if ctx():
            if self._present._is_py_():
                return self._present
            return self._present._get_readonly_()
        else:
            return self._present._as_py_()

    @property
    def is_nothing(self):
        return not self.is_some

    def get(self, *, error_message='Tried to get the value of an empty Maybe instance'):
        assert self.is_some, error_message
        return self.get_unsafe()

    @meta_fn
    def get_unsafe(self):
        if ctx():
            return self._value
        else:
            return self._value._as_py_()

    def map(self, fn, /):
        if self.is_some:
            return Some(fn(self.get_unsafe()))
        return Nothing

    def flat_map(self, fn, /):
        if self.is_some:
            return fn(self.get_unsafe())
        return Nothing

    def or_default(self, default):
        result = _box(copy(default))
        if self.is_some:
            result.value = self.get_unsafe()
        return result.value

    @meta_fn
    def or_else(self, fn, /):
        from sonolus.script.internal.visitor import compile_and_call
        if ctx():
            if self.is_some._is_py_():
                if self.is_some._as_py_():
                    return copy(self.get_unsafe())
                else:
                    return copy(compile_and_call(fn))
            else:
                return compile_and_call(self._or_else, fn)
        elif self.is_some:
            return copy(self.get_unsafe())
        else:
            return copy(fn())

    def _or_else(self, fn, /):
        result = _box(zeros(self.contained_type))
        if self.is_some:
            result.value = self.get_unsafe()
        else:
            result.value = fn()
        return result.value

    @property
    def tuple(self):
        result_value = _box(zeros(self.contained_type))
        if self.is_some:
            result_value.value = self.get_unsafe()
        return (self.is_some, result_value.value)

    @property
    @meta_fn
    def contained_type(self):
        return type(self._value)

    @classmethod
    def _accepts_(cls, value):
        return isinstance(value, cls)

    @classmethod
    def _accept_(cls, value):
        if not cls._accepts_(value):
            raise TypeError(f'Cannot accept value of type {type(value).__name__} as {cls.__name__}.')
        return value

    def _is_py_(self):
        present_is_py = self._present._is_py_()
        if present_is_py and self._present._as_py_() == 0:
            return True
        return present_is_py and (not isinstance(self._value, Value) or self._value._is_py_())

    def _as_py_(self):
        if not self._is_py_():
            raise ValueError('Not a python value')
        return self

    def _copy_from_(self, value):
        raise TypeError('Maybe does not support mutation.')

    def _copy_(self):
        raise TypeError('Maybe does not support copying.')

    def _set_(self, value):
        if not self._accepts_(value):
            raise TypeError(f'Cannot set value of type {type(value).__name__} to {self.__class__.__name__}.')
        if value is not Nothing and self._value is not value._value:
            raise TypeError(f'Cannot set value of type {type(value._value).__name__} to {self.__class__.__name__}.')
        self._present._set_(value._present)

    @classmethod
    def _get_merge_target_(cls, values):
        if not all((isinstance(v, cls) for v in values)):
            return NotImplemented
        distinct = []
        seen_ids = set()
        for v in values:
            if v is Nothing:
                continue
            if id(v._value) not in seen_ids:
                distinct.append(v)
                seen_ids.add(id(v._value))
        match distinct:
            case []:
                return Nothing
            case [v]:
                return Maybe(present=Num._alloc_(), value=v._value)
            case _:
                return NotImplemented

def Some(value):
    return Maybe(present=True, value=value)
Nothing: Maybe[Any] = Maybe(present=False, value=None)

@meta_fn
def _box(value):
    from sonolus.script.containers import Box
    return Box(value)
