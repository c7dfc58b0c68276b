from collections.abc import Iterable
from typing import Any, Self
from sonolus.backend.place import BlockPlace
from sonolus.script.internal.value import DataValue, Value

class TransientValue(Value):

    @classmethod
    def _is_concrete_(cls):
        return True

    @classmethod
    def _size_(cls):
        return 0

    @classmethod
    def _is_value_type_(cls):
        return False

    @classmethod
    def _from_place_(cls, place):
        raise TypeError(f'{cls.__name__} cannot be dereferenced')

    @classmethod
    def _from_list_(cls, values):
        raise TypeError(f'{cls.__name__} cannot be constructed from list')

    def _to_list_(self, level_refs=None):
        raise TypeError(f'{type(self).__name__} cannot be deconstructed to list')

    @classmethod
    def _flat_keys_(cls, prefix):
        raise TypeError(f'{cls.__name__} cannot be flattened')

    def _get_(self):
        return self

    def _set_(self, value):
        if value is not self:
            raise TypeError(f'{type(self).__name__} is immutable')

    def _copy_from_(self, value):
        raise TypeError(f'{type(self).__name__} is immutable')

    def _copy_(self):
        raise TypeError(f'{type(self).__name__} cannot be copied')

    @classmethod
    def _alloc_(cls):
        raise TypeError(f'{cls.__name__} is not allocatable')

    @classmethod
    def _zero_(cls):
        raise TypeError(f'{cls.__name__} does not have a zero value')
