from collections.abc import Iterator
from typing import Any, Final
from sonolus.script.internal.context import ctx
from sonolus.script.internal.meta_fn import meta_fn
from sonolus.script.maybe import Maybe, Nothing, Some
from sonolus.script.record import Record

class SonolusIterator:
    _allow_instance_check_ = True

    @meta_fn
    def next(self):
        raise NotImplementedError

    def __next__(self):
        result = self.next()
        if result.is_some:
            return result.get_unsafe()
        else:
            raise StopIteration

    def __iter__(self):
        return self

class _Enumerator(Record, SonolusIterator):
    i: int
    offset: Final[int]
    iterator: V

    def next(self):
        value = self.iterator.next()
        if value.is_nothing:
            return Nothing
        result = (self.i + self.offset, value.get_unsafe())
        self.i += 1
        return Some(result)

class _Zipper(Record, SonolusIterator):
    iterators: T

    @meta_fn
    def _get_iterators(self):
        from sonolus.script.containers import Pair
        iterators = []
        v = self.iterators
        while isinstance(v, Pair):
            iterators.append(v.first)
            v = v.second
        iterators.append(v)
        return tuple(iterators)

    def next(self):
        values = ()
        for iterator in self._get_iterators():
            value = iterator.next()
            if value.is_nothing:
                return Nothing
            values += (value.get_unsafe(),)
        return Some(values)

class _EmptyIterator(Record, SonolusIterator):

    def next(self):
        return Nothing

class _MappingIterator(Record, SonolusIterator):
    fn: Fn
    iterator: T

    def next(self):
        return self.iterator.next().map(self.fn)

class _FilteringIterator(Record, SonolusIterator):
    fn: Fn
    iterator: T

    def next(self):
        while True:
            value = self.iterator.next()
            if value.is_nothing:
                return Nothing
            inside = value.get_unsafe()
            if self.fn(inside):
                return Some(inside)

@meta_fn
def maybe_next(iterator):
    from sonolus.script.internal.visitor import compile_and_call
    if not isinstance(iterator, SonolusIterator):
        raise TypeError('Iterator must be an instance of SonolusIterator.')
    if ctx():
        return compile_and_call(iterator.next)
    else:
        return iterator.next()
