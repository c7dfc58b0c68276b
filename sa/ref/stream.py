from math import inf
from typing import Final, cast, dataclass_transform
from sonolus.backend.ir import IRConst, IRExpr, IRInstr, IRPureInstr
from sonolus.backend.mode import Mode
from sonolus.backend.ops import Op
from sonolus.script.array_like import check_positive_index
from sonolus.script.internal.context import ctx
from sonolus.script.internal.descriptor import SonolusDescriptor
from sonolus.script.internal.introspection import get_field_specifiers
from sonolus.script.internal.meta_fn import meta_fn
from sonolus.script.internal.native import native_function
from sonolus.script.internal.value import BackingValue, Value
from sonolus.script.iterator import SonolusIterator
from sonolus.script.maybe import Maybe, Nothing, Some
from sonolus.script.num import Num
from sonolus.script.record import Record
from sonolus.script.runtime import prev_time, time
from sonolus.script.values import sizeof

class _StreamField(SonolusDescriptor):
    offset: int
    type_: type[Stream] | type[StreamGroup]

    def __init__(self, offset, type_):
        self.offset = offset
        self.type_ = type_

    def __get__(self, instance, owner):
        _check_can_read_or_write_stream()
        return self.type_(self.offset)

    def __set__(self, instance, value):
        raise AttributeError('Cannot set attribute')

class _StreamDataField(SonolusDescriptor):
    offset: int
    type_: type[Value]

    def __init__(self, offset, type_):
        self.offset = offset
        self.type_ = type_

    def _get(self):
        return self.type_._from_backing_source_(lambda offset: _SparseStreamBacking(self.offset, Num(offset)))

    def __get__(self, instance, owner):
        _check_can_read_or_write_stream()
        return self._get()._get_readonly_()

    def __set__(self, instance, value):
        _check_can_write_stream()
        if self.type_._is_value_type_():
            self._get()._set_(value)
        else:
            self._get()._copy_from_(value)

@dataclass_transform(kw_only_default=True)
def streams(cls):
    if len(cls.__bases__) != 1:
        raise ValueError('Streams class must not inherit from any class (except object)')

    @classmethod
    def _init_(cls):
        if getattr(cls, '_init_done_', False):
            return
        entries = []
        offset = 1
        for name, annotation in get_field_specifiers(cls, skip={'_init_done_'}).items():
            if issubclass(annotation, Stream | StreamGroup):
                annotation = cast(type[Stream | StreamGroup], annotation)
                if annotation is Stream or annotation is StreamGroup:
                    raise TypeError(f'Invalid annotation for streams: {annotation}. Must have type arguments.')
                setattr(cls, name, _StreamField(offset, annotation))
                entries.append((name, offset, annotation))
                offset += annotation.backing_size()
            elif issubclass(annotation, Value) and annotation._is_concrete_():
                setattr(cls, name, _StreamDataField(offset, annotation))
                entries.append((name, offset, annotation))
                offset += 1
        cls._streams_ = entries
        cls._is_comptime_value_ = True
        cls._init_done_ = True
    cls._init_ = _init_
    return cls()

@meta_fn
def _check_can_read_stream():
    if not ctx() or ctx().mode_state.mode != Mode.WATCH:
        raise RuntimeError('Stream read operations are only allowed in watch mode.')

@meta_fn
def _check_can_write_stream():
    if not ctx() or ctx().mode_state.mode != Mode.PLAY:
        raise RuntimeError('Stream write operations are only allowed in play mode.')

@meta_fn
def _check_can_read_or_write_stream():
    if not ctx() or ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
        raise RuntimeError('Stream operations are only allowed in play and watch modes.')

class _StreamBacking(BackingValue):
    id: Num
    index: Num

    def __init__(self, stream_id, index):
        super().__init__()
        self.id = Num._accept_(stream_id)
        self.index = Num._accept_(index)

    def read(self):
        _check_can_read_stream()
        return IRPureInstr(Op.StreamGetValue, [self.id.ir(), self.index.ir()])

    def write(self, value):
        _check_can_write_stream()
        ctx().add_statement(IRInstr(Op.StreamSet, [self.id.ir(), self.index.ir(), value]))

class _SparseStreamBacking(BackingValue):
    id: Num
    index: Num

    def __init__(self, stream_id, index):
        super().__init__()
        self.id = Num._accept_(stream_id)
        self.index = Num._accept_(index)

    def read(self):
        _check_can_read_stream()
        return IRPureInstr(Op.StreamGetValue, [self.id.ir(), self.index.ir()])

    def write(self, value):
        _check_can_write_stream()
        ctx().add_statements(IRInstr(Op.StreamSet, [self.id.ir(), self.index.ir(), value]), IRInstr(Op.StreamSet, [self.id.ir(), (self.index - 0.5).ir(), IRConst(0)]), IRInstr(Op.StreamSet, [self.id.ir(), (self.index + 0.5).ir(), IRConst(0)]))

class Stream(Record):
    offset: int

    @classmethod
    def element_type(cls):
        return cls.type_var_value(T)

    @classmethod
    @meta_fn
    def backing_size(cls):
        return max(1, sizeof(cls.element_type()))

    def __contains__(self, item):
        _check_can_read_stream()
        return _stream_has(self.offset, item)

    @meta_fn
    def __getitem__(self, key):
        _check_can_read_or_write_stream()
        return self.element_type()._from_backing_source_(lambda offset: _StreamBacking(self.offset + Num(offset), key))

    @meta_fn
    def __setitem__(self, key, value):
        _check_can_write_stream()
        if not self.element_type()._accepts_(value):
            raise TypeError(f'Cannot set value of type {type(value)} to stream of type {self.element_type()}.')
        if self.element_type()._size_() == 0:
            _stream_set(self.offset, key, 0)
        else:
            for i, v in enumerate(cast(Value, value)._to_list_()):
                _stream_set(self.offset + i, key, Num(v))

    def next_key(self, key):
        _check_can_read_stream()
        return _stream_get_next_key(self.offset, key)

    def next_key_or_default(self, key, default):
        _check_can_read_stream()
        next_key = self.next_key(key)
        return next_key if next_key > key else default

    def previous_key(self, key):
        _check_can_read_stream()
        return _stream_get_previous_key(self.offset, key)

    def previous_key_or_default(self, key, default):
        _check_can_read_stream()
        previous_key = self.previous_key(key)
        return previous_key if previous_key < key else default

    def has_next_key(self, key):
        _check_can_read_stream()
        next_key = self.next_key(key)
        return next_key > key

    def has_previous_key(self, key):
        _check_can_read_stream()
        previous_key = self.previous_key(key)
        return previous_key < key

    def next_key_inclusive(self, key):
        _check_can_read_stream()
        return key if key in self else self.next_key(key)

    def previous_key_inclusive(self, key):
        _check_can_read_stream()
        return key if key in self else self.previous_key(key)

    def get_next(self, key):
        _check_can_read_stream()
        return self[self.next_key(key)]

    def get_previous(self, key):
        _check_can_read_stream()
        return self[self.previous_key(key)]

    def get_next_inclusive(self, key):
        _check_can_read_stream()
        return self[self.next_key_inclusive(key)]

    def get_previous_inclusive(self, key):
        _check_can_read_stream()
        return self[self.previous_key_inclusive(key)]

    def iter_items_from(self, start, /):
        _check_can_read_stream()
        return _StreamAscIterator(self, self.next_key_inclusive(start))

    def iter_items_since_previous_frame(self):
        _check_can_read_stream()
        return _StreamBoundedAscIterator(self, self.next_key_or_default(prev_time(), inf), time())

    def iter_items_from_desc(self, start, /):
        _check_can_read_stream()
        return _StreamDescIterator(self, self.previous_key_inclusive(start))

    def iter_keys_from(self, start, /):
        _check_can_read_stream()
        return _StreamAscKeyIterator(self, self.next_key_inclusive(start))

    def iter_keys_since_previous_frame(self):
        _check_can_read_stream()
        return _StreamBoundedAscKeyIterator(self, self.next_key_or_default(prev_time(), inf), time())

    def iter_keys_from_desc(self, start, /):
        _check_can_read_stream()
        return _StreamDescKeyIterator(self, self.previous_key_inclusive(start))

    def iter_values_from(self, start, /):
        _check_can_read_stream()
        return _StreamAscValueIterator(self, self.next_key_inclusive(start))

    def iter_values_since_previous_frame(self):
        _check_can_read_stream()
        return _StreamBoundedAscValueIterator(self, self.next_key_or_default(prev_time(), inf), time())

    def iter_values_from_desc(self, start, /):
        _check_can_read_stream()
        return _StreamDescValueIterator(self, self.previous_key_inclusive(start))

class StreamGroup(Record):
    offset: int

    @classmethod
    def size(cls):
        return cls.type_var_value(Size)

    @classmethod
    def element_type(cls):
        return cls.type_var_value(T)

    @classmethod
    @meta_fn
    def backing_size(cls):
        return max(1, sizeof(cls.element_type())) * cls.size()

    def __contains__(self, item):
        _check_can_read_or_write_stream()
        return 0 <= item < self.size()

    def __getitem__(self, index):
        _check_can_read_or_write_stream()
        check_positive_index(index, self.size())
        t = self.type_var_value(T)
        return Stream[t](max(1, sizeof(self.element_type())) * index + self.offset)

class _StreamAscIterator(Record, SonolusIterator[tuple[int | float, T]]):
    stream: Stream[T]
    current_key: int | float

    def next(self):
        if self.current_key in self.stream:
            result = (self.current_key, self.stream[self.current_key])
            self.current_key = self.stream.next_key_or_default(self.current_key, inf)
            return Some(result)
        return Nothing

class _StreamBoundedAscIterator(Record, SonolusIterator[tuple[int | float, T]]):
    stream: Stream[T]
    current_key: int | float
    end_key: Final[int | float]

    def next(self):
        if self.current_key in self.stream and self.current_key <= self.end_key:
            result = (self.current_key, self.stream[self.current_key])
            self.current_key = self.stream.next_key_or_default(self.current_key, inf)
            return Some(result)
        return Nothing

class _StreamDescIterator(Record, SonolusIterator[tuple[int | float, T]]):
    stream: Stream[T]
    current_key: int | float

    def next(self):
        if self.current_key in self.stream:
            result = (self.current_key, self.stream[self.current_key])
            self.current_key = self.stream.previous_key_or_default(self.current_key, -inf)
            return Some(result)
        return Nothing

class _StreamAscKeyIterator(Record, SonolusIterator[int | float]):
    stream: Stream[T]
    current_key: int | float

    def next(self):
        if self.current_key in self.stream:
            result = self.current_key
            self.current_key = self.stream.next_key_or_default(self.current_key, inf)
            return Some(result)
        return Nothing

class _StreamBoundedAscKeyIterator(Record, SonolusIterator[int | float]):
    stream: Stream[T]
    current_key: int | float
    end_key: Final[int | float]

    def next(self):
        if self.current_key in self.stream and self.current_key <= self.end_key:
            result = self.current_key
            self.current_key = self.stream.next_key_or_default(self.current_key, inf)
            return Some(result)
        return Nothing

class _StreamDescKeyIterator(Record, SonolusIterator[int | float]):
    stream: Stream[T]
    current_key: int | float

    def next(self):
        if self.current_key in self.stream:
            result = self.current_key
            self.current_key = self.stream.previous_key_or_default(self.current_key, -inf)
            return Some(result)
        return Nothing

class _StreamAscValueIterator(Record, SonolusIterator[T]):
    stream: Stream[T]
    current_key: int | float

    def next(self):
        if self.current_key in self.stream:
            result = self.stream[self.current_key]
            self.current_key = self.stream.next_key_or_default(self.current_key, inf)
            return Some(result)
        return Nothing

class _StreamBoundedAscValueIterator(Record, SonolusIterator[T]):
    stream: Stream[T]
    current_key: int | float
    end_key: Final[int | float]

    def next(self):
        if self.current_key in self.stream and self.current_key <= self.end_key:
            result = self.stream[self.current_key]
            self.current_key = self.stream.next_key_or_default(self.current_key, inf)
            return Some(result)
        return Nothing

class _StreamDescValueIterator(Record, SonolusIterator[T]):
    stream: Stream[T]
    current_key: int | float

    def next(self):
        if self.current_key in self.stream:
            result = self.stream[self.current_key]
            self.current_key = self.stream.previous_key_or_default(self.current_key, -inf)
            return Some(result)
        return Nothing

@native_function(Op.StreamGetNextKey)
def _stream_get_next_key(stream_id, key):
    raise NotImplementedError

@native_function(Op.StreamGetPreviousKey)
def _stream_get_previous_key(stream_id, key):
    raise NotImplementedError

@native_function(Op.StreamGetValue)
def _stream_get_value(stream_id, key):
    raise NotImplementedError

@native_function(Op.StreamHas)
def _stream_has(stream_id, key):
    raise NotImplementedError

@native_function(Op.StreamSet)
def _stream_set(stream_id, key, value):
    raise NotImplementedError
