class Box(Record):
    pass

class Pair(Record):

    def __lt__(self, other):
        if self.first == other.first:
            return self.second < other.second
        return self.first < other.first

    def __le__(self, other):
        if self.first == other.first:
            return self.second <= other.second
        return self.first <= other.first

    def __gt__(self, other):
        if self.first == other.first:
            return self.second > other.second
        return self.first > other.first

    def __ge__(self, other):
        if self.first == other.first:
            return self.second >= other.second
        return self.first >= other.first

    @property
    def tuple(self):
        return (self.first, self.second)

class VarArray(Record, ArrayLike[T]):

    @classmethod
    def new(cls):
        element_type = cls.type_var_value(T)
        capacity = cls.type_var_value(Capacity)
        return cls(0, zeros(Array[element_type, capacity]))

    def __len__(self):
        return self._size

    @classmethod
    def capacity(cls):
        return cls.type_var_value(Capacity)

    def is_full(self):
        return self._size == self.capacity()

    def __getitem__(self, item):
        return self._array.get_unchecked(get_positive_index(item, self._size))

    def __setitem__(self, key, value):
        self._array.set_unchecked(get_positive_index(key, self._size), value)

    def __delitem__(self, key):
        self.pop(key)

    def append(self, value):
        assert self._size < len(self._array), 'Array is full'
        self._array.set_unchecked(self._size, value)
        self._size += 1

    def append_unchecked(self, value):
        self._array.set_unchecked(self._size, value)
        self._size += 1

    def extend(self, values):
        assert self._size + len(values) <= len(self._array), 'Array is full'
        i = 0
        while i < len(values):
            self._array.set_unchecked(self._size + i, values.get_unchecked(i))
            i += 1
        self._size += len(values)

    def pop(self, index=None):
        if index is None:
            index = self._size - 1
        index = get_positive_index(index, self._size)
        value = copy(self._array.get_unchecked(index))
        self._size -= 1
        if index < self._size:
            for i in range(index, self._size):
                self._array.set_unchecked(i, self._array.get_unchecked(i + 1))
        return value

    def insert(self, index, value):
        index = clamp(get_positive_index(index, self._size, include_end=True), 0, self._size)
        assert self._size < len(self._array), 'Array is full'
        self._size += 1
        for i in range(self._size - 1, index, -1):
            self._array.set_unchecked(i, self._array.get_unchecked(i - 1))
        self._array.set_unchecked(index, value)

    def remove(self, value):
        index = self.index(value)
        if index < 0:
            return False
        self.pop(index)
        return True

    def clear(self):
        self._size = 0

    def set_add(self, value):
        if self._size >= len(self._array):
            return False
        if value in self:
            return False
        self.append(value)
        return True

    def set_remove(self, value):
        index = self.index(value)
        if index < 0:
            return False
        if index < self._size - 1:
            self._array.set_unchecked(index, self._array.get_unchecked(self._size - 1))
        self._size -= 1
        return True

    def __iadd__(self, other):
        self.extend(other)
        return self

    def __eq__(self, other):
        if not isinstance(other, ArrayLike):
            return False
        if len(self) != len(other):
            return False
        i = 0
        while i < len(self):
            if self.get_unchecked(i) != other.get_unchecked(i):
                return False
            i += 1
        return True

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        raise TypeError("unhashable type: 'VarArray'")

    def get_unchecked(self, index):
        return self._array.get_unchecked(index)

    def set_unchecked(self, index, value):
        self._array.set_unchecked(index, value)

class ArrayPointer(Record, ArrayLike[T]):

    def __len__(self):
        return self.size

    @classmethod
    def element_type(cls):
        return cls.type_var_value(T)

    @meta_fn
    def _get_item(self, item):
        if not ctx():
            raise TypeError('ArrayPointer values cannot be accessed outside of a context')
        return _deref(self._value_['block']._is_py_() and self._value_['block']._as_py_() or self.block, self.offset + Num._accept_(item) * Num._accept_(self.element_type()._size_()), self.element_type())

    def __getitem__(self, item):
        return self.get_unchecked(get_positive_index(item, self.size))

    def __setitem__(self, key, value):
        self.set_unchecked(get_positive_index(key, self.size), value)

    @meta_fn
    def get_unchecked(self, item):
        return self._get_item(item)._get_()

    @meta_fn
    def set_unchecked(self, key, value):
        dst = self._get_item(key)
        if self.element_type()._is_value_type_():
            dst._set_(value)
        else:
            dst._copy_from_(value)

class ArraySet(Record):

    @classmethod
    def new(cls):
        element_type = cls.type_var_value(T)
        capacity = cls.type_var_value(Capacity)
        return cls(VarArray[element_type, capacity].new())

    def __len__(self):
        return len(self._values)

    def __contains__(self, value):
        return value in self._values

    def __iter__(self):
        return self._values.__iter__()

    def add(self, value):
        return self._values.set_add(value)

    def remove(self, value):
        return self._values.set_remove(value)

    def clear(self):
        self._values.clear()

class FrozenNumSet(Record):

    @classmethod
    @meta_fn
    def of(cls, *values):
        if ctx():
            try:
                num_values = [Num._accept_(v) for v in values]
            except TypeError:
                raise TypeError('Only sets of numeric values are supported') from None
            if all((v._is_py_() for v in num_values)):
                const_values = [v._as_py_() for v in num_values]
                arr = Array[Num, len(const_values)]._with_value([Num(v) for v in sorted(const_values)])
                return cls(arr)
            else:
                arr = Array[Num, len(values)](*values)
                compile_and_call(arr.sort)
        else:
            arr = Array[Num, len(values)](*sorted(values))
        return cls(arr)

    def __len__(self):
        return len(self._values)

    def __contains__(self, value):
        if len(self) < 16:
            return value in self._as_tuple()
        else:
            left = 0
            right = len(self) - 1
            while left <= right:
                mid = (left + right) // 2
                mid_value = self._values.get_unchecked(mid)
                if mid_value == value:
                    return True
                elif mid_value < value:
                    left = mid + 1
                else:
                    right = mid - 1
            return False

    def __iter__(self):
        return self._values.__iter__()

    @meta_fn
    def _as_tuple(self):
        return tuple((self._values.get_unchecked(i) for i in range(Num._accept_(len(self))._as_py_())))

class _ArrayMapEntry(Record):
    pass

class ArrayMap(Record):

    @classmethod
    def new(cls):
        key_type = cls.type_var_value(K)
        value_type = cls.type_var_value(V)
        capacity = cls.type_var_value(Capacity)
        return cls(0, zeros(Array[_ArrayMapEntry[key_type, value_type], capacity]))

    def __len__(self):
        return self._size

    @classmethod
    def capacity(cls):
        return cls.type_var_value(Capacity)

    def is_full(self):
        return self._size == self.capacity()

    def keys(self):
        return _ArrayMapKeyIterator(self, 0)

    def values(self):
        return _ArrayMapValueIterator(self, 0)

    def items(self):
        return _ArrayMapEntryIterator(self, 0)

    def __iter__(self):
        return self.keys()

    def __getitem__(self, key):
        for i in range(self._size):
            entry = self._array.get_unchecked(i)
            if entry.key == key:
                return entry.value
        error()

    def __setitem__(self, key, value):
        for i in range(self._size):
            entry = self._array.get_unchecked(i)
            if entry.key == key:
                entry.value = value
                return
        assert self._size < self.capacity(), 'Map is full'
        self._array.set_unchecked(self._size, _ArrayMapEntry(key, value))
        self._size += 1

    def __delitem__(self, key):
        for i in range(self._size):
            entry = self._array.get_unchecked(i)
            if entry.key == key:
                self._size -= 1
                if i < self._size:
                    self._array.set_unchecked(i, self._array.get_unchecked(self._size))
                return
        error()

    def __contains__(self, key):
        for i in range(self._size):
            if self._array.get_unchecked(i).key == key:
                return True
        return False

    def pop(self, key):
        for i in range(self._size):
            entry = self._array.get_unchecked(i)
            if entry.key == key:
                value = copy(entry.value)
                self._size -= 1
                if i < self._size:
                    self._array.set_unchecked(i, self._array.get_unchecked(self._size))
                return value
        error()

    def clear(self):
        self._size = 0

class _ArrayMapKeyIterator(Record, SonolusIterator):

    def next(self):
        if self._index < len(self._map):
            key = self._map._array.get_unchecked(self._index).key
            self._index += 1
            return Some(key)
        return Nothing

class _ArrayMapValueIterator(Record, SonolusIterator):

    def next(self):
        if self._index < len(self._map):
            value = self._map._array.get_unchecked(self._index).value
            self._index += 1
            return Some(value)
        return Nothing

class _ArrayMapEntryIterator(Record, SonolusIterator):

    def next(self):
        if self._index < len(self._map):
            entry = self._map._array.get_unchecked(self._index)
            result = (entry.key, entry.value)
            self._index += 1
            return Some(result)
        return Nothing

class _LinkedListNodeRef(Protocol):

    def get_value(self):
        ...

    def get_next(self):
        ...

    def set_next(self, next_node):
        ...

    def set_prev(self, prev_node):
        return

    def is_present(self):
        ...

    def set(self, other):
        ...

    def copy(self):
        ...

    def empty(self):
        ...

def _merge_linked_list_nodes(a, b):
    head = a.empty()
    tail = a.empty()
    left = a.copy()
    right = b.copy()
    while left.is_present() and right.is_present():
        if left.get_value() <= right.get_value():
            if not head.is_present():
                head.set(left)
                tail.set(left)
            else:
                tail.set_next(left)
                tail.set(left)
            left.set(left.get_next())
        else:
            if not head.is_present():
                head.set(right)
                tail.set(right)
            else:
                tail.set_next(right)
                tail.set(right)
            right.set(right.get_next())
    while left.is_present():
        if not head.is_present():
            head.set(left)
            tail.set(left)
        else:
            tail.set_next(left)
            tail.set(left)
        left.set(left.get_next())
    while right.is_present():
        if not head.is_present():
            head.set(right)
            tail.set(right)
        else:
            tail.set_next(right)
            tail.set(right)
        right.set(right.get_next())
    if tail.is_present():
        tail.set_next(a.empty())
    return head

def _merge_sort_linked_list_nodes(head):
    length = 0
    node = head.copy()
    while node.is_present():
        length += 1
        node.set(node.get_next())
    if length <= 1:
        return head
    size = 1
    while size < length:
        current = head.copy()
        new_head = head.empty()
        new_tail = head.empty()
        while current.is_present():
            left = current.copy()
            prev = current.empty()
            i = 0
            while i < size and current.is_present():
                prev.set(current)
                current.set(current.get_next())
                i += 1
            if prev.is_present():
                prev.set_next(prev.empty())
            if not current.is_present():
                new_tail.set_next(left)
                break
            right = current.copy()
            prev = current.empty()
            i = 0
            while i < size and current.is_present():
                prev.set(current)
                current.set(current.get_next())
                i += 1
            if prev.is_present():
                prev.set_next(prev.empty())
            merged = _merge_linked_list_nodes(left, right)
            if not new_head.is_present():
                new_head.set(merged)
                new_tail.set(merged)
            else:
                new_tail.set_next(merged)
            while new_tail.get_next().is_present():
                new_tail.set(new_tail.get_next())
        head.set(new_head)
        size *= 2
    return head

class _EntityNodeRef(Record):

    def get_value(self):
        return self.get_value_fn(self.archetype.at(self.index))

    def get_next(self):
        next_ref = self.get_next_ref_fn(self.archetype.at(self.index))
        return self.with_index(next_ref.index)

    def set_next(self, next_node):
        entity = self.archetype.at(self.index)
        next_ref = self.get_next_ref_fn(entity)
        next_ref.index = next_node.index

    def set_prev(self, prev_node):
        if self.get_prev_ref_fn is not None:
            entity = self.archetype.at(self.index)
            prev_ref = self.get_prev_ref_fn(entity)
            prev_ref.index = prev_node.index

    def is_present(self):
        return self.index > 0

    def set(self, other):
        self.index = other.index

    def copy(self):
        return self.with_index(self.index)

    def empty(self):
        return self.with_index(0)

    def with_index(self, index):
        return _EntityNodeRef[self.archetype, self.get_value_fn, self.get_next_ref_fn, self.get_prev_ref_fn](index)

    @property
    def archetype(self):
        return self.type_var_value(Archetype)

    @property
    def get_value_fn(self):
        return self.type_var_value(GetValue)

    @property
    def get_next_ref_fn(self):
        return self.type_var_value(GetNextRef)

    @property
    def get_prev_ref_fn(self):
        return self.type_var_value(GetPrevRef)

def sort_linked_entities(head_ref, /, *, get_value, get_next_ref, get_prev_ref=None):
    archetype = head_ref.archetype()
    sorted_head_index = _merge_sort_linked_list_nodes(_EntityNodeRef[archetype, get_value, get_next_ref, get_prev_ref](head_ref.index)).index
    if get_prev_ref is not None:
        current_ref = _EntityNodeRef[archetype, get_value, get_next_ref, get_prev_ref](sorted_head_index)
        prev_ref = current_ref.empty()
        while current_ref.is_present():
            current_ref.set_prev(prev_ref)
            prev_ref.set(current_ref)
            current_ref.set(current_ref.get_next())
    return EntityRef[archetype](sorted_head_index)
