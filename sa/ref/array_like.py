class ArrayLike(Sequence[T]):
    _allow_instance_check_ = True

    @abstractmethod
    def __len__(self):
        pass

    @abstractmethod
    def __getitem__(self, index):
        pass

    @abstractmethod
    def __setitem__(self, index, value):
        pass

    @meta_fn
    def get_unchecked(self, index):
        return self[index]

    @meta_fn
    def set_unchecked(self, index, value):
        self[index] = value

    def __iter__(self):
        return _ArrayIterator(0, self.unchecked())

    def __contains__(self, value):
        i = 0
        while i < len(self):
            if self.get_unchecked(i) == value:
                return True
            i += 1
        return False

    def __reversed__(self):
        return _ArrayReverser(self)

    def _enumerate_(self, start=0):
        return _ArrayEnumerator(0, start, self)

    def index(self, value, start=0, stop=None):
        if stop is None:
            stop = len(self)
        else:
            stop = get_positive_index(stop, len(self), check=False)
        stop = min(stop, len(self))
        start = get_positive_index(start, len(self), check=False)
        i = max(start, 0)
        while i < stop:
            if self.get_unchecked(i) == value:
                return i
            i += 1
        return -1

    def count(self, value):
        count = 0
        i = 0
        while i < len(self):
            if self.get_unchecked(i) == value:
                count += 1
            i += 1
        return count

    def last_index(self, value):
        i = len(self) - 1
        while i >= 0:
            if self.get_unchecked(i) == value:
                return i
            i -= 1
        return -1

    def index_of_max(self, *, key=None):
        if len(self) == 0:
            return -1
        if key is None:
            key = _identity
        max_index = 0
        i = 1
        while i < len(self):
            if key(self.get_unchecked(i)) > key(self.get_unchecked(max_index)):
                max_index = i
            i += 1
        return max_index

    def index_of_min(self, *, key=None):
        if len(self) == 0:
            return -1
        if key is None:
            key = _identity
        min_index = 0
        i = 1
        while i < len(self):
            if key(self.get_unchecked(i)) < key(self.get_unchecked(min_index)):
                min_index = i
            i += 1
        return min_index

    def _max_(self, key=None):
        index = self.index_of_max(key=key)
        assert index != -1
        return self.get_unchecked(index)

    def _min_(self, key=None):
        index = self.index_of_min(key=key)
        assert index != -1
        return self.get_unchecked(index)

    def swap(self, i, j, /):
        check_positive_index(i, len(self))
        check_positive_index(j, len(self))
        self.swap_unchecked(i, j)

    def swap_unchecked(self, i, j):
        temp = copy(self.get_unchecked(i))
        self.set_unchecked(i, self.get_unchecked(j))
        self.set_unchecked(j, temp)

    def sort(self, *, key=None, reverse=False):
        if key is not None or len(self) < 15:
            if key is None:
                key = _identity
            _insertion_sort(self.unchecked(), 0, len(self), key, reverse)
        else:
            _heap_sort(self.unchecked(), 0, len(self), reverse)

    def shuffle(self):
        random.shuffle(self)

    def reverse(self):
        i = 0
        j = len(self) - 1
        while i < j:
            self.swap_unchecked(i, j)
            i += 1
            j -= 1

    def unchecked(self):
        return UncheckedArrayProxy(self)

def _identity(value):
    return value

def _insertion_sort(array, start, end, key, reverse):
    i = start + 1
    if reverse:
        while i < end:
            j = i
            while j > start and key(array[j - 1]) < key(array[j]):
                array.swap_unchecked(j - 1, j)
                j -= 1
            i += 1
    else:
        while i < end:
            j = i
            while j > start and key(array[j - 1]) > key(array[j]):
                array.swap_unchecked(j - 1, j)
                j -= 1
            i += 1

def _heapify(array, end, index, reverse):
    while True:
        left = index * 2 + 1
        right = left + 1
        largest = index
        if left < end and (array[left] > array[largest]) != reverse:
            largest = left
        if right < end and (array[right] > array[largest]) != reverse:
            largest = right
        if largest == index:
            break
        array.swap_unchecked(index, largest)
        index = largest

def _heap_sort(array, start, end, reverse):
    i = end // 2 - 1
    while i >= start:
        _heapify(array, end, i, reverse)
        i -= 1
    i = end - 1
    while i > start:
        array.swap_unchecked(start, i)
        _heapify(array, i, start, reverse)
        i -= 1

class _ArrayIterator(Record, SonolusIterator):

    def next(self):
        if self.i < len(self.array):
            value = self.array.get_unchecked(self.i)
            self.i += 1
            return Some(value)
        return Nothing

class _ArrayReverser(Record, ArrayLike):

    def __len__(self):
        return len(self.array)

    def __getitem__(self, index):
        index = get_positive_index(index, len(self))
        return self.array[len(self) - 1 - index]

    def __setitem__(self, index, value):
        index = get_positive_index(index, len(self))
        self.array[len(self) - 1 - index] = value

    def get_unchecked(self, index):
        return self.array.get_unchecked(len(self) - 1 - index)

    def set_unchecked(self, index, value):
        self.array.set_unchecked(len(self) - 1 - index, value)

    def reversed(self):
        return self.array

class _ArrayEnumerator(Record, SonolusIterator):

    def next(self):
        if self.i < len(self.array):
            result = (self.i + self.offset, self.array.get_unchecked(self.i))
            self.i += 1
            return Some(result)
        return Nothing

@meta_fn
def get_positive_index(index, length, *, include_end=False, check=True):
    if not ctx():
        if check:
            if include_end and (not -length <= index <= length) or (not include_end and (not -length <= index < length)):
                raise IndexError('Index out of range')
            if int(index) != index:
                raise ValueError('Index must be an integer')
            if int(length) != length:
                raise ValueError('Length must be an integer')
            if length < 0:
                raise ValueError('Length must be non-negative')
        return int(index + (index < 0) * length)
    index = Num._accept_(index)
    length = Num._accept_(length)
    if Num._accept_(check)._as_py_():
        include_end = Num._accept_(include_end)
        if not include_end._is_py_():
            is_in_bounds = Num.and_(index >= -length, index < length + include_end)
        elif include_end._as_py_():
            is_in_bounds = Num.and_(index >= -length, index <= length)
        else:
            is_in_bounds = Num.and_(index >= -length, index < length)
        assert_true(Num.and_(is_in_bounds, _trunc(index) == index), 'Invalid index')
    return index + (index < 0) * length

@meta_fn
def check_positive_index(index, length, include_end=False):
    if not ctx():
        if include_end and (not 0 <= index <= length) or (not include_end and (not 0 <= index < length)):
            raise IndexError('Index out of range')
        if int(index) != index:
            raise ValueError('Index must be an integer')
        if int(length) != length:
            raise ValueError('Length must be an integer')
        if length < 0:
            raise ValueError('Length must be non-negative')
        return int(index)
    index = Num._accept_(index)
    length = Num._accept_(length)
    include_end = Num._accept_(include_end)
    if not include_end._is_py_():
        is_in_bounds = Num.and_(index >= 0, index < length + include_end)
    elif include_end._as_py_():
        is_in_bounds = Num.and_(index >= 0, index <= length)
    else:
        is_in_bounds = Num.and_(index >= 0, index < length)
    assert_true(Num.and_(is_in_bounds, _trunc(index) == index), 'Invalid index')
    return index

class UncheckedArrayProxy(Record, ArrayLike):

    def __len__(self):
        return len(self.array)

    def __getitem__(self, index):
        return self.array.get_unchecked(index)

    def __setitem__(self, index, value):
        self.array.set_unchecked(index, value)
