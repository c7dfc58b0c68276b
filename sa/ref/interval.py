from sonolus.backend.ops import Op
from sonolus.script.array_like import ArrayLike
from sonolus.script.debug import static_error
from sonolus.script.internal.builtin_impls import _max, _min
from sonolus.script.internal.meta_fn import perf_meta_fn
from sonolus.script.internal.native import native_function
from sonolus.script.internal.range import range_or_tuple
from sonolus.script.num import Num
from sonolus.script.record import Record

class Interval(Record):
    start: float
    end: float

    @classmethod
    def zero(cls):
        return cls(0, 0)

    @property
    def length(self):
        return self.end - self.start

    @property
    def is_empty(self):
        return self.start > self.end

    @property
    def mid(self):
        return (self.start + self.end) / 2

    @property
    def tuple(self):
        return (self.start, self.end)

    def __contains__(self, item):
        match item:
            case Interval(start, end):
                return self.start <= start and end <= self.end
            case Num(value):
                return self.start <= value <= self.end
            case _:
                static_error('Invalid type for interval check')

    @perf_meta_fn
    def __add__(self, other):
        return Interval._unchecked(start=self.start + other, end=self.end + other)

    @perf_meta_fn
    def __sub__(self, other):
        return Interval._unchecked(start=self.start - other, end=self.end - other)

    @perf_meta_fn
    def __mul__(self, other):
        return Interval._unchecked(start=self.start * other, end=self.end * other)

    @perf_meta_fn
    def __truediv__(self, other):
        return Interval._unchecked(start=self.start / other, end=self.end / other)

    @perf_meta_fn
    def __floordiv__(self, other):
        return Interval._unchecked(start=self.start // other, end=self.end // other)

    def __and__(self, other):
        return Interval(max(self.start, other.start), min(self.end, other.end))

    def shrink(self, value):
        return Interval(self.start + value, self.end - value)

    def expand(self, value):
        return Interval(self.start - value, self.end + value)

    def lerp(self, x, /):
        return lerp(self.start, self.end, x)

    def lerp_clamped(self, x, /):
        return lerp_clamped(self.start, self.end, x)

    def unlerp(self, x, /):
        return unlerp(self.start, self.end, x)

    def unlerp_clamped(self, x, /):
        return unlerp_clamped(self.start, self.end, x)

    def clamp(self, x, /):
        return clamp(x, self.start, self.end)

@native_function(Op.Lerp)
def _num_lerp(a, b, x, /):
    return a + (b - a) * x

@native_function(Op.LerpClamped)
def _num_lerp_clamped(a, b, x, /):
    return a + (b - a) * max(0, min(1, x))

@perf_meta_fn
def _generic_lerp(a, b, x, /):
    return a + (b - a) * x

@perf_meta_fn
def _generic_lerp_clamped(a, b, x, /):
    return a + (b - a) * _max(0, _min(1, x))

@perf_meta_fn
def lerp(a, b, x, /):
    match (a, b):
        case [Num(a), Num(b)]:
            return _num_lerp(a, b, x)
        case _:
            return _generic_lerp(a, b, x)

@perf_meta_fn
def lerp_clamped(a, b, x, /):
    match (a, b):
        case [Num(a), Num(b)]:
            return _num_lerp_clamped(a, b, x)
        case _:
            return _generic_lerp_clamped(a, b, x)

@native_function(Op.Unlerp)
def unlerp(a, b, x, /):
    return (x - a) / (b - a)

@native_function(Op.UnlerpClamped)
def unlerp_clamped(a, b, x, /):
    return max(0, min(1, (x - a) / (b - a)))

@native_function(Op.Remap)
def remap(a, b, c, d, x, /):
    return c + (d - c) * (x - a) / (b - a)

@native_function(Op.RemapClamped)
def remap_clamped(a, b, c, d, x, /):
    return c + (d - c) * max(0, min(1, (x - a) / (b - a)))

@native_function(Op.Clamp, const_eval=True)
def clamp(x, a, b, /):
    return max(a, min(b, x))

def interp(xp, fp, x):
    assert len(xp) == len(fp), 'xp and fp must have the same length'
    assert len(xp) >= 2, 'xp and fp must have at least 2 elements'
    for i in range_or_tuple(1, len(xp) - 1):
        assert xp[i] > xp[i - 1], 'xp must be in increasing order'
        if x <= xp[i]:
            return remap(xp[i - 1], xp[i], fp[i - 1], fp[i], x)
    return remap(xp[-2], xp[-1], fp[-2], fp[-1], x)

def interp_clamped(xp, fp, x):
    assert len(xp) == len(fp), 'xp and fp must have the same length'
    assert len(xp) >= 2, 'xp and fp must have at least 2 elements'
    if x <= xp[0]:
        return fp[0]
    for i in range_or_tuple(1, len(xp)):
        assert xp[i] > xp[i - 1], 'xp must be in increasing order'
        if x <= xp[i]:
            return remap(xp[i - 1], xp[i], fp[i - 1], fp[i], x)
    return fp[-1]
