from dataclasses import dataclass
from enum import IntEnum
from typing import Annotated, Any, NewType, dataclass_transform, get_origin
from sonolus.backend.mode import Mode
from sonolus.backend.ops import Op
from sonolus.script.internal.context import ctx
from sonolus.script.internal.introspection import get_field_specifiers
from sonolus.script.internal.meta_fn import meta_fn, perf_meta_fn
from sonolus.script.internal.native import native_function
from sonolus.script.interval import Interval
from sonolus.script.pointer import _deref
from sonolus.script.record import Record
from sonolus.script.sprite import Sprite

class JudgmentWindow(Record):
    perfect: Interval
    great: Interval
    good: Interval

    def update(self, perfect=None, great=None, good=None):
        if perfect is not None:
            self.perfect = perfect
        if great is not None:
            self.great = great
        if good is not None:
            self.good = good

    def judge(self, actual, target):
        return _judge(actual, target, *self.perfect.tuple, *self.great.tuple, *self.good.tuple)

    @perf_meta_fn
    def __mul__(self, other):
        return JudgmentWindow._unchecked(perfect=self.perfect * other, great=self.great * other, good=self.good * other)

    @perf_meta_fn
    def __add__(self, other):
        return JudgmentWindow._unchecked(perfect=self.perfect + other, great=self.great + other, good=self.good + other)

    @property
    def start(self):
        return self.good.start

    @property
    def end(self):
        return self.good.end

class Judgment(IntEnum):
    MISS = 0
    PERFECT = 1
    GREAT = 2
    GOOD = 3

@native_function(Op.Judge)
def _judge(actual, target, perfect_min, perfect_max, great_min, great_max, good_min, good_max):
    diff = actual - target
    if perfect_min <= diff <= perfect_max:
        return Judgment.PERFECT
    if great_min <= diff <= great_max:
        return Judgment.GREAT
    if good_min <= diff <= good_max:
        return Judgment.GOOD
    return Judgment.MISS

class Bucket(Record):
    id: int

    @property
    @meta_fn
    def window(self):
        if not ctx():
            raise RuntimeError('Bucket window access outside of compilation')
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return _deref(ctx().blocks.LevelBucket, self.id * JudgmentWindow._size_(), JudgmentWindow)
            case Mode.WATCH:
                return _deref(ctx().blocks.LevelBucket, self.id * JudgmentWindow._size_(), JudgmentWindow)
            case _:
                raise RuntimeError('Invalid mode for bucket window access')

    @window.setter
    @meta_fn
    def window(self, value):
        if not ctx():
            raise RuntimeError('Bucket window access outside of compilation')
        self.window.update(value.perfect, value.great, value.good)

@dataclass
class _BucketSprite:
    id: int
    fallback_id: int | None
    x: float
    y: float
    w: float
    h: float
    rotation: float

    def to_dict(self):
        results = {'id': self.id, 'x': self.x, 'y': self.y, 'w': self.w, 'h': self.h, 'rotation': self.rotation}
        if self.fallback_id is not None:
            results['fallbackId'] = self.fallback_id
        return results

@dataclass
class _BucketInfo:
    sprites: list[_BucketSprite]
    unit: str | None = None

    def to_dict(self):
        results = {'sprites': [sprite.to_dict() for sprite in self.sprites]}
        if self.unit is not None:
            results['unit'] = self.unit
        return results

def bucket_sprite(*, sprite, fallback_sprite=None, x, y, w, h, rotation=0):
    return _BucketSprite(sprite.id, fallback_sprite.id if fallback_sprite else None, x, y, w, h, rotation)

def bucket(*, sprites, unit=None):
    return _BucketInfo(sprites, unit)

@dataclass_transform(kw_only_default=True)
def buckets(cls):
    if len(cls.__bases__) != 1:
        raise ValueError('Buckets class must not inherit from any class (except object)')
    instance = cls()
    bucket_info = []
    for i, (name, annotation) in enumerate(get_field_specifiers(cls).items()):
        if get_origin(annotation) is not Annotated:
            raise TypeError(f'Invalid annotation for buckets: {annotation}')
        annotation_type = annotation.__args__[0]
        annotation_values = annotation.__metadata__
        if annotation_type is not Bucket:
            raise TypeError(f'Invalid annotation for buckets: {annotation}, expected annotation of type Bucket')
        if len(annotation_values) != 1 or not isinstance(annotation_values[0], _BucketInfo):
            raise TypeError(f'Invalid annotation for buckets: {annotation}, expected a single BucketInfo annotation value')
        info = annotation_values[0]
        bucket_info.append(info)
        setattr(instance, name, Bucket(i))
    instance._buckets_ = bucket_info
    instance._is_comptime_value_ = True
    return instance

@buckets
class EmptyBuckets:
    pass
