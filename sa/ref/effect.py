from collections.abc import Iterable
from dataclasses import dataclass
from typing import Annotated, Any, NewType, dataclass_transform, get_origin
from sonolus.backend.ops import Op
from sonolus.script.array_like import ArrayLike, check_positive_index
from sonolus.script.debug import static_error
from sonolus.script.internal.introspection import get_field_specifiers
from sonolus.script.internal.meta_fn import perf_meta_fn
from sonolus.script.internal.native import native_function
from sonolus.script.record import Record

class Effect(Record):
    id: int

    @property
    @perf_meta_fn
    def is_available(self):
        return _has_effect_clip(self.id)

    @perf_meta_fn
    def play(self, distance=0):
        _play(self.id, distance)

    @perf_meta_fn
    def schedule(self, time, distance=0):
        _play_scheduled(self.id, time, distance)

    @perf_meta_fn
    def loop(self):
        return LoopedEffectHandle(_play_looped(self.id))

    @perf_meta_fn
    def schedule_loop(self, start_time):
        return ScheduledLoopedEffectHandle(_play_looped_scheduled(self.id, start_time))

class LoopedEffectHandle(Record):
    id: int

    def stop(self):
        _stop_looped(self.id)

class ScheduledLoopedEffectHandle(Record):
    id: int

    def stop(self, end_time):
        _stop_looped_scheduled(self.id, end_time)

class EffectGroup(Record, ArrayLike[Effect]):
    start_id: int
    size: int

    def __len__(self):
        return self.size

    def __getitem__(self, index):
        check_positive_index(index, self.size)
        return Effect(self.start_id + index)

    def get_unchecked(self, index):
        return Effect(self.start_id + index)

    def __setitem__(self, index, value):
        static_error('EffectGroup is read-only')

@native_function(Op.HasEffectClip)
def _has_effect_clip(effect_id):
    raise NotImplementedError

@native_function(Op.Play)
def _play(effect_id, distance):
    raise NotImplementedError

@native_function(Op.PlayLooped)
def _play_looped(effect_id):
    raise NotImplementedError

@native_function(Op.PlayLoopedScheduled)
def _play_looped_scheduled(effect_id, start_time):
    raise NotImplementedError

@native_function(Op.PlayScheduled)
def _play_scheduled(effect_id, time, distance):
    raise NotImplementedError

@native_function(Op.StopLooped)
def _stop_looped(handle):
    raise NotImplementedError

@native_function(Op.StopLoopedScheduled)
def _stop_looped_scheduled(handle, end_time):
    raise NotImplementedError

@dataclass
class EffectInfo:
    name: str

@dataclass
class EffectGroupInfo:
    names: list[str]

def effect(name):
    return EffectInfo(name)

def effect_group(names):
    return EffectGroupInfo(list(names))

@dataclass_transform(kw_only_default=True)
def effects(cls):
    if len(cls.__bases__) != 1:
        raise ValueError('Effects class must not inherit from any class (except object)')
    instance = cls()
    names = []
    i = 0
    for name, annotation in get_field_specifiers(cls).items():
        if get_origin(annotation) is not Annotated:
            raise TypeError(f'Invalid annotation for effects: {annotation} on field {name}')
        annotation_type = annotation.__args__[0]
        annotation_values = annotation.__metadata__
        if len(annotation_values) != 1:
            raise TypeError(f'Invalid annotation for effects: {annotation} on field {name}, too many annotation values')
        effect_info = annotation_values[0]
        match effect_info:
            case EffectInfo(name=effect_name):
                if annotation_type is not Effect:
                    raise TypeError(f'Invalid annotation for effects: {annotation} on field {name}, expected Effect')
                names.append(effect_name)
                setattr(instance, name, Effect(i))
                i += 1
            case EffectGroupInfo(names=effect_names):
                if annotation_type is not EffectGroup:
                    raise TypeError(f'Invalid annotation for effects: {annotation} on field {name}, expected EffectGroup')
                start_id = i
                count = len(effect_names)
                names.extend(effect_names)
                setattr(instance, name, EffectGroup(start_id, count))
                i += count
            case _:
                raise TypeError(f'Invalid annotation for effects: {annotation} on field {name}, unknown effect info, expected an effect() or effect_group() specifier')
    instance._effects_ = names
    instance._is_comptime_value_ = True
    return instance

class StandardEffect:
    MISS = Annotated[Effect, effect('#MISS')]
    PERFECT = Annotated[Effect, effect('#PERFECT')]
    GREAT = Annotated[Effect, effect('#GREAT')]
    GOOD = Annotated[Effect, effect('#GOOD')]
    HOLD = Annotated[Effect, effect('#HOLD')]
    MISS_ALTERNATIVE = Annotated[Effect, effect('#MISS_ALTERNATIVE')]
    PERFECT_ALTERNATIVE = Annotated[Effect, effect('#PERFECT_ALTERNATIVE')]
    GREAT_ALTERNATIVE = Annotated[Effect, effect('#GREAT_ALTERNATIVE')]
    GOOD_ALTERNATIVE = Annotated[Effect, effect('#GOOD_ALTERNATIVE')]
    HOLD_ALTERNATIVE = Annotated[Effect, effect('#HOLD_ALTERNATIVE')]
    STAGE = Annotated[Effect, effect('#STAGE')]

@effects
class EmptyEffects:
    pass
