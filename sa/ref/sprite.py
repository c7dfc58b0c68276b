from collections.abc import Iterable
from dataclasses import dataclass
from enum import StrEnum
from typing import Annotated, Any, NewType, dataclass_transform, get_origin
from sonolus.backend.ops import Op
from sonolus.script.array_like import ArrayLike, check_positive_index
from sonolus.script.debug import static_error
from sonolus.script.internal.introspection import get_field_specifiers
from sonolus.script.internal.meta_fn import perf_meta_fn
from sonolus.script.internal.native import native_function
from sonolus.script.internal.tuple_impl import TupleImpl
from sonolus.script.num import Num
from sonolus.script.quad import QuadLike, flatten_quad
from sonolus.script.record import Record
from sonolus.script.vec import Vec2

class Sprite(Record):
    id: int

    @property
    @perf_meta_fn
    def is_available(self):
        return _has_skin_sprite(self.id)

    @perf_meta_fn
    def draw(self, quad, z=0.0, a=1.0):
        z1, z2, z3, z4 = pad_z_indexes(z)
        _draw(self.id, *flatten_quad(quad), z1, a, z2, z3, z4)

    @perf_meta_fn
    def draw_curved_b(self, quad, cp, n, z=0.0, a=1.0):
        z1, z2, z3, z4 = pad_z_indexes(z)
        _draw_curved_b(self.id, *flatten_quad(quad), z1, a, n, *cp.tuple, z2, z3, z4)

    @perf_meta_fn
    def draw_curved_t(self, quad, cp, n, z=0.0, a=1.0):
        z1, z2, z3, z4 = pad_z_indexes(z)
        _draw_curved_t(self.id, *flatten_quad(quad), z1, a, n, *cp.tuple, z2, z3, z4)

    @perf_meta_fn
    def draw_curved_l(self, quad, cp, n, z=0.0, a=1.0):
        z1, z2, z3, z4 = pad_z_indexes(z)
        _draw_curved_l(self.id, *flatten_quad(quad), z1, a, n, *cp.tuple, z2, z3, z4)

    @perf_meta_fn
    def draw_curved_r(self, quad, cp, n, z=0.0, a=1.0):
        z1, z2, z3, z4 = pad_z_indexes(z)
        _draw_curved_r(self.id, *flatten_quad(quad), z1, a, n, *cp.tuple, z2, z3, z4)

    @perf_meta_fn
    def draw_curved_bt(self, quad, cp1, cp2, n, z=0.0, a=1.0):
        z1, z2, z3, z4 = pad_z_indexes(z)
        _draw_curved_bt(self.id, *flatten_quad(quad), z1, a, n, *cp1.tuple, *cp2.tuple, z2, z3, z4)

    @perf_meta_fn
    def draw_curved_lr(self, quad, cp1, cp2, n, z=0.0, a=1.0):
        z1, z2, z3, z4 = pad_z_indexes(z)
        _draw_curved_lr(self.id, *flatten_quad(quad), z1, a, n, *cp1.tuple, *cp2.tuple, z2, z3, z4)

class SpriteGroup(Record, ArrayLike[Sprite]):
    start_id: int
    size: int

    def __len__(self):
        return self.size

    def __getitem__(self, index):
        check_positive_index(index, self.size)
        return Sprite(self.start_id + index)

    def get_unchecked(self, index):
        return Sprite(self.start_id + index)

    def __setitem__(self, index, value):
        static_error('SpriteGroup is read-only')

@perf_meta_fn
def pad_z_indexes(values):
    if isinstance(values, TupleImpl):
        values = values.value
    match values:
        case [z1]:
            return (z1, 0, 0, 0)
        case [z1, z2]:
            return (z1, z2, 0, 0)
        case [z1, z2, z3]:
            return (z1, z2, z3, 0)
        case [z1, z2, z3, z4]:
            return (z1, z2, z3, z4)
        case z1:
            return (z1, 0, 0, 0)

@native_function(Op.HasSkinSprite)
def _has_skin_sprite(sprite_id):
    raise NotImplementedError

@native_function(Op.Draw)
def _draw(sprite_id, x1, y1, x2, y2, x3, y3, x4, y4, z1, a, z2, z3, z4):
    raise NotImplementedError

@native_function(Op.DrawCurvedB)
def _draw_curved_b(sprite_id, x1, y1, x2, y2, x3, y3, x4, y4, z1, a, n, p, q, z2, z3, z4):
    raise NotImplementedError

@native_function(Op.DrawCurvedT)
def _draw_curved_t(sprite_id, x1, y1, x2, y2, x3, y3, x4, y4, z1, a, n, p, q, z2, z3, z4):
    raise NotImplementedError

@native_function(Op.DrawCurvedL)
def _draw_curved_l(sprite_id, x1, y1, x2, y2, x3, y3, x4, y4, z1, a, n, p, q, z2, z3, z4):
    raise NotImplementedError

@native_function(Op.DrawCurvedR)
def _draw_curved_r(sprite_id, x1, y1, x2, y2, x3, y3, x4, y4, z1, a, n, p, q, z2, z3, z4):
    raise NotImplementedError

@native_function(Op.DrawCurvedBT)
def _draw_curved_bt(sprite_id, x1, y1, x2, y2, x3, y3, x4, y4, z1, a, n, p1, q1, p2, q2, z2, z3, z4):
    raise NotImplementedError

@native_function(Op.DrawCurvedLR)
def _draw_curved_lr(sprite_id, x1, y1, x2, y2, x3, y3, x4, y4, z1, a, n, p1, q1, p2, q2, z2, z3, z4):
    raise NotImplementedError

@dataclass
class SkinSprite:
    name: str

@dataclass
class SkinSpriteGroup:
    names: list[str]

def sprite(name):
    return SkinSprite(name)

def sprite_group(names):
    return SkinSpriteGroup(list(names))

class RenderMode(StrEnum):
    DEFAULT = 'default'
    STANDARD = 'standard'
    LIGHTWEIGHT = 'lightweight'

@dataclass_transform(kw_only_default=True)
def skin(cls):
    if len(cls.__bases__) != 1:
        raise ValueError('Skin class must not inherit from any class (except object)')
    instance = cls()
    names = []
    i = 0
    for name, annotation in get_field_specifiers(cls, skip={'render_mode'}).items():
        if get_origin(annotation) is not Annotated:
            raise TypeError(f'Invalid annotation for skin: {annotation} on field {name}')
        annotation_type = annotation.__args__[0]
        annotation_values = annotation.__metadata__
        if len(annotation_values) != 1:
            raise TypeError(f'Invalid annotation for skin: {annotation} on field {name}, too many annotation values')
        sprite_info = annotation_values[0]
        match sprite_info:
            case SkinSprite(name=sprite_name):
                if annotation_type is not Sprite:
                    raise TypeError(f'Invalid annotation for skin: {annotation} on field {name}, expected Sprite')
                names.append(sprite_name)
                setattr(instance, name, Sprite(i))
                i += 1
            case SkinSpriteGroup(names=sprite_names):
                if annotation_type is not SpriteGroup:
                    raise TypeError(f'Invalid annotation for skin: {annotation} on field {name}, expected SpriteGroup')
                start_id = i
                count = len(sprite_names)
                names.extend(sprite_names)
                setattr(instance, name, SpriteGroup(start_id, count))
                i += count
            case _:
                raise TypeError(f'Invalid annotation for skin: {annotation} on field {name}, unknown sprite info, expected a skin() or sprite_group() specifier')
    instance._sprites_ = names
    instance.render_mode = RenderMode(getattr(instance, 'render_mode', RenderMode.DEFAULT))
    instance._is_comptime_value_ = True
    return instance

class StandardSprite:
    NOTE_HEAD_NEUTRAL = Annotated[Sprite, sprite('#NOTE_HEAD_NEUTRAL')]
    NOTE_HEAD_RED = Annotated[Sprite, sprite('#NOTE_HEAD_RED')]
    NOTE_HEAD_GREEN = Annotated[Sprite, sprite('#NOTE_HEAD_GREEN')]
    NOTE_HEAD_BLUE = Annotated[Sprite, sprite('#NOTE_HEAD_BLUE')]
    NOTE_HEAD_YELLOW = Annotated[Sprite, sprite('#NOTE_HEAD_YELLOW')]
    NOTE_HEAD_PURPLE = Annotated[Sprite, sprite('#NOTE_HEAD_PURPLE')]
    NOTE_HEAD_CYAN = Annotated[Sprite, sprite('#NOTE_HEAD_CYAN')]
    NOTE_TICK_NEUTRAL = Annotated[Sprite, sprite('#NOTE_TICK_NEUTRAL')]
    NOTE_TICK_RED = Annotated[Sprite, sprite('#NOTE_TICK_RED')]
    NOTE_TICK_GREEN = Annotated[Sprite, sprite('#NOTE_TICK_GREEN')]
    NOTE_TICK_BLUE = Annotated[Sprite, sprite('#NOTE_TICK_BLUE')]
    NOTE_TICK_YELLOW = Annotated[Sprite, sprite('#NOTE_TICK_YELLOW')]
    NOTE_TICK_PURPLE = Annotated[Sprite, sprite('#NOTE_TICK_PURPLE')]
    NOTE_TICK_CYAN = Annotated[Sprite, sprite('#NOTE_TICK_CYAN')]
    NOTE_TAIL_NEUTRAL = Annotated[Sprite, sprite('#NOTE_TAIL_NEUTRAL')]
    NOTE_TAIL_RED = Annotated[Sprite, sprite('#NOTE_TAIL_RED')]
    NOTE_TAIL_GREEN = Annotated[Sprite, sprite('#NOTE_TAIL_GREEN')]
    NOTE_TAIL_BLUE = Annotated[Sprite, sprite('#NOTE_TAIL_BLUE')]
    NOTE_TAIL_YELLOW = Annotated[Sprite, sprite('#NOTE_TAIL_YELLOW')]
    NOTE_TAIL_PURPLE = Annotated[Sprite, sprite('#NOTE_TAIL_PURPLE')]
    NOTE_TAIL_CYAN = Annotated[Sprite, sprite('#NOTE_TAIL_CYAN')]
    NOTE_CONNECTION_NEUTRAL = Annotated[Sprite, sprite('#NOTE_CONNECTION_NEUTRAL')]
    NOTE_CONNECTION_RED = Annotated[Sprite, sprite('#NOTE_CONNECTION_RED')]
    NOTE_CONNECTION_GREEN = Annotated[Sprite, sprite('#NOTE_CONNECTION_GREEN')]
    NOTE_CONNECTION_BLUE = Annotated[Sprite, sprite('#NOTE_CONNECTION_BLUE')]
    NOTE_CONNECTION_YELLOW = Annotated[Sprite, sprite('#NOTE_CONNECTION_YELLOW')]
    NOTE_CONNECTION_PURPLE = Annotated[Sprite, sprite('#NOTE_CONNECTION_PURPLE')]
    NOTE_CONNECTION_CYAN = Annotated[Sprite, sprite('#NOTE_CONNECTION_CYAN')]
    NOTE_CONNECTION_NEUTRAL_SEAMLESS = Annotated[Sprite, sprite('#NOTE_CONNECTION_NEUTRAL_SEAMLESS')]
    NOTE_CONNECTION_RED_SEAMLESS = Annotated[Sprite, sprite('#NOTE_CONNECTION_RED_SEAMLESS')]
    NOTE_CONNECTION_GREEN_SEAMLESS = Annotated[Sprite, sprite('#NOTE_CONNECTION_GREEN_SEAMLESS')]
    NOTE_CONNECTION_BLUE_SEAMLESS = Annotated[Sprite, sprite('#NOTE_CONNECTION_BLUE_SEAMLESS')]
    NOTE_CONNECTION_YELLOW_SEAMLESS = Annotated[Sprite, sprite('#NOTE_CONNECTION_YELLOW_SEAMLESS')]
    NOTE_CONNECTION_PURPLE_SEAMLESS = Annotated[Sprite, sprite('#NOTE_CONNECTION_PURPLE_SEAMLESS')]
    NOTE_CONNECTION_CYAN_SEAMLESS = Annotated[Sprite, sprite('#NOTE_CONNECTION_CYAN_SEAMLESS')]
    SIMULTANEOUS_CONNECTION_NEUTRAL = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_NEUTRAL')]
    SIMULTANEOUS_CONNECTION_RED = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_RED')]
    SIMULTANEOUS_CONNECTION_GREEN = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_GREEN')]
    SIMULTANEOUS_CONNECTION_BLUE = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_BLUE')]
    SIMULTANEOUS_CONNECTION_YELLOW = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_YELLOW')]
    SIMULTANEOUS_CONNECTION_PURPLE = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_PURPLE')]
    SIMULTANEOUS_CONNECTION_CYAN = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_CYAN')]
    SIMULTANEOUS_CONNECTION_NEUTRAL_SEAMLESS = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_NEUTRAL_SEAMLESS')]
    SIMULTANEOUS_CONNECTION_RED_SEAMLESS = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_RED_SEAMLESS')]
    SIMULTANEOUS_CONNECTION_GREEN_SEAMLESS = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_GREEN_SEAMLESS')]
    SIMULTANEOUS_CONNECTION_BLUE_SEAMLESS = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_BLUE_SEAMLESS')]
    SIMULTANEOUS_CONNECTION_YELLOW_SEAMLESS = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_YELLOW_SEAMLESS')]
    SIMULTANEOUS_CONNECTION_PURPLE_SEAMLESS = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_PURPLE_SEAMLESS')]
    SIMULTANEOUS_CONNECTION_CYAN_SEAMLESS = Annotated[Sprite, sprite('#SIMULTANEOUS_CONNECTION_CYAN_SEAMLESS')]
    DIRECTIONAL_MARKER_NEUTRAL = Annotated[Sprite, sprite('#DIRECTIONAL_MARKER_NEUTRAL')]
    DIRECTIONAL_MARKER_RED = Annotated[Sprite, sprite('#DIRECTIONAL_MARKER_RED')]
    DIRECTIONAL_MARKER_GREEN = Annotated[Sprite, sprite('#DIRECTIONAL_MARKER_GREEN')]
    DIRECTIONAL_MARKER_BLUE = Annotated[Sprite, sprite('#DIRECTIONAL_MARKER_BLUE')]
    DIRECTIONAL_MARKER_YELLOW = Annotated[Sprite, sprite('#DIRECTIONAL_MARKER_YELLOW')]
    DIRECTIONAL_MARKER_PURPLE = Annotated[Sprite, sprite('#DIRECTIONAL_MARKER_PURPLE')]
    DIRECTIONAL_MARKER_CYAN = Annotated[Sprite, sprite('#DIRECTIONAL_MARKER_CYAN')]
    SIMULTANEOUS_MARKER_NEUTRAL = Annotated[Sprite, sprite('#SIMULTANEOUS_MARKER_NEUTRAL')]
    SIMULTANEOUS_MARKER_RED = Annotated[Sprite, sprite('#SIMULTANEOUS_MARKER_RED')]
    SIMULTANEOUS_MARKER_GREEN = Annotated[Sprite, sprite('#SIMULTANEOUS_MARKER_GREEN')]
    SIMULTANEOUS_MARKER_BLUE = Annotated[Sprite, sprite('#SIMULTANEOUS_MARKER_BLUE')]
    SIMULTANEOUS_MARKER_YELLOW = Annotated[Sprite, sprite('#SIMULTANEOUS_MARKER_YELLOW')]
    SIMULTANEOUS_MARKER_PURPLE = Annotated[Sprite, sprite('#SIMULTANEOUS_MARKER_PURPLE')]
    SIMULTANEOUS_MARKER_CYAN = Annotated[Sprite, sprite('#SIMULTANEOUS_MARKER_CYAN')]
    STAGE_MIDDLE = Annotated[Sprite, sprite('#STAGE_MIDDLE')]
    STAGE_LEFT_BORDER = Annotated[Sprite, sprite('#STAGE_LEFT_BORDER')]
    STAGE_RIGHT_BORDER = Annotated[Sprite, sprite('#STAGE_RIGHT_BORDER')]
    STAGE_TOP_BORDER = Annotated[Sprite, sprite('#STAGE_TOP_BORDER')]
    STAGE_BOTTOM_BORDER = Annotated[Sprite, sprite('#STAGE_BOTTOM_BORDER')]
    STAGE_LEFT_BORDER_SEAMLESS = Annotated[Sprite, sprite('#STAGE_LEFT_BORDER_SEAMLESS')]
    STAGE_RIGHT_BORDER_SEAMLESS = Annotated[Sprite, sprite('#STAGE_RIGHT_BORDER_SEAMLESS')]
    STAGE_TOP_BORDER_SEAMLESS = Annotated[Sprite, sprite('#STAGE_TOP_BORDER_SEAMLESS')]
    STAGE_BOTTOM_BORDER_SEAMLESS = Annotated[Sprite, sprite('#STAGE_BOTTOM_BORDER_SEAMLESS')]
    STAGE_TOP_LEFT_CORNER = Annotated[Sprite, sprite('#STAGE_TOP_LEFT_CORNER')]
    STAGE_TOP_RIGHT_CORNER = Annotated[Sprite, sprite('#STAGE_TOP_RIGHT_CORNER')]
    STAGE_BOTTOM_LEFT_CORNER = Annotated[Sprite, sprite('#STAGE_BOTTOM_LEFT_CORNER')]
    STAGE_BOTTOM_RIGHT_CORNER = Annotated[Sprite, sprite('#STAGE_BOTTOM_RIGHT_CORNER')]
    LANE = Annotated[Sprite, sprite('#LANE')]
    LANE_SEAMLESS = Annotated[Sprite, sprite('#LANE_SEAMLESS')]
    LANE_ALTERNATIVE = Annotated[Sprite, sprite('#LANE_ALTERNATIVE')]
    LANE_ALTERNATIVE_SEAMLESS = Annotated[Sprite, sprite('#LANE_ALTERNATIVE_SEAMLESS')]
    JUDGMENT_LINE = Annotated[Sprite, sprite('#JUDGMENT_LINE')]
    NOTE_SLOT = Annotated[Sprite, sprite('#NOTE_SLOT')]
    STAGE_COVER = Annotated[Sprite, sprite('#STAGE_COVER')]
    GRID_NEUTRAL = Annotated[Sprite, sprite('#GRID_NEUTRAL')]
    GRID_RED = Annotated[Sprite, sprite('#GRID_RED')]
    GRID_GREEN = Annotated[Sprite, sprite('#GRID_GREEN')]
    GRID_BLUE = Annotated[Sprite, sprite('#GRID_BLUE')]
    GRID_YELLOW = Annotated[Sprite, sprite('#GRID_YELLOW')]
    GRID_PURPLE = Annotated[Sprite, sprite('#GRID_PURPLE')]
    GRID_CYAN = Annotated[Sprite, sprite('#GRID_CYAN')]

@skin
class EmptySkin:
    pass
