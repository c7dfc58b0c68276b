from enum import IntEnum
from sonolus.backend.ops import Op
from sonolus.script.internal.native import native_function
from sonolus.script.runtime import HorizontalAlign
from sonolus.script.vec import Vec2

class PrintFormat(IntEnum):
    NUMBER = 0
    PERCENTAGE = 1
    TIME = 10
    SCORE = 11
    BPM = 20
    TIMESCALE = 21
    BEAT_COUNT = 30
    MEASURE_COUNT = 31
    ENTITY_COUNT = 32

class PrintColor(IntEnum):
    THEME = -1
    NEUTRAL = 0
    RED = 1
    GREEN = 2
    BLUE = 3
    YELLOW = 4
    PURPLE = 5
    CYAN = 6

@native_function(Op.Print)
def _print(value, format, decimal_places, anchor_x, anchor_y, pivot_x, pivot_y, width, height, rotation, color, alpha, horizontal_align, background):
    raise NotImplementedError

def print_number(value, *, fmt, decimal_places=0, anchor, pivot, dimensions, rotation=0, color=PrintColor.THEME, alpha=1, horizontal_align=HorizontalAlign.LEFT, background=False):
    _print(value, fmt, decimal_places, anchor.x, anchor.y, pivot.x, pivot.y, dimensions.x, dimensions.y, rotation, color, alpha, horizontal_align, background)
