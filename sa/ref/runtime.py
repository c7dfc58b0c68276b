from enum import IntEnum
from sonolus.backend.mode import Mode
from sonolus.backend.ops import Op
from sonolus.script.array import Array
from sonolus.script.array_like import ArrayLike
from sonolus.script.containers import ArrayPointer
from sonolus.script.globals import _level_life, _level_score, _play_runtime_environment, _play_runtime_ui, _play_runtime_ui_configuration, _play_runtime_update, _preview_runtime_canvas, _preview_runtime_environment, _preview_runtime_ui, _preview_runtime_ui_configuration, _runtime_background, _runtime_particle_transform, _runtime_skin_transform, _runtime_touch_array, _tutorial_instruction, _tutorial_runtime_environment, _tutorial_runtime_ui, _tutorial_runtime_ui_configuration, _tutorial_runtime_update, _watch_runtime_environment, _watch_runtime_ui, _watch_runtime_ui_configuration, _watch_runtime_update
from sonolus.script.internal.context import ctx
from sonolus.script.internal.meta_fn import meta_fn, perf_meta_fn
from sonolus.script.internal.native import native_function
from sonolus.script.num import Num
from sonolus.script.quad import Quad, Rect
from sonolus.script.record import Record
from sonolus.script.transform import Transform2d
from sonolus.script.vec import Vec2

@_play_runtime_environment
class _PlayRuntimeEnvironment:
    is_debug: bool
    aspect_ratio: float
    audio_offset: float
    input_offset: float
    is_multiplayer: bool
    safe_area_x_min: float
    safe_area_x_max: float
    safe_area_y_min: float
    safe_area_y_max: float

@_watch_runtime_environment
class _WatchRuntimeEnvironment:
    is_debug: bool
    aspect_ratio: float
    audio_offset: float
    input_offset: float
    is_replay: bool
    safe_area_x_min: float
    safe_area_x_max: float
    safe_area_y_min: float
    safe_area_y_max: float

@_preview_runtime_environment
class _PreviewRuntimeEnvironment:
    is_debug: bool
    aspect_ratio: float
    safe_area_x_min: float
    safe_area_x_max: float
    safe_area_y_min: float
    safe_area_y_max: float

@_tutorial_runtime_environment
class _TutorialRuntimeEnvironment:
    is_debug: bool
    aspect_ratio: float
    audio_offset: float
    safe_area_x_min: float
    safe_area_x_max: float
    safe_area_y_min: float
    safe_area_y_max: float

@_play_runtime_update
class _PlayRuntimeUpdate:
    time: float
    delta_time: float
    scaled_time: float
    touch_count: int

@_watch_runtime_update
class _WatchRuntimeUpdate:
    time: float
    delta_time: float
    scaled_time: float
    is_skip: bool

@_tutorial_runtime_update
class _TutorialRuntimeUpdate:
    time: float
    delta_time: float
    navigation_direction: int

class ScrollDirection(IntEnum):
    LEFT_TO_RIGHT = 0
    TOP_TO_BOTTOM = 1
    RIGHT_TO_LEFT = 2
    BOTTOM_TO_TOP = 3

@_preview_runtime_canvas
class _PreviewRuntimeCanvas:
    scroll_direction: ScrollDirection
    size: float

    def update(self, scroll_direction=None, size=None):
        if scroll_direction is not None:
            self.scroll_direction = scroll_direction
        if size is not None:
            self.size = size

class RuntimeUiConfig(Record):
    scale: float
    alpha: float

@_play_runtime_ui_configuration
class _PlayRuntimeUiConfigs:
    menu: RuntimeUiConfig
    judgment: RuntimeUiConfig
    combo: RuntimeUiConfig
    primary_metric: RuntimeUiConfig
    secondary_metric: RuntimeUiConfig

@_watch_runtime_ui_configuration
class _WatchRuntimeUiConfigs:
    menu: RuntimeUiConfig
    judgment: RuntimeUiConfig
    combo: RuntimeUiConfig
    primary_metric: RuntimeUiConfig
    secondary_metric: RuntimeUiConfig
    progress: RuntimeUiConfig
    progress_graph: RuntimeUiConfig

@_preview_runtime_ui_configuration
class _PreviewRuntimeUiConfigs:
    menu: RuntimeUiConfig
    progress: RuntimeUiConfig

@_tutorial_runtime_ui_configuration
class _TutorialRuntimeUiConfigs:
    menu: RuntimeUiConfig
    navigation: RuntimeUiConfig
    instruction: RuntimeUiConfig

class HorizontalAlign(IntEnum):
    LEFT = -1
    CENTER = 0
    RIGHT = 1

class RuntimeUiLayout(Record):
    anchor: Vec2
    pivot: Vec2
    dimensions: Vec2
    rotation: float
    alpha: float
    horizontal_align: HorizontalAlign
    background: bool

    def update(self, anchor=None, pivot=None, dimensions=None, rotation=None, alpha=None, horizontal_align=None, background=None):
        if anchor is not None:
            self.anchor = anchor
        if pivot is not None:
            self.pivot = pivot
        if dimensions is not None:
            self.dimensions = dimensions
        if rotation is not None:
            self.rotation = rotation
        if alpha is not None:
            self.alpha = alpha
        if horizontal_align is not None:
            self.horizontal_align = horizontal_align
        if background is not None:
            self.background = background

class BasicRuntimeUiLayout(Record):
    anchor: Vec2
    pivot: Vec2
    dimensions: Vec2
    rotation: float
    alpha: float
    background: bool

    def update(self, anchor=None, pivot=None, dimensions=None, rotation=None, alpha=None, background=None):
        if anchor is not None:
            self.anchor = anchor
        if pivot is not None:
            self.pivot = pivot
        if dimensions is not None:
            self.dimensions = dimensions
        if rotation is not None:
            self.rotation = rotation
        if alpha is not None:
            self.alpha = alpha
        if background is not None:
            self.background = background

@_play_runtime_ui
class _PlayRuntimeUi:
    menu: RuntimeUiLayout
    judgment: RuntimeUiLayout
    combo_value: RuntimeUiLayout
    combo_text: RuntimeUiLayout
    primary_metric_bar: RuntimeUiLayout
    primary_metric_value: RuntimeUiLayout
    secondary_metric_bar: RuntimeUiLayout
    secondary_metric_value: RuntimeUiLayout

@_watch_runtime_ui
class _WatchRuntimeUi:
    menu: RuntimeUiLayout
    judgment: RuntimeUiLayout
    combo_value: RuntimeUiLayout
    combo_text: RuntimeUiLayout
    primary_metric_bar: RuntimeUiLayout
    primary_metric_value: RuntimeUiLayout
    secondary_metric_bar: RuntimeUiLayout
    secondary_metric_value: RuntimeUiLayout
    progress: RuntimeUiLayout
    progress_graph: RuntimeUiLayout

@_preview_runtime_ui
class _PreviewRuntimeUi:
    menu: BasicRuntimeUiLayout
    progress: BasicRuntimeUiLayout

@_tutorial_runtime_ui
class _TutorialRuntimeUi:
    menu: BasicRuntimeUiLayout
    previous: BasicRuntimeUiLayout
    next: BasicRuntimeUiLayout
    instruction: BasicRuntimeUiLayout

class UiLayout(Record):
    _underlying: T

    def update(self, anchor=None, pivot=None, dimensions=None, rotation=None, alpha=None, horizontal_align=None, background=None):
        match self._underlying:
            case RuntimeUiLayout():
                self._underlying.update(anchor=anchor, pivot=pivot, dimensions=dimensions, rotation=rotation, alpha=alpha, horizontal_align=horizontal_align, background=background)
            case BasicRuntimeUiLayout():
                self._underlying.update(anchor=anchor, pivot=pivot, dimensions=dimensions, rotation=rotation, alpha=alpha, background=background)
            case _:
                pass

    @property
    def is_available(self):
        return self._underlying is not None

class UiConfig(Record):
    _underlying: T

    @property
    def scale(self):
        match self._underlying:
            case RuntimeUiConfig():
                return self._underlying.scale
            case _:
                return 1.0

    @property
    def alpha(self):
        match self._underlying:
            case RuntimeUiConfig():
                return self._underlying.alpha
            case _:
                return 1.0

    @property
    def is_available(self):
        return self._underlying is not None

class RuntimeUi(Record):

    @property
    @meta_fn
    def menu(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiLayout(_PlayRuntimeUi.menu)
            case Mode.WATCH:
                return UiLayout(_WatchRuntimeUi.menu)
            case Mode.PREVIEW:
                return UiLayout(_PreviewRuntimeUi.menu)
            case Mode.TUTORIAL:
                return UiLayout(_TutorialRuntimeUi.menu)
            case _:
                raise RuntimeError('Unsupported mode for menu UI layout')

    @property
    @meta_fn
    def menu_config(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiConfig(_PlayRuntimeUiConfigs.menu)
            case Mode.WATCH:
                return UiConfig(_WatchRuntimeUiConfigs.menu)
            case Mode.PREVIEW:
                return UiConfig(_PreviewRuntimeUiConfigs.menu)
            case Mode.TUTORIAL:
                return UiConfig(_TutorialRuntimeUiConfigs.menu)
            case _:
                raise RuntimeError('Unsupported mode for menu UI configuration')

    @property
    @meta_fn
    def judgment(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiLayout(_PlayRuntimeUi.judgment)
            case Mode.WATCH:
                return UiLayout(_WatchRuntimeUi.judgment)
            case _:
                return UiLayout(None)

    @property
    @meta_fn
    def judgment_config(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiConfig(_PlayRuntimeUiConfigs.judgment)
            case Mode.WATCH:
                return UiConfig(_WatchRuntimeUiConfigs.judgment)
            case _:
                return UiConfig(None)

    @property
    @meta_fn
    def combo_value(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiLayout(_PlayRuntimeUi.combo_value)
            case Mode.WATCH:
                return UiLayout(_WatchRuntimeUi.combo_value)
            case _:
                return UiLayout(None)

    @property
    @meta_fn
    def combo_text(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiLayout(_PlayRuntimeUi.combo_text)
            case Mode.WATCH:
                return UiLayout(_WatchRuntimeUi.combo_text)
            case _:
                return UiLayout(None)

    @property
    @meta_fn
    def combo_config(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiConfig(_PlayRuntimeUiConfigs.combo)
            case Mode.WATCH:
                return UiConfig(_WatchRuntimeUiConfigs.combo)
            case _:
                return UiConfig(None)

    @property
    @meta_fn
    def primary_metric_bar(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiLayout(_PlayRuntimeUi.primary_metric_bar)
            case Mode.WATCH:
                return UiLayout(_WatchRuntimeUi.primary_metric_bar)
            case _:
                return UiLayout(None)

    @property
    @meta_fn
    def primary_metric_value(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiLayout(_PlayRuntimeUi.primary_metric_value)
            case Mode.WATCH:
                return UiLayout(_WatchRuntimeUi.primary_metric_value)
            case _:
                return UiLayout(None)

    @property
    @meta_fn
    def primary_metric_config(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiConfig(_PlayRuntimeUiConfigs.primary_metric)
            case Mode.WATCH:
                return UiConfig(_WatchRuntimeUiConfigs.primary_metric)
            case _:
                return UiConfig(None)

    @property
    @meta_fn
    def secondary_metric_bar(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiLayout(_PlayRuntimeUi.secondary_metric_bar)
            case Mode.WATCH:
                return UiLayout(_WatchRuntimeUi.secondary_metric_bar)
            case _:
                return UiLayout(None)

    @property
    @meta_fn
    def secondary_metric_value(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiLayout(_PlayRuntimeUi.secondary_metric_value)
            case Mode.WATCH:
                return UiLayout(_WatchRuntimeUi.secondary_metric_value)
            case _:
                return UiLayout(None)

    @property
    @meta_fn
    def secondary_metric_config(self):
        match ctx().mode_state.mode:
            case Mode.PLAY:
                return UiConfig(_PlayRuntimeUiConfigs.secondary_metric)
            case Mode.WATCH:
                return UiConfig(_WatchRuntimeUiConfigs.secondary_metric)
            case _:
                return UiConfig(None)

    @property
    @meta_fn
    def progress(self):
        match ctx().mode_state.mode:
            case Mode.WATCH:
                return UiLayout(_WatchRuntimeUi.progress)
            case Mode.PREVIEW:
                return UiLayout(_PreviewRuntimeUi.progress)
            case _:
                return UiLayout(None)

    @property
    @meta_fn
    def progress_graph(self):
        match ctx().mode_state.mode:
            case Mode.WATCH:
                return UiLayout(_WatchRuntimeUi.progress_graph)
            case _:
                return UiLayout(None)

    @property
    @meta_fn
    def progress_config(self):
        match ctx().mode_state.mode:
            case Mode.WATCH:
                return UiConfig(_WatchRuntimeUiConfigs.progress)
            case Mode.PREVIEW:
                return UiConfig(_PreviewRuntimeUiConfigs.progress)
            case _:
                return UiConfig(None)

    @property
    @meta_fn
    def previous(self):
        match ctx().mode_state.mode:
            case Mode.TUTORIAL:
                return UiLayout(_TutorialRuntimeUi.previous)
            case _:
                return UiLayout(None)

    @property
    @meta_fn
    def next(self):
        match ctx().mode_state.mode:
            case Mode.TUTORIAL:
                return UiLayout(_TutorialRuntimeUi.next)
            case _:
                return UiLayout(None)

    @property
    @meta_fn
    def navigation_config(self):
        match ctx().mode_state.mode:
            case Mode.TUTORIAL:
                return UiConfig(_TutorialRuntimeUiConfigs.navigation)
            case _:
                return UiConfig(None)

    @property
    @meta_fn
    def instruction(self):
        match ctx().mode_state.mode:
            case Mode.TUTORIAL:
                return UiLayout(_TutorialRuntimeUi.instruction)
            case _:
                return UiLayout(None)

    @property
    @meta_fn
    def instruction_config(self):
        match ctx().mode_state.mode:
            case Mode.TUTORIAL:
                return UiConfig(_TutorialRuntimeUiConfigs.instruction)
            case _:
                return UiConfig(None)

class Touch(Record):
    id: int
    started: bool
    ended: bool
    time: float
    start_time: float
    position: Vec2
    start_position: Vec2
    delta: Vec2
    velocity: Vec2
    speed: float
    angle: float

    @property
    def prev_position(self):
        return self.position - self.delta

    @property
    def total_delta(self):
        return self.position - self.start_position

    @property
    def total_angle(self):
        return self.total_delta.angle

@_runtime_touch_array
class _TouchArray:
    pass

@_runtime_skin_transform
class _SkinTransform:
    value: Array[Array[float, 4], 4]

    @property
    @meta_fn
    def transform(self):
        values = self.value._to_list_()
        return Transform2d._raw(a00=Num(values[0 * 4 + 0]), a01=Num(values[0 * 4 + 1]), a02=Num(values[0 * 4 + 3]), a10=Num(values[1 * 4 + 0]), a11=Num(values[1 * 4 + 1]), a12=Num(values[1 * 4 + 3]), a20=Num(values[3 * 4 + 0]), a21=Num(values[3 * 4 + 1]), a22=Num(values[3 * 4 + 3]))

@_runtime_particle_transform
class _ParticleTransform:
    value: Array[Array[float, 4], 4]

    @property
    @meta_fn
    def transform(self):
        values = self.value._to_list_()
        return Transform2d._raw(a00=Num(values[0 * 4 + 0]), a01=Num(values[0 * 4 + 1]), a02=Num(values[0 * 4 + 3]), a10=Num(values[1 * 4 + 0]), a11=Num(values[1 * 4 + 1]), a12=Num(values[1 * 4 + 3]), a20=Num(values[3 * 4 + 0]), a21=Num(values[3 * 4 + 1]), a22=Num(values[3 * 4 + 3]))

@_runtime_background
class _Background:
    value: Quad

@_level_score
class _LevelScore:
    perfect_multiplier: float
    great_multiplier: float
    good_multiplier: float
    consecutive_perfect_multiplier: float
    consecutive_perfect_step: float
    consecutive_perfect_cap: float
    consecutive_great_multiplier: float
    consecutive_great_step: float
    consecutive_great_cap: float
    consecutive_good_multiplier: float
    consecutive_good_step: float
    consecutive_good_cap: float

    def update(self, perfect_multiplier=None, great_multiplier=None, good_multiplier=None, consecutive_perfect_multiplier=None, consecutive_perfect_step=None, consecutive_perfect_cap=None, consecutive_great_multiplier=None, consecutive_great_step=None, consecutive_great_cap=None, consecutive_good_multiplier=None, consecutive_good_step=None, consecutive_good_cap=None):
        if perfect_multiplier is not None:
            self.perfect_multiplier = perfect_multiplier
        if great_multiplier is not None:
            self.great_multiplier = great_multiplier
        if good_multiplier is not None:
            self.good_multiplier = good_multiplier
        if consecutive_perfect_multiplier is not None:
            self.consecutive_perfect_multiplier = consecutive_perfect_multiplier
        if consecutive_perfect_step is not None:
            self.consecutive_perfect_step = consecutive_perfect_step
        if consecutive_perfect_cap is not None:
            self.consecutive_perfect_cap = consecutive_perfect_cap
        if consecutive_great_multiplier is not None:
            self.consecutive_great_multiplier = consecutive_great_multiplier
        if consecutive_great_step is not None:
            self.consecutive_great_step = consecutive_great_step
        if consecutive_great_cap is not None:
            self.consecutive_great_cap = consecutive_great_cap
        if consecutive_good_multiplier is not None:
            self.consecutive_good_multiplier = consecutive_good_multiplier
        if consecutive_good_step is not None:
            self.consecutive_good_step = consecutive_good_step
        if consecutive_good_cap is not None:
            self.consecutive_good_cap = consecutive_good_cap

@_level_life
class _LevelLife:
    consecutive_perfect_increment: float
    consecutive_perfect_step: float
    consecutive_great_increment: float
    consecutive_great_step: float
    consecutive_good_increment: float
    consecutive_good_step: float
    initial: int
    maximum: int

    def update(self, consecutive_perfect_increment=None, consecutive_perfect_step=None, consecutive_great_increment=None, consecutive_great_step=None, consecutive_good_increment=None, consecutive_good_step=None, initial=None, maximum=None):
        if consecutive_perfect_increment is not None:
            self.consecutive_perfect_increment = consecutive_perfect_increment
        if consecutive_perfect_step is not None:
            self.consecutive_perfect_step = consecutive_perfect_step
        if consecutive_great_increment is not None:
            self.consecutive_great_increment = consecutive_great_increment
        if consecutive_great_step is not None:
            self.consecutive_great_step = consecutive_great_step
        if consecutive_good_increment is not None:
            self.consecutive_good_increment = consecutive_good_increment
        if consecutive_good_step is not None:
            self.consecutive_good_step = consecutive_good_step
        if initial is not None:
            self.initial = initial
        if maximum is not None:
            self.maximum = maximum

@_tutorial_instruction
class _TutorialInstruction:
    text_id: int

@meta_fn
def is_debug():
    if not ctx():
        return False
    match ctx().mode_state.mode:
        case Mode.PLAY:
            return _PlayRuntimeEnvironment.is_debug
        case Mode.WATCH:
            return _WatchRuntimeEnvironment.is_debug
        case Mode.PREVIEW:
            return _PreviewRuntimeEnvironment.is_debug
        case Mode.TUTORIAL:
            return _TutorialRuntimeEnvironment.is_debug
        case _:
            return False

@meta_fn
def is_play():
    return bool(ctx() and ctx().mode_state.mode == Mode.PLAY)

@meta_fn
def is_preview():
    return bool(ctx() and ctx().mode_state.mode == Mode.PREVIEW)

@meta_fn
def is_watch():
    return bool(ctx() and ctx().mode_state.mode == Mode.WATCH)

@meta_fn
def is_tutorial():
    return bool(ctx() and ctx().mode_state.mode == Mode.TUTORIAL)

@meta_fn
def is_preprocessing():
    return bool(ctx() and ctx().callback in {'preprocess', 'spawnOrder', 'spawnTime', 'despawnTime'})

@meta_fn
def aspect_ratio():
    if not ctx():
        return 16 / 9
    match ctx().mode_state.mode:
        case Mode.PLAY:
            return _PlayRuntimeEnvironment.aspect_ratio
        case Mode.WATCH:
            return _WatchRuntimeEnvironment.aspect_ratio
        case Mode.PREVIEW:
            return _PreviewRuntimeEnvironment.aspect_ratio
        case Mode.TUTORIAL:
            return _TutorialRuntimeEnvironment.aspect_ratio

@meta_fn
def audio_offset():
    if not ctx():
        return 0
    match ctx().mode_state.mode:
        case Mode.PLAY:
            return _PlayRuntimeEnvironment.audio_offset
        case Mode.WATCH:
            return _WatchRuntimeEnvironment.audio_offset
        case Mode.TUTORIAL:
            return _TutorialRuntimeEnvironment.audio_offset
        case _:
            return 0

@meta_fn
def input_offset():
    if not ctx():
        return 0
    match ctx().mode_state.mode:
        case Mode.PLAY:
            return _PlayRuntimeEnvironment.input_offset
        case Mode.WATCH:
            return _WatchRuntimeEnvironment.input_offset
        case _:
            return 0

@meta_fn
def is_multiplayer():
    if not ctx():
        return False
    match ctx().mode_state.mode:
        case Mode.PLAY:
            return _PlayRuntimeEnvironment.is_multiplayer
        case _:
            return False

@meta_fn
def is_replay():
    if not ctx():
        return False
    match ctx().mode_state.mode:
        case Mode.WATCH:
            return _WatchRuntimeEnvironment.is_replay
        case _:
            return False

@meta_fn
def time():
    if not ctx():
        return 0
    match ctx().mode_state.mode:
        case Mode.PLAY:
            return _PlayRuntimeUpdate.time
        case Mode.WATCH:
            return _WatchRuntimeUpdate.time
        case Mode.TUTORIAL:
            return _TutorialRuntimeUpdate.time
        case _:
            return 0

@meta_fn
def offset_adjusted_time():
    if not ctx():
        return 0
    match ctx().mode_state.mode:
        case Mode.PLAY:
            return _PlayRuntimeUpdate.time - _PlayRuntimeEnvironment.input_offset
        case Mode.WATCH:
            return _WatchRuntimeUpdate.time - _WatchRuntimeEnvironment.input_offset
        case Mode.TUTORIAL:
            return _TutorialRuntimeUpdate.time
        case _:
            return 0

@meta_fn
def delta_time():
    if not ctx():
        return 0
    match ctx().mode_state.mode:
        case Mode.PLAY:
            return _PlayRuntimeUpdate.delta_time
        case Mode.WATCH:
            return _WatchRuntimeUpdate.delta_time
        case Mode.TUTORIAL:
            return _TutorialRuntimeUpdate.delta_time
        case _:
            return 0

@meta_fn
def scaled_time():
    if not ctx():
        return 0
    match ctx().mode_state.mode:
        case Mode.PLAY:
            return _PlayRuntimeUpdate.scaled_time
        case Mode.WATCH:
            return _WatchRuntimeUpdate.scaled_time
        case Mode.TUTORIAL:
            return _TutorialRuntimeUpdate.time
        case _:
            return 0

@meta_fn
def prev_time():
    return time() - delta_time()

@meta_fn
def touches():
    if not ctx():
        return Array[Touch, 0]()
    match ctx().mode_state.mode:
        case Mode.PLAY:
            return ArrayPointer[Touch]._raw(size=Num._accept_(_PlayRuntimeUpdate.touch_count), block=Num._accept_(ctx().blocks.RuntimeTouchArray), offset=Num._accept_(0))
        case _:
            return Array[Touch, 0]()

@meta_fn
def is_skip():
    if not ctx():
        return False
    match ctx().mode_state.mode:
        case Mode.WATCH:
            return _WatchRuntimeUpdate.is_skip
        case _:
            return False

@meta_fn
def navigation_direction():
    if not ctx():
        return 0
    match ctx().mode_state.mode:
        case Mode.TUTORIAL:
            return _TutorialRuntimeUpdate.navigation_direction
        case _:
            return 0

def skin_transform():
    return _SkinTransform.transform

@meta_fn
def set_skin_transform(value):
    _SkinTransform.transform._copy_from_(value)

def particle_transform():
    return _ParticleTransform.transform

@meta_fn
def set_particle_transform(value):
    _ParticleTransform.transform._copy_from_(value)

def background():
    return _Background.value

def set_background(value):
    _Background.value = value
play_ui = _PlayRuntimeUi
play_ui_configs = _PlayRuntimeUiConfigs
watch_ui = _WatchRuntimeUi
watch_ui_configs = _WatchRuntimeUiConfigs
preview_ui = _PreviewRuntimeUi
preview_ui_configs = _PreviewRuntimeUiConfigs
tutorial_ui = _TutorialRuntimeUi
tutorial_ui_configs = _TutorialRuntimeUiConfigs
_runtime_ui = RuntimeUi()

def runtime_ui():
    return _runtime_ui

def canvas():
    return _PreviewRuntimeCanvas

@perf_meta_fn
def screen():
    return Rect._unchecked(t=1, r=aspect_ratio(), b=-1, l=-aspect_ratio())

@meta_fn
def safe_area():
    if not ctx():
        return screen()
    match ctx().mode_state.mode:
        case Mode.PLAY:
            return Rect._unchecked(t=_PlayRuntimeEnvironment.safe_area_y_max, r=_PlayRuntimeEnvironment.safe_area_x_max, b=_PlayRuntimeEnvironment.safe_area_y_min, l=_PlayRuntimeEnvironment.safe_area_x_min)
        case Mode.WATCH:
            return Rect._unchecked(t=_WatchRuntimeEnvironment.safe_area_y_max, r=_WatchRuntimeEnvironment.safe_area_x_max, b=_WatchRuntimeEnvironment.safe_area_y_min, l=_WatchRuntimeEnvironment.safe_area_x_min)
        case Mode.PREVIEW:
            return Rect._unchecked(t=_PreviewRuntimeEnvironment.safe_area_y_max, r=_PreviewRuntimeEnvironment.safe_area_x_max, b=_PreviewRuntimeEnvironment.safe_area_y_min, l=_PreviewRuntimeEnvironment.safe_area_x_min)
        case Mode.TUTORIAL:
            return Rect._unchecked(t=_TutorialRuntimeEnvironment.safe_area_y_max, r=_TutorialRuntimeEnvironment.safe_area_x_max, b=_TutorialRuntimeEnvironment.safe_area_y_min, l=_TutorialRuntimeEnvironment.safe_area_x_min)

def level_score():
    return _LevelScore

def level_life():
    return _LevelLife

def add_life_scheduled(value, time):
    assert is_play() or is_watch(), 'add_life can only be called in play or watch mode'
    _add_life_scheduled(value, time)

@native_function(Op.AddLifeScheduled)
def _add_life_scheduled(value, time):
    raise NotImplementedError
