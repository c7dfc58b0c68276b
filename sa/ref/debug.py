from collections.abc import Callable
from contextvars import ContextVar
from typing import Any, Literal, Never, assert_never
from sonolus.backend.mode import Mode
from sonolus.backend.ops import Op
from sonolus.backend.optimize import FAST_PASSES, MINIMAL_PASSES, STANDARD_PASSES, OptimizationLevel, OptimizerConfig, run_passes
from sonolus.backend.optimize.flow import cfg_to_mermaid
from sonolus.script.internal.context import ModeContextState, ProjectContextState, RuntimeChecks, ctx, set_ctx
from sonolus.script.internal.impl import validate_value
from sonolus.script.internal.meta_fn import meta_fn
from sonolus.script.internal.native import native_function
from sonolus.script.internal.simple_meta_fn import simple_meta_fn
from sonolus.script.internal.simulation_context import SimulationContext
from sonolus.script.num import Num
debug_log_callback = ContextVar[Callable[[Num], None]]('debug_log_callback')

@simple_meta_fn
def error(message=None):
    message = validate_value(message)._as_py_() or 'Error'
    if not isinstance(message, str):
        raise ValueError('Expected a string')
    if ctx():
        match ctx().project_state.runtime_checks:
            case RuntimeChecks.NOTIFY_AND_TERMINATE:
                debug_log(ctx().map_debug_message(message))
                debug_pause()
            case RuntimeChecks.TERMINATE | RuntimeChecks.NONE:
                pass
            case _ as unreachable:
                assert_never(unreachable)
        terminate()
    else:
        raise RuntimeError(message)

@meta_fn
def static_error(message=None):
    message = validate_value(message)._as_py_() or 'Error'
    if not isinstance(message, str):
        raise ValueError('Expected a string')
    raise RuntimeError(message)

@meta_fn
def debug_log(value):
    if debug_log_callback.get(None):
        return debug_log_callback.get()(value)
    else:
        return _debug_log(value)

@native_function(Op.DebugLog)
def _debug_log(value):
    print(f'[DEBUG] {value}')
    return 0

@native_function(Op.DebugPause)
def debug_pause():
    input('[DEBUG] Paused')

@simple_meta_fn
def notify(message):
    message = validate_value(message)._as_py_()
    if not isinstance(message, str):
        raise ValueError('Expected a string')
    if ctx():
        if ctx().project_state.runtime_checks == RuntimeChecks.NOTIFY_AND_TERMINATE:
            debug_log(ctx().map_debug_message(message))
            debug_pause()
    else:
        print(f'[NOTIFY] {message}')

@meta_fn
def runtime_checks_enabled():
    if ctx():
        return ctx().project_state.runtime_checks != RuntimeChecks.NONE
    else:
        return True

@simple_meta_fn
def require(value, message=None):
    if not ctx():
        if not value:
            raise AssertionError(message if message is not None else 'Assertion failed')
        return
    value = Num._accept_(validate_value(value))
    message = validate_value(message)
    message = message._as_py_() or 'Assertion failed'
    if value._is_py_():
        if value._as_py_():
            return
        else:
            error(message)
    else:
        ctx().test = value.ir()
        t_branch = ctx().branch(None)
        f_branch = ctx().branch(0)
        set_ctx(f_branch)
        error(message)
        set_ctx(t_branch)

@simple_meta_fn
def assert_true(value, message=None):
    value = validate_value(value)
    if ctx() and ctx().project_state.runtime_checks == RuntimeChecks.NONE and (not (validate_value(value)._is_py_() and validate_value(value)._as_py_() == 0)):
        return
    require(value, message)

@simple_meta_fn
def assert_false(value, message=None):
    assert_true(value == 0, message)

def static_assert(value, message=None):
    message = message if message is not None else 'Static assertion failed'
    if not is_static_true(value):
        static_error(message)

def try_static_assert(value, message=None):
    message = message if message is not None else 'Static assertion failed'
    if is_static_false(value):
        static_error(message)
    if not value:
        error(message)

@simple_meta_fn
def assert_unreachable(message=None):
    message = validate_value(message)._as_py_() or 'Unreachable code reached'
    raise RuntimeError(message)

@simple_meta_fn
def terminate():
    if ctx():
        set_ctx(ctx().into_dead())
    else:
        raise RuntimeError('Terminated')

def visualize_cfg(fn, /, *, mode=Mode.PLAY, callback='', archetype=None, archetypes=None, passes='standard'):
    from sonolus.build.compile import callback_to_cfg
    levels = {'minimal': MINIMAL_PASSES, 'fast': FAST_PASSES, 'standard': STANDARD_PASSES}
    if isinstance(passes, str):
        if passes not in levels:
            raise ValueError(f"Unknown optimization level {passes!r} (expected 'minimal', 'fast', or 'standard')")
        level = levels[passes]
    else:
        level = passes
    project_state = ProjectContextState(runtime_checks=RuntimeChecks.NOTIFY_AND_TERMINATE)
    mode_state = ModeContextState(mode, archetypes)
    cfg = callback_to_cfg(project_state, mode_state, fn, callback, archetype=archetype)
    cfg = run_passes(cfg, level, OptimizerConfig(mode=mode), allocate=False)
    return cfg_to_mermaid(cfg)

def simulation_context():
    return SimulationContext()

@meta_fn
def is_static_true(value):
    if ctx() is None:
        return bool(value)
    else:
        value = validate_value(value)
        return value._is_py_() and value._as_py_()

@meta_fn
def is_static_false(value):
    if ctx() is None:
        return not bool(value)
    else:
        value = validate_value(value)
        return value._is_py_() and (not value._as_py_())
