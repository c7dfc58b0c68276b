from sonolus.backend._opt.ir import Func
from sonolus.backend._opt.midend import build_ssa, cfg_cleanup, midend_round, midend_standard, out_of_ssa
from sonolus.backend._opt.analysis import compute_dominators
from sonolus.backend._opt.lower import ALLOC_BUMP, ALLOC_PACKING, ALLOC_TRY_BUMP, allocate_func, fuse_rmw, if_convert, lower_from_ssa
from sonolus.backend._opt.emit import emit_func
import os as os
from sonolus.backend._opt.ir import marshal_in as marshal_in, register_phase as register_phase, to_basic_blocks as to_basic_blocks
from sonolus.backend.optimize.flow import cfg_to_text as cfg_to_text
from sonolus.backend.optimize import profiling as _prof
_TRACE = os.environ.get('SONOLUS_OPT_TRACE') == '1'

def _trace_dump(func, label):
    print(f'===== SONOLUS_OPT_TRACE: after {label} =====')
    print(cfg_to_text(to_basic_blocks(func)))

def compiled():
    return True

def _triangular(n):
    total = 0
    i: 'long int'
    for i in range(n):
        total += i
    return total

def nogil_sum(n):
    result: 'long int'
    with __nogil__:
        result = _triangular(n)
    return result

class __anon_enum__:
    LEVEL_MINIMAL: 'enum' = 0
    LEVEL_FAST: 'enum' = 1
    LEVEL_STANDARD: 'enum' = 2

def _level_code(level):
    if level == 'minimal':
        return LEVEL_MINIMAL
    if level == 'fast':
        return LEVEL_FAST
    if level == 'standard':
        return LEVEL_STANDARD
    raise ValueError(f"Unknown optimization level {level} (expected 'minimal', 'fast', or 'standard')")

def _pipeline(func, level, allocate):
    cleaned: 'Func'
    ssa: 'Func'
    opt: 'Func'
    conv: 'Func'
    lowered: 'Func'
    prof = _prof.enabled
    t0 = 0
    if level == LEVEL_MINIMAL:
        if prof:
            t0 = _prof.now_ns()
        cleaned = cfg_cleanup(func, False)
        if prof:
            _prof.record('cfg_cleanup', _prof.now_ns() - t0)
        if _TRACE:
            _trace_dump(cleaned, 'cfg_cleanup')
        if allocate:
            if prof:
                t0 = _prof.now_ns()
            allocate_func(cleaned, ALLOC_BUMP)
            if prof:
                _prof.record('allocate', _prof.now_ns() - t0)
            if _TRACE:
                _trace_dump(cleaned, 'allocate(bump)')
        return cleaned
    if prof:
        t0 = _prof.now_ns()
    cleaned = cfg_cleanup(func, False)
    if prof:
        _prof.record('cfg_cleanup', _prof.now_ns() - t0)
    if _TRACE:
        _trace_dump(cleaned, 'cfg_cleanup')
    if prof:
        t0 = _prof.now_ns()
    ssa = build_ssa(cleaned)
    if prof:
        _prof.record('build_ssa', _prof.now_ns() - t0)
    if _TRACE:
        _trace_dump(ssa, 'build_ssa')
    if level == LEVEL_FAST:
        if prof:
            t0 = _prof.now_ns()
        opt = midend_round(ssa, False)
        if prof:
            _prof.record('midend', _prof.now_ns() - t0)
        if _TRACE:
            _trace_dump(opt, 'midend_round')
        if prof:
            t0 = _prof.now_ns()
        lowered = lower_from_ssa(opt)
        if prof:
            _prof.record('lower', _prof.now_ns() - t0)
        if _TRACE:
            _trace_dump(lowered, 'lower_from_ssa')
        if allocate:
            if prof:
                t0 = _prof.now_ns()
            allocate_func(lowered, ALLOC_TRY_BUMP)
            fuse_rmw(lowered)
            if prof:
                _prof.record('allocate', _prof.now_ns() - t0)
            if _TRACE:
                _trace_dump(lowered, 'allocate(try_bump)+fuse_rmw')
        return lowered
    if prof:
        t0 = _prof.now_ns()
    opt = midend_standard(ssa)
    if prof:
        _prof.record('midend', _prof.now_ns() - t0)
    if _TRACE:
        _trace_dump(opt, 'midend_standard')
    if prof:
        t0 = _prof.now_ns()
    conv = if_convert(opt)
    if prof:
        _prof.record('if_convert', _prof.now_ns() - t0)
    if _TRACE:
        _trace_dump(conv, 'if_convert')
    if prof:
        t0 = _prof.now_ns()
    lowered = lower_from_ssa(conv)
    if prof:
        _prof.record('lower', _prof.now_ns() - t0)
    if _TRACE:
        _trace_dump(lowered, 'lower_from_ssa')
    if allocate:
        if prof:
            t0 = _prof.now_ns()
        allocate_func(lowered, ALLOC_PACKING)
        fuse_rmw(lowered)
        if prof:
            _prof.record('allocate', _prof.now_ns() - t0)
        if _TRACE:
            _trace_dump(lowered, 'allocate(packing)+fuse_rmw')
    return lowered

def run_pipeline_cfg(entry, level, mode=None, callback=None, allocate=True):
    lvl = _level_code(level)
    prof = _prof.enabled
    t0 = 0
    if prof:
        t0 = _prof.now_ns()
    func = __cast__('Func', marshal_in(entry, mode, callback))
    if prof:
        _prof.record('marshal_in', _prof.now_ns() - t0)
    result = _pipeline(func, lvl, allocate)
    if prof:
        t0 = _prof.now_ns()
    bb = to_basic_blocks(result)
    if prof:
        _prof.record('marshal_out', _prof.now_ns() - t0)
    return bb

def optimize_and_finalize_cfg(entry, level, mode=None, callback=None):
    lvl = _level_code(level)
    prof = _prof.enabled
    t0 = 0
    if prof:
        t0 = _prof.now_ns()
    func = __cast__('Func', marshal_in(entry, mode, callback))
    if prof:
        _prof.record('marshal_in', _prof.now_ns() - t0)
    result = _pipeline(func, lvl, True)
    if prof:
        t0 = _prof.now_ns()
    node = emit_func(result)
    if prof:
        _prof.record('emit', _prof.now_ns() - t0)
    return node
_MODE_STATE = None
_OUTPUT_GEN = None
_OPT_CONFIG = None
_OPT_FINALIZE = None
_STANDARD_LEVEL = None
_PLAY_MODE = None
_COMPILATION_ERROR = None

def _ensure_compile_deps():
    global _MODE_STATE, _OUTPUT_GEN, _OPT_CONFIG, _OPT_FINALIZE, _STANDARD_LEVEL, _PLAY_MODE
    global _COMPILATION_ERROR
    if _MODE_STATE is None:
        from sonolus.backend.optimize import STANDARD_PASSES as _sp, OptimizerConfig as _oc, optimize_and_finalize as _of
        from sonolus.backend.mode import Mode as _mode
        from sonolus.build.node import OutputNodeGenerator as _og
        from sonolus.script.internal.context import ModeContextState as _ms
        from sonolus.script.internal.error import CompilationError as _ce
        _MODE_STATE = _ms
        _OUTPUT_GEN = _og
        _OPT_CONFIG = _oc
        _OPT_FINALIZE = _of
        _STANDARD_LEVEL = _sp
        _PLAY_MODE = _mode.PLAY
        _COMPILATION_ERROR = _ce

def compile_mode(mode, project_state, archetypes, global_callbacks, callback_to_cfg, level=None, validate_only=False):
    _ensure_compile_deps()
    if level is None:
        level = _STANDARD_LEVEL
    mode_state = _MODE_STATE(mode, archetypes)
    nodes = _OUTPUT_GEN()
    results = {}

    def optimize_cfg(cfg, cb_name):
        try:
            return _OPT_FINALIZE(cfg, level, _OPT_CONFIG(mode=mode, callback=cb_name))
        except _COMPILATION_ERROR:
            raise
        except Exception as e:
            raise _COMPILATION_ERROR(f'Optimization failed for callback {cb_name} in {getattr(mode, 'name', mode)} mode: {e}') from e
    base_archetype_entries = {}
    if archetypes is not None:
        base_archetypes = []
        seen_base_archetypes = set()
        for a in archetypes:
            base = getattr(a, '_derived_base_', a)
            if base not in seen_base_archetypes:
                seen_base_archetypes.add(base)
                base_archetypes.append(base)
        for archetype in base_archetypes:
            archetype._init_fields()
            imports = []
            for name, import_info in archetype._imported_keys_.items():
                import_entry = {'name': name, 'index': import_info.index}
                if import_info.default is not None:
                    import_entry['def'] = import_info.default
                imports.append(import_entry)
            archetype_data = {'name': archetype.name, 'hasInput': archetype.is_scored, 'imports': imports}
            if mode == _PLAY_MODE:
                archetype_data['exports'] = [*archetype._exported_keys_]
            callback_items = [(cb_name, cb_info, archetype._callbacks_[cb_name]) for cb_name, cb_info in archetype._supported_callbacks_.items() if cb_name in archetype._callbacks_ and archetype._callbacks_[cb_name] not in archetype._default_callbacks_]
            for cb_name, cb_info, cb in callback_items:
                cb_order = getattr(cb, '_callback_order_', 0)
                if not cb_info.supports_order and cb_order != 0:
                    raise ValueError(f"Callback '{cb_name}' does not support a non-zero order")
                cfg = callback_to_cfg(project_state, mode_state, cb, cb_info.name, archetype)
                archetype_data[cb_info.name] = {'index': 0 if validate_only else nodes.add(optimize_cfg(cfg, cb_info.name)), 'order': cb_order}
            base_archetype_entries[archetype] = archetype_data
    if global_callbacks is not None:
        for cb_info, cb in global_callbacks:
            cfg = callback_to_cfg(project_state, mode_state, cb, cb_info.name, None)
            results[cb_info.name] = 0 if validate_only else nodes.add(optimize_cfg(cfg, cb_info.name))
    if archetypes is not None:
        results['archetypes'] = [{**base_archetype_entries[getattr(a, '_derived_base_', a)], 'name': a.name, 'hasInput': a.is_scored} for a in archetypes]
    results['nodes'] = nodes.get()
    return results

def _phase_cfg_cleanup(func):
    return cfg_cleanup(__cast__('Func', func), False)

def _phase_ssa(func):
    return build_ssa(__cast__('Func', func))

def _phase_unssa(func):
    return out_of_ssa(__cast__('Func', func))

def _phase_ifconv(func):
    return if_convert(__cast__('Func', func))

def _phase_lower(func):
    return lower_from_ssa(__cast__('Func', func))

def _phase_dominators(func):
    compute_dominators(__cast__('Func', func))
    return func

def _phase_bump(func):
    allocate_func(__cast__('Func', func), ALLOC_BUMP)
    return func

def _phase_packing(func):
    allocate_func(__cast__('Func', func), ALLOC_PACKING)
    return func

def _phase_try_bump(func):
    allocate_func(__cast__('Func', func), ALLOC_TRY_BUMP)
    return func
