from dataclasses import dataclass
from sonolus.backend.mode import Mode
from sonolus.backend.node import EngineNode
from sonolus.backend.optimize.flow import BasicBlock

class OptimizationLevel:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'OptimizationLevel({self.name!r})'
MINIMAL_PASSES = OptimizationLevel('minimal')
FAST_PASSES = OptimizationLevel('fast')
STANDARD_PASSES = OptimizationLevel('standard')
_LEVEL_NAMES = {MINIMAL_PASSES: 'minimal', FAST_PASSES: 'fast', STANDARD_PASSES: 'standard'}

@dataclass
class OptimizerConfig:
    mode: Mode | None = None
    callback: str | None = None

def _level_name(level):
    name = _LEVEL_NAMES.get(level)
    if name is None:
        raise ValueError(f'Unknown optimization level {level!r} (expected MINIMAL_PASSES, FAST_PASSES, or STANDARD_PASSES)')
    return name

def run_passes(entry, level, config=None, *, allocate=True):
    from sonolus.backend._opt import driver
    config = config or OptimizerConfig()
    return driver.run_pipeline_cfg(entry, _level_name(level), config.mode, config.callback, allocate)

def optimize_and_finalize(entry, level, config=None):
    from sonolus.backend._opt import driver
    config = config or OptimizerConfig()
    return driver.optimize_and_finalize_cfg(entry, _level_name(level), config.mode, config.callback)

def cfg_to_engine_node(entry):
    from sonolus.backend._opt import emit
    return emit.emit_cfg(entry)
