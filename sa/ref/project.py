from collections.abc import Callable, Iterable
from dataclasses import dataclass
from os import PathLike
from pathlib import Path
from typing import ClassVar, TypedDict
from sonolus.backend import optimize
from sonolus.script.archetype import ArchetypeSchema
from sonolus.script.engine import Engine
from sonolus.script.internal.context import RuntimeChecks
from sonolus.script.level import ExternalLevelData, Level, LevelData

class Project:

    def __init__(self, engine, levels=None, resources=None, converters=None):
        self.engine = engine
        match levels:
            case Callable():
                self._level_source = lazy_loader(levels)
            case Iterable():
                self._level_source = levels
            case None:
                self._level_source = []
            case _:
                raise TypeError(f'Invalid type for levels: {type(levels)}. Expected Iterable or Callable.')
        self._levels = None
        self.resources = Path(resources or 'resources')
        self.converters = converters or {}

    def with_levels(self, levels):
        return Project(self.engine, levels, self.resources, self.converters)

    def dev(self, build_dir, port=8080, config=None):
        from sonolus.build.cli import run_server
        if config is None:
            config = BuildConfig(runtime_checks=RuntimeChecks.NOTIFY_AND_TERMINATE)
        run_server(Path(build_dir) / 'site', port=port, project_module_name=None, core_module_names=None, build_dir=Path(build_dir), config=config, project=self)

    def build(self, build_dir, config=None):
        from sonolus.build.cli import build_project
        config = config or BuildConfig()
        build_project(self, Path(build_dir), config)

    def schema(self):
        from sonolus.build.project import get_project_schema
        return get_project_schema(self)

    @property
    def levels(self):
        if self._levels is None:
            self._levels = list(self._level_source)
        return self._levels

def lazy_loader(fn):
    yield from fn()

class ProjectSchema(TypedDict):
    archetypes: list[ArchetypeSchema]

@dataclass
class BuildConfig:
    MINIMAL_PASSES: ClassVar[optimize.OptimizationLevel] = optimize.MINIMAL_PASSES
    FAST_PASSES: ClassVar[optimize.OptimizationLevel] = optimize.FAST_PASSES
    STANDARD_PASSES: ClassVar[optimize.OptimizationLevel] = optimize.STANDARD_PASSES
    passes: optimize.OptimizationLevel = optimize.STANDARD_PASSES
    build_play: bool = True
    build_watch: bool = True
    build_preview: bool = True
    build_tutorial: bool = True
    override_resource_level_engines: bool = True
    runtime_checks: RuntimeChecks = RuntimeChecks.NONE
    verbose: bool = False
