import gzip
import json
import struct
from collections.abc import Callable
from dataclasses import dataclass
from pathlib import Path
from sonolus.backend.mode import Mode
from sonolus.build.compile import compile_mode
from sonolus.script.archetype import _BaseArchetype
from sonolus.script.bucket import Buckets
from sonolus.script.effect import Effects
from sonolus.script.engine import EngineData, empty_play_mode, empty_preview_mode, empty_tutorial_mode, empty_watch_mode
from sonolus.script.instruction import TutorialInstructionIcons, TutorialInstructions
from sonolus.script.internal.callbacks import navigate_callback, preprocess_callback, update_callback, update_spawn_callback
from sonolus.script.internal.context import ProjectContextState, ReadOnlyMemory
from sonolus.script.internal.visitor import clear_frontend_caches
from sonolus.script.options import Options
from sonolus.script.particle import Particles
from sonolus.script.project import BuildConfig
from sonolus.script.sprite import Skin
from sonolus.script.ui import UiConfig

@dataclass
class PackagedEngine:
    configuration: bytes
    play_data: bytes
    watch_data: bytes
    preview_data: bytes
    tutorial_data: bytes
    rom: bytes

    def write(self, path):
        path.mkdir(parents=True, exist_ok=True)
        (path / 'EngineConfiguration').write_bytes(self.configuration)
        (path / 'EnginePlayData').write_bytes(self.play_data)
        (path / 'EngineWatchData').write_bytes(self.watch_data)
        (path / 'EnginePreviewData').write_bytes(self.preview_data)
        (path / 'EngineTutorialData').write_bytes(self.tutorial_data)
        (path / 'EngineRom').write_bytes(self.rom)

    def read(self, path):
        self.configuration = (path / 'EngineConfiguration').read_bytes()
        self.play_data = (path / 'EnginePlayData').read_bytes()
        self.watch_data = (path / 'EngineWatchData').read_bytes()
        self.preview_data = (path / 'EnginePreviewData').read_bytes()
        self.tutorial_data = (path / 'EngineTutorialData').read_bytes()
        self.rom = (path / 'EngineRom').read_bytes()

def package_engine(engine, config=None, project_state=None):
    clear_frontend_caches()
    config = config or BuildConfig()
    if project_state is None:
        project_state = ProjectContextState.from_build_config(config)
    configuration = build_engine_configuration(engine.options, engine.ui)
    play_mode = engine.play if config.build_play else empty_play_mode()
    watch_mode = engine.watch if config.build_watch else empty_watch_mode()
    preview_mode = engine.preview if config.build_preview else empty_preview_mode()
    tutorial_mode = engine.tutorial if config.build_tutorial else empty_tutorial_mode()
    play_data = build_play_mode(archetypes=play_mode.archetypes, skin=play_mode.skin, effects=play_mode.effects, particles=play_mode.particles, buckets=play_mode.buckets, project_state=project_state, config=config)
    watch_data = build_watch_mode(archetypes=watch_mode.archetypes, skin=watch_mode.skin, effects=watch_mode.effects, particles=watch_mode.particles, buckets=watch_mode.buckets, project_state=project_state, update_spawn=watch_mode.update_spawn, config=config)
    preview_data = build_preview_mode(archetypes=preview_mode.archetypes, skin=preview_mode.skin, project_state=project_state, config=config)
    tutorial_data = build_tutorial_mode(skin=tutorial_mode.skin, effects=tutorial_mode.effects, particles=tutorial_mode.particles, instructions=tutorial_mode.instructions, instruction_icons=tutorial_mode.instruction_icons, preprocess=tutorial_mode.preprocess, navigate=tutorial_mode.navigate, update=tutorial_mode.update, project_state=project_state, config=config)
    return PackagedEngine(configuration=package_data(configuration), play_data=package_data(play_data), watch_data=package_data(watch_data), preview_data=package_data(preview_data), tutorial_data=package_data(tutorial_data), rom=package_rom(project_state.rom))

def validate_engine(engine, config=None, project_state=None):
    clear_frontend_caches()
    config = config or BuildConfig()
    if project_state is None:
        project_state = ProjectContextState.from_build_config(config)
    play_mode = engine.play if config.build_play else empty_play_mode()
    watch_mode = engine.watch if config.build_watch else empty_watch_mode()
    preview_mode = engine.preview if config.build_preview else empty_preview_mode()
    tutorial_mode = engine.tutorial if config.build_tutorial else empty_tutorial_mode()
    build_play_mode(archetypes=play_mode.archetypes, skin=play_mode.skin, effects=play_mode.effects, particles=play_mode.particles, buckets=play_mode.buckets, project_state=project_state, config=config, validate_only=True)
    build_watch_mode(archetypes=watch_mode.archetypes, skin=watch_mode.skin, effects=watch_mode.effects, particles=watch_mode.particles, buckets=watch_mode.buckets, project_state=project_state, update_spawn=watch_mode.update_spawn, config=config, validate_only=True)
    build_preview_mode(archetypes=preview_mode.archetypes, skin=preview_mode.skin, project_state=project_state, config=config, validate_only=True)
    build_tutorial_mode(skin=tutorial_mode.skin, effects=tutorial_mode.effects, particles=tutorial_mode.particles, instructions=tutorial_mode.instructions, instruction_icons=tutorial_mode.instruction_icons, preprocess=tutorial_mode.preprocess, navigate=tutorial_mode.navigate, update=tutorial_mode.update, project_state=project_state, config=config, validate_only=True)

def build_engine_configuration(options, ui):
    result = {'options': [option.to_dict() for option in options._options_], 'ui': ui.to_dict()}
    if (replay_fallback_option_names := getattr(options, 'replay_fallback_option_names', None)):
        result['replayFallbackOptionNames'] = list(replay_fallback_option_names)
    return result

def build_play_mode(archetypes, skin, effects, particles, buckets, project_state, config, validate_only=False):
    return {**compile_mode(mode=Mode.PLAY, project_state=project_state, archetypes=archetypes, global_callbacks=None, level=config.passes, validate_only=validate_only), 'skin': build_skin(skin), 'effect': build_effects(effects), 'particle': build_particles(particles), 'buckets': build_buckets(buckets)}

def build_watch_mode(archetypes, skin, effects, particles, buckets, project_state, update_spawn, config, validate_only=False):
    return {**compile_mode(mode=Mode.WATCH, project_state=project_state, archetypes=archetypes, global_callbacks=[(update_spawn_callback, update_spawn)], level=config.passes, validate_only=validate_only), 'skin': build_skin(skin), 'effect': build_effects(effects), 'particle': build_particles(particles), 'buckets': build_buckets(buckets)}

def build_preview_mode(archetypes, skin, project_state, config, validate_only=False):
    return {**compile_mode(mode=Mode.PREVIEW, project_state=project_state, archetypes=archetypes, global_callbacks=None, level=config.passes, validate_only=validate_only), 'skin': build_skin(skin)}

def build_tutorial_mode(skin, effects, particles, instructions, instruction_icons, preprocess, navigate, update, project_state, config, validate_only=False):
    return {**compile_mode(mode=Mode.TUTORIAL, project_state=project_state, archetypes=[], global_callbacks=[(preprocess_callback, preprocess), (navigate_callback, navigate), (update_callback, update)], level=config.passes, validate_only=validate_only), 'skin': build_skin(skin), 'effect': build_effects(effects), 'particle': build_particles(particles), 'instruction': build_instructions(instructions, instruction_icons)}

def build_skin(skin):
    return {'renderMode': skin.render_mode, 'sprites': [{'name': name, 'id': i} for i, name in enumerate(skin._sprites_)]}

def build_effects(effects):
    return {'clips': [{'name': name, 'id': i} for i, name in enumerate(effects._effects_)]}

def build_particles(particles):
    return {'effects': [{'name': name, 'id': i} for i, name in enumerate(particles._particles_)]}

def build_buckets(buckets):
    return [bucket.to_dict() for bucket in buckets._buckets_]

def build_instructions(instructions, instruction_icons):
    return {'texts': [{'name': name, 'id': i} for i, name in enumerate(instructions._instructions_)], 'icons': [{'name': name, 'id': i} for i, name in enumerate(instruction_icons._instruction_icons_)]}

def package_rom(rom):
    values = rom.values or [0]
    output = bytearray()
    for value in values:
        output.extend(struct.pack('<f', value))
    return gzip.compress(bytes(output), mtime=0)

def package_data(value):
    json_data = json.dumps(value, separators=(',', ':')).encode('utf-8')
    return gzip.compress(json_data, mtime=0)

def unpackage_data(data):
    json_data = gzip.decompress(data)
    return json.loads(json_data)

def print_table(rows):
    if not rows:
        return
    widths = [max((len(row[i]) for row in rows)) for i in range(len(rows[0]))]
    for row in rows:
        print('  '.join((cell.ljust(widths[i]) for i, cell in enumerate(row))))

def print_visit_stats(stats):
    ordered = sorted(stats.items(), key=lambda item: item[1].own_time, reverse=True)
    rows = [[f'{name}:', f'{stat.own_time // 1000000}ms', f'{stat.total_time // 1000000}ms', f'{stat.call_count} calls'] for name, stat in ordered]
    print_table(rows)
