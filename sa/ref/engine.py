import json
from collections.abc import Callable
from os import PathLike
from pathlib import Path
from typing import Any, Literal
from sonolus.build.collection import Asset, load_asset
from sonolus.script.archetype import PlayArchetype, PreviewArchetype, WatchArchetype, _BaseArchetype
from sonolus.script.bucket import Buckets, EmptyBuckets
from sonolus.script.effect import Effects, EmptyEffects
from sonolus.script.instruction import EmptyInstructionIcons, EmptyInstructions, TutorialInstructionIcons, TutorialInstructions
from sonolus.script.metadata import AnyText, Tag, as_localization_text
from sonolus.script.options import EmptyOptions, Options
from sonolus.script.particle import EmptyParticles, Particles
from sonolus.script.sprite import EmptySkin, Skin
from sonolus.script.ui import UiConfig

class ExportedEngine:

    def __init__(self, *, item, thumbnail, play_data, watch_data, preview_data, tutorial_data, rom=None, configuration):
        self.item = item
        self.thumbnail = thumbnail
        self.play_data = play_data
        self.watch_data = watch_data
        self.preview_data = preview_data
        self.tutorial_data = tutorial_data
        self.rom = rom
        self.configuration = configuration

    def write_to_dir(self, path):
        path = Path(path)
        path.mkdir(parents=True, exist_ok=True)
        (path / 'item.json').write_text(json.dumps(self.item, ensure_ascii=False), encoding='utf-8')
        (path / 'thumbnail').write_bytes(self.thumbnail)
        (path / 'playData').write_bytes(self.play_data)
        (path / 'watchData').write_bytes(self.watch_data)
        (path / 'previewData').write_bytes(self.preview_data)
        (path / 'tutorialData').write_bytes(self.tutorial_data)
        if self.rom is not None:
            (path / 'rom').write_bytes(self.rom)
        (path / 'configuration').write_bytes(self.configuration)

class Engine:
    version: Literal[13] = 13

    def __init__(self, *, name, title=None, subtitle='Sonolus.py Engine', author='Unknown', skin=None, background=None, effect=None, particle=None, thumbnail=None, data, tags=None, description=None, meta=None):
        self.name = name
        self.title = as_localization_text(title or name)
        self.subtitle = as_localization_text(subtitle)
        self.author = as_localization_text(author)
        self.skin = skin
        self.background = background
        self.effect = effect
        self.particle = particle
        self.thumbnail = thumbnail
        self.data = data
        self.tags = tags or []
        self.description = as_localization_text(description) if description is not None else None
        self.meta = meta

    def export(self):
        from sonolus.build.engine import package_engine
        from sonolus.build.project import BLANK_PNG
        item = {'version': self.version, 'title': self.title, 'subtitle': self.subtitle, 'author': self.author, 'tags': [tag.as_dict() for tag in self.tags], 'skin': self.skin, 'background': self.background, 'effect': self.effect, 'particle': self.particle}
        packaged = package_engine(self.data)
        if self.description is not None:
            item['description'] = self.description
        if self.meta is not None:
            item['meta'] = self.meta
        return ExportedEngine(item=item, thumbnail=load_asset(self.thumbnail) if self.thumbnail is not None else BLANK_PNG, play_data=packaged.play_data, watch_data=packaged.watch_data, preview_data=packaged.preview_data, tutorial_data=packaged.tutorial_data, rom=packaged.rom, configuration=packaged.configuration)

def default_callback():
    return 0.0

def check_skin(skin):
    if not hasattr(skin, '_sprites_'):
        raise ValueError(f'Invalid skin: {skin}. Missing an @skin decorator?')

def check_effects(effects):
    if not hasattr(effects, '_effects_'):
        raise ValueError(f'Invalid effects: {effects}. Missing an @effects decorator?')

def check_particles(particles):
    if not hasattr(particles, '_particles_'):
        raise ValueError(f'Invalid particles: {particles}. Missing an @particles decorator?')

def check_buckets(buckets):
    if not hasattr(buckets, '_buckets_'):
        raise ValueError(f'Invalid buckets: {buckets}. Missing an @buckets decorator?')

def check_instructions(instructions):
    if not hasattr(instructions, '_instructions_'):
        raise ValueError(f'Invalid instructions: {instructions}. Missing an @instructions decorator?')

def check_instruction_icons(instruction_icons):
    if not hasattr(instruction_icons, '_instruction_icons_'):
        raise ValueError(f'Invalid instruction icons: {instruction_icons}. Missing an @instruction_icons decorator?')

class PlayMode:

    def __init__(self, *, archetypes=None, skin=EmptySkin, effects=EmptyEffects, particles=EmptyParticles, buckets=EmptyBuckets):
        self.archetypes = archetypes or []
        self.skin = skin
        self.effects = effects
        self.particles = particles
        self.buckets = buckets
        for archetype in self.archetypes:
            if not issubclass(archetype, PlayArchetype):
                raise ValueError(f'archetype {archetype} is not a PlayArchetype')
        check_skin(skin)
        check_effects(effects)
        check_particles(particles)
        check_buckets(buckets)

class WatchMode:

    def __init__(self, *, archetypes=None, skin=EmptySkin, effects=EmptyEffects, particles=EmptyParticles, buckets=EmptyBuckets, update_spawn):
        self.archetypes = archetypes or []
        self.skin = skin
        self.effects = effects
        self.particles = particles
        self.buckets = buckets
        self.update_spawn = update_spawn
        for archetype in self.archetypes:
            if not issubclass(archetype, WatchArchetype):
                raise ValueError(f'archetype {archetype} is not a WatchArchetype')
        check_skin(skin)
        check_effects(effects)
        check_particles(particles)
        check_buckets(buckets)

class PreviewMode:

    def __init__(self, *, archetypes=None, skin=EmptySkin):
        self.archetypes = archetypes or []
        self.skin = skin
        for archetype in self.archetypes:
            if not issubclass(archetype, PreviewArchetype):
                raise ValueError(f'archetype {archetype} is not a PreviewArchetype')
        check_skin(skin)

class TutorialMode:

    def __init__(self, *, skin=EmptySkin, effects=EmptyEffects, particles=EmptyParticles, instructions=EmptyInstructions, instruction_icons=EmptyInstructionIcons, preprocess, navigate, update):
        self.skin = skin
        self.effects = effects
        self.particles = particles
        self.instructions = instructions
        self.instruction_icons = instruction_icons
        self.preprocess = preprocess
        self.navigate = navigate
        self.update = update
        check_skin(skin)
        check_effects(effects)
        check_particles(particles)
        check_instructions(instructions)
        check_instruction_icons(instruction_icons)

def empty_play_mode():
    return PlayMode()

def empty_watch_mode():
    return WatchMode(update_spawn=default_callback)

def empty_preview_mode():
    return PreviewMode()

def empty_tutorial_mode():
    return TutorialMode(preprocess=default_callback, navigate=default_callback, update=default_callback)

class EngineData:

    def __init__(self, *, ui=None, options=EmptyOptions, play=None, watch=None, preview=None, tutorial=None):
        self.ui = ui or UiConfig()
        self.options = options
        self.play = play or empty_play_mode()
        self.watch = watch or empty_watch_mode()
        self.preview = preview or empty_preview_mode()
        self.tutorial = tutorial or empty_tutorial_mode()
