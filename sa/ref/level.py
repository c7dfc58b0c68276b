import gzip
import json
from collections.abc import Iterator
from os import PathLike
from pathlib import Path
from typing import Any, NamedTuple, NotRequired, TypedDict
from sonolus.build.collection import Asset, load_asset
from sonolus.script.archetype import PlayArchetype, StandardArchetypeName, StandardImport
from sonolus.script.metadata import AnyText, Tag, as_localization_text

class ExportedLevel:

    def __init__(self, *, item, cover, bgm, preview, data):
        self.item = item
        self.cover = cover
        self.bgm = bgm
        self.preview = preview
        self.data = data

    def write_to_dir(self, path):
        path = Path(path)
        path.mkdir(parents=True, exist_ok=True)
        (path / 'item.json').write_text(json.dumps(self.item, ensure_ascii=False), encoding='utf-8')
        (path / 'cover').write_bytes(self.cover)
        (path / 'bgm').write_bytes(self.bgm)
        if self.preview is not None:
            (path / 'preview').write_bytes(self.preview)
        (path / 'data').write_bytes(self.data)

class Level:
    version = 1

    def __init__(self, *, name, title=None, rating=0, artists='Unknown', author='Unknown', cover=None, bgm=None, preview=None, data, use_skin=None, use_background=None, use_effect=None, use_particle=None, tags=None, description=None, meta=None):
        self.name = name
        self.title = as_localization_text(title or name)
        self.rating = rating
        self.artists = as_localization_text(artists)
        self.author = as_localization_text(author)
        self.cover = cover
        self.bgm = bgm
        self.preview = preview
        self.data = data
        self.use_skin = use_skin
        self.use_background = use_background
        self.use_effect = use_effect
        self.use_particle = use_particle
        self.tags = tags or []
        self.description = as_localization_text(description) if description is not None else None
        self.meta = meta

    def export(self, engine_name):
        from sonolus.build.level import package_level_data
        from sonolus.build.project import BLANK_AUDIO, BLANK_PNG
        item = {'version': self.version, 'rating': self.rating, 'engine': engine_name, 'useSkin': {'useDefault': True} if self.use_skin is None else {'useDefault': False, 'item': self.use_skin}, 'useBackground': {'useDefault': True} if self.use_background is None else {'useDefault': False, 'item': self.use_background}, 'useEffect': {'useDefault': True} if self.use_effect is None else {'useDefault': False, 'item': self.use_effect}, 'useParticle': {'useDefault': True} if self.use_particle is None else {'useDefault': False, 'item': self.use_particle}, 'title': self.title, 'artists': self.artists, 'author': self.author, 'tags': [tag.as_dict() for tag in self.tags]}
        if self.description is not None:
            item['description'] = self.description
        if self.meta is not None:
            item['meta'] = self.meta
        return ExportedLevel(item=item, cover=load_asset(self.cover) if self.cover is not None else BLANK_PNG, bgm=load_asset(self.bgm) if self.bgm is not None else BLANK_AUDIO, preview=load_asset(self.preview) if self.preview is not None else None, data=package_level_data(self.data))

def flatten_entities(entities):
    if isinstance(entities, list):
        for entity in entities:
            yield from flatten_entities(entity)
    else:
        yield entities

class LevelData:
    bgm_offset: float
    entities: list[PlayArchetype]

    def __init__(self, bgm_offset, entities):
        self.bgm_offset = bgm_offset
        self.entities = [*flatten_entities(entities)]

class BpmChange(PlayArchetype):
    name = StandardArchetypeName.BPM_CHANGE
    beat: StandardImport.BEAT
    bpm: StandardImport.BPM

class TimescaleChange(PlayArchetype):
    name = StandardArchetypeName.TIMESCALE_CHANGE
    beat: StandardImport.BEAT
    timescale: StandardImport.TIMESCALE

class ExternalLevelDataDict(TypedDict):
    bgmOffset: float
    entities: list[ExternalEntityDataDict]

class ExternalEntityDataDict(TypedDict):
    name: NotRequired[str]
    archetype: str
    data: NotRequired[list[ExternalEntityDataValueDict]]

class ExternalEntityDataValueDict(TypedDict):
    name: str
    value: NotRequired[int | float]
    ref: NotRequired[str]

class ExternalLevelData(NamedTuple):
    bgm_offset: float
    entities: list[ExternalEntityData]

class ExternalEntityData(NamedTuple):
    archetype: str
    data: dict[str, Any]

def parse_external_level_data(raw_data, /):
    if isinstance(raw_data, bytes):
        raw_data = gzip.decompress(raw_data).decode('utf-8')
    if isinstance(raw_data, str):
        raw_data = json.loads(raw_data)
    bgm_offset = raw_data['bgmOffset']
    raw_entities = raw_data['entities']
    entity_name_to_index = {e['name']: i for i, e in enumerate(raw_entities) if 'name' in e}
    entities = []
    for raw_entity in raw_entities:
        archetype = raw_entity['archetype']
        data = {}
        for entry in raw_entity.get('data', []):
            if 'value' in entry:
                data[entry['name']] = entry['value']
            elif 'ref' in entry:
                data[entry['name']] = entity_name_to_index.get(entry['ref'], 0)
        entities.append(ExternalEntityData(archetype=archetype, data=data))
    return ExternalLevelData(bgm_offset=bgm_offset, entities=entities)
