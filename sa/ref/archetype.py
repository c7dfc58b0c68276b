import inspect
from abc import ABCMeta, abstractmethod
from collections.abc import Callable, Sequence
from dataclasses import dataclass
from enum import Enum, IntEnum, StrEnum
from types import FunctionType
from typing import Annotated, Any, ClassVar, NamedTuple, Self, TypedDict, get_origin
from sonolus.backend.ir import IRConst, IRExpr, IRInstr, IRPureInstr
from sonolus.backend.mode import Mode
from sonolus.backend.ops import Op
from sonolus.script.bucket import Bucket, Judgment
from sonolus.script.debug import runtime_checks_enabled, static_error
from sonolus.script.internal.callbacks import PLAY_CALLBACKS, PREVIEW_CALLBACKS, WATCH_ARCHETYPE_CALLBACKS, CallbackInfo
from sonolus.script.internal.context import ctx
from sonolus.script.internal.descriptor import SonolusDescriptor
from sonolus.script.internal.generic import validate_concrete_type
from sonolus.script.internal.impl import validate_value
from sonolus.script.internal.introspection import get_field_specifiers
from sonolus.script.internal.meta_fn import meta_fn
from sonolus.script.internal.native import native_call, native_switch_membership
from sonolus.script.internal.value import BackingValue, DataValue, Value
from sonolus.script.internal.visitor import compile_and_call
from sonolus.script.num import Num
from sonolus.script.pointer import _backing_deref, _deref
from sonolus.script.record import Record
from sonolus.script.timing import TimescaleEase
from sonolus.script.values import zeros
_ENTITY_MEMORY_SIZE = 64
_ENTITY_DATA_SIZE = 32
_ENTITY_SHARED_MEMORY_SIZE = 32

class _StorageType(Enum):
    IMPORTED = 'imported'
    EXPORTED = 'exported'
    MEMORY = 'memory'
    SHARED = 'shared_memory'

@dataclass
class _ArchetypeFieldInfo:
    name: str | None
    storage: _StorageType
    default: Value | None = None

class _ExportBackingValue(BackingValue):

    def __init__(self, index):
        self.index = index

    def read(self):
        raise NotImplementedError('Exported fields are write-only')

    def write(self, value):
        ctx().add_statements(IRInstr(Op.ExportValue, [self.index, value]))

class _ArchetypeField(SonolusDescriptor):

    def __init__(self, name, data_name, storage, offset, type_, default=None):
        self.name = name
        self.data_name = data_name
        self.storage = storage
        self.offset = offset
        self.type = type_
        self.default = default

    def __get__(self, instance, owner):
        if instance is None:
            return self
        result = None
        match self.storage:
            case _StorageType.IMPORTED:
                match instance._data_:
                    case _ArchetypeSelfData():
                        result = _deref(ctx().blocks.EntityData, self.offset, self.type)
                    case _ArchetypeReferenceData(index=index):
                        result = _deref(ctx().blocks.EntityDataArray, Num._accept_(self.offset) + index * _ENTITY_DATA_SIZE, self.type)
                    case _ArchetypeLevelData(values=values):
                        result = values[self.name]
            case _StorageType.EXPORTED:
                match instance._data_:
                    case _ArchetypeSelfData():

                        def backing_source(i):
                            return _ExportBackingValue(IRPureInstr(Op.Add, [i, IRConst(self.offset)]))
                        result = _backing_deref(backing_source, self.type)
                    case _ArchetypeReferenceData():
                        raise RuntimeError('Exported fields of other entities are not accessible')
                    case _ArchetypeLevelData():
                        raise RuntimeError('Exported fields are not available in level data')
            case _StorageType.MEMORY:
                match instance._data_:
                    case _ArchetypeSelfData():
                        result = _deref(ctx().blocks.EntityMemory, self.offset, self.type)
                    case _ArchetypeReferenceData():
                        raise RuntimeError('Entity memory of other entities is not accessible')
                    case _ArchetypeLevelData():
                        raise RuntimeError('Entity memory is not available in level data')
            case _StorageType.SHARED:
                match instance._data_:
                    case _ArchetypeSelfData():
                        result = _deref(ctx().blocks.EntitySharedMemory, self.offset, self.type)
                    case _ArchetypeReferenceData(index=index):
                        result = _deref(ctx().blocks.EntitySharedMemoryArray, Num._accept_(self.offset) + index * _ENTITY_SHARED_MEMORY_SIZE, self.type)
                    case _ArchetypeLevelData():
                        raise RuntimeError('Entity shared memory is not available in level data')
        if result is None:
            raise RuntimeError('Invalid storage type')
        if ctx():
            return result._get_readonly_()
        else:
            return result._as_py_()

    def __set__(self, instance, value):
        if instance is None:
            raise RuntimeError('Cannot set field on class')
        if not self.type._accepts_(value):
            raise TypeError(f'Expected {self.type}, got {type(value)}')
        target = None
        match self.storage:
            case _StorageType.IMPORTED:
                match instance._data_:
                    case _ArchetypeSelfData():
                        target = _deref(ctx().blocks.EntityData, self.offset, self.type)
                    case _ArchetypeReferenceData(index=index):
                        target = _deref(ctx().blocks.EntityDataArray, Num._accept_(self.offset) + index * _ENTITY_DATA_SIZE, self.type)
                    case _ArchetypeLevelData(values=values):
                        target = values[self.name]
            case _StorageType.EXPORTED:
                match instance._data_:
                    case _ArchetypeSelfData():
                        if not isinstance(value, self.type):
                            raise TypeError(f'Expected {self.type}, got {type(value)}')
                        for k, v in value._to_flat_dict_(self.data_name).items():
                            index = instance._exported_keys_[k]
                            ctx().add_statements(IRInstr(Op.ExportValue, [IRConst(index), Num(v).ir()]))
                        return
                    case _ArchetypeReferenceData():
                        raise RuntimeError('Exported fields of other entities are not accessible')
                    case _ArchetypeLevelData():
                        raise RuntimeError('Exported fields are not available in level data')
            case _StorageType.MEMORY:
                match instance._data_:
                    case _ArchetypeSelfData():
                        target = _deref(ctx().blocks.EntityMemory, self.offset, self.type)
                    case _ArchetypeReferenceData():
                        raise RuntimeError('Entity memory of other entities is not accessible')
                    case _ArchetypeLevelData():
                        raise RuntimeError('Entity memory is not available in level data')
            case _StorageType.SHARED:
                match instance._data_:
                    case _ArchetypeSelfData():
                        target = _deref(ctx().blocks.EntitySharedMemory, self.offset, self.type)
                    case _ArchetypeReferenceData(index=index):
                        target = _deref(ctx().blocks.EntitySharedMemoryArray, Num._accept_(self.offset) + index * _ENTITY_SHARED_MEMORY_SIZE, self.type)
                    case _ArchetypeLevelData():
                        raise RuntimeError('Entity shared memory is not available in level data')
        if target is None:
            raise RuntimeError('Invalid storage type')
        value = self.type._accept_(value)
        if self.type._is_value_type_():
            target._set_(value)
        else:
            target._copy_from_(value)

class _NameDescriptor(SonolusDescriptor):

    def __init__(self, name):
        self.name = name

    def __get__(self, instance, owner):
        if instance is None:
            return self.name
        elif ctx():
            raise RuntimeError('Cannot access archetype name in from self in a callback, use ArchetypeClass.name')
        else:
            return self.name

    def __set__(self, instance, value):
        raise AttributeError('Archetype name is read-only and cannot be set')

class _IsScoredDescriptor(SonolusDescriptor):

    def __init__(self, value):
        self.value = value

    def __get__(self, instance, owner):
        if instance is None:
            return self.value
        elif ctx():
            return ctx().mode_state.is_scored_by_archetype_id.get_unchecked(instance.id)
        else:
            return self.value

    def __set__(self, instance, value):
        raise AttributeError('is_scored is read-only and cannot be set')

class _IdDescriptor(SonolusDescriptor):

    def __get__(self, instance, owner):
        if not ctx():
            raise RuntimeError('Archetype id is only available during compilation')
        if instance is None:
            result = ctx().mode_state.archetypes.get(owner)
            if result is None or owner in ctx().mode_state.compile_time_only_archetypes:
                raise RuntimeError('Archetype is not registered')
            return result
        else:
            return instance._info.archetype_id

    def __set__(self, instance, value):
        raise AttributeError('Archetype id is read-only and cannot be set')

class _KeyDescriptor(SonolusDescriptor):

    def __init__(self, value):
        self.value = value

    def __get__(self, instance, owner):
        if instance is not None and ctx():
            return ctx().mode_state.keys_by_archetype_id.get_unchecked(instance.id)
        else:
            return self.value

    def __set__(self, instance, value):
        raise AttributeError('Archetype key is read-only and cannot be set')

class _ArchetypeLifeDescriptor(SonolusDescriptor):

    def __get__(self, instance, owner):
        if not ctx():
            raise RuntimeError('Archetype life is only available during compilation')
        if ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
            raise RuntimeError(f"Archetype life is not available in mode '{ctx().mode_state.mode.value}'")
        if instance is not None:
            return _deref(ctx().blocks.ArchetypeLife, instance.id * LifeInfo._size_(), LifeInfo)
        else:
            return _deref(ctx().blocks.ArchetypeLife, owner.id * LifeInfo._size_(), LifeInfo)

    def __set__(self, instance, value):
        raise AttributeError('Archetype life is read-only and cannot be set')

class _EntityLifeDescriptor(SonolusDescriptor):

    def __get__(self, instance, owner):
        if not ctx():
            raise RuntimeError('Entity life is only available during compilation')
        if ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
            raise RuntimeError(f"Entity life is not available in mode '{ctx().mode_state.mode.value}'")
        if instance is None:
            raise RuntimeError('Entity life can only be accessed from an instance')
        match instance._data_:
            case _ArchetypeSelfData():
                return _deref(ctx().blocks.EntityLife, 0, LifeInfo)
            case _ArchetypeReferenceData(index=index):
                return _deref(ctx().blocks.EntityLifeArray, index * LifeInfo._size_(), LifeInfo)
            case _:
                raise RuntimeError('Entity life is not available in level data')

    def __set__(self, instance, value):
        raise AttributeError('Entity life is read-only and cannot be set')

class _ArchetypeScoreMultiplierMetaDescriptor(SonolusDescriptor):

    def __get__(self, instance, owner):
        if instance is None:
            return self
        if not ctx():
            raise RuntimeError('Archetype score multiplier is only available during compilation')
        if ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
            raise RuntimeError(f"Archetype score multiplier is not available in mode '{ctx().mode_state.mode.value}'")
        return _deref(ctx().blocks.ArchetypeScore, instance.id, Num)

    def __set__(self, instance, value):
        if not ctx():
            raise RuntimeError('Archetype score multiplier is only available during compilation')
        if ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
            raise RuntimeError(f"Archetype score multiplier is not available in mode '{ctx().mode_state.mode.value}'")
        target = _deref(ctx().blocks.ArchetypeScore, instance.id, Num)
        target._set_(Num._accept_(value))

class _ArchetypeScoreMultiplierDescriptor(SonolusDescriptor):

    def __get__(self, instance, owner):
        if not ctx():
            raise RuntimeError('Archetype score multiplier is only available during compilation')
        if ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
            raise RuntimeError(f"Archetype score multiplier is not available in mode '{ctx().mode_state.mode.value}'")
        if instance is not None:
            return _deref(ctx().blocks.ArchetypeScore, instance.id, Num)
        else:
            return _deref(ctx().blocks.ArchetypeScore, owner.id, Num)

    def __set__(self, instance, value):
        if instance is None:
            raise RuntimeError('Cannot set archetype score multiplier on None instance')
        if not ctx():
            raise RuntimeError('Archetype score multiplier is only available during compilation')
        if ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
            raise RuntimeError(f"Archetype score multiplier is not available in mode '{ctx().mode_state.mode.value}'")
        target = _deref(ctx().blocks.ArchetypeScore, instance.id, Num)
        target._set_(Num._accept_(value))

class _EntityScoreMultiplierMetaDescriptor(SonolusDescriptor):

    def __get__(self, instance, owner):
        if instance is None:
            return self
        raise RuntimeError('Entity score multiplier can only be accessed from an instance')

    def __set__(self, instance, value):
        raise RuntimeError('Entity score multiplier can only be set on an instance, not on the class')

class _EntityScoreMultiplierDescriptor(SonolusDescriptor):

    def __get__(self, instance, owner):
        if not ctx():
            raise RuntimeError('Entity score multiplier is only available during compilation')
        if ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
            raise RuntimeError(f"Entity score multiplier is not available in mode '{ctx().mode_state.mode.value}'")
        if instance is None:
            raise RuntimeError('Entity score multiplier can only be accessed from an instance')
        match instance._data_:
            case _ArchetypeSelfData():
                return _deref(ctx().blocks.EntityScore, 0, Num)
            case _ArchetypeReferenceData(index=index):
                return _deref(ctx().blocks.EntityScoreArray, index, Num)
            case _:
                raise RuntimeError('Entity score multiplier is not available in level data')

    def __set__(self, instance, value):
        if instance is None:
            raise RuntimeError('Entity score multiplier can only be set on an instance')
        if not ctx():
            raise RuntimeError('Entity score multiplier is only available during compilation')
        if ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
            raise RuntimeError(f"Entity score multiplier is not available in mode '{ctx().mode_state.mode.value}'")
        target = None
        match instance._data_:
            case _ArchetypeSelfData():
                target = _deref(ctx().blocks.EntityScore, 0, Num)
            case _ArchetypeReferenceData(index=index):
                target = _deref(ctx().blocks.EntityScoreArray, index, Num)
            case _:
                raise RuntimeError('Entity score multiplier is not available in level data')
        target._set_(Num._accept_(value))

def imported(*, name=None, default=None):
    validated_default = None
    if default is not None:
        validated_default = validate_value(default)
    return _ArchetypeFieldInfo(name, _StorageType.IMPORTED, validated_default)

def entity_data():
    return _ArchetypeFieldInfo(None, _StorageType.IMPORTED)

def exported(*, name=None):
    return _ArchetypeFieldInfo(name, _StorageType.EXPORTED)

def entity_memory():
    return _ArchetypeFieldInfo(None, _StorageType.MEMORY)

def shared_memory():
    return _ArchetypeFieldInfo(None, _StorageType.SHARED)
_annotation_defaults: dict[Callable, _ArchetypeFieldInfo] = {imported: imported(), exported: exported(), entity_memory: entity_memory(), shared_memory: shared_memory()}

def callback(*, order=0):

    def decorator(func):
        func._callback_order_ = order
        return func
    return decorator

class _ArchetypeSelfData:
    pass

class _ArchetypeReferenceData:
    index: int

    def __init__(self, index):
        self.index = index

class _ArchetypeLevelData:
    values: dict[str, Value]

    def __init__(self, values):
        self.values = values

class ArchetypeSchema(TypedDict):
    name: str
    fields: list[str]

class ImportInfo(NamedTuple):
    index: int
    default: int | float | None
RESERVED_ARCHETYPE_FIELD_NAMES = {'id', 'key', 'name', 'life', 'archetype_life', 'entity_life', 'archetype_score_multiplier', 'entity_score_multiplier', 'is_scored', '_key_', '_is_scored_', '_derived_base_', '_is_derived_', '_default_callbacks_', '_callbacks_', '_field_init_done', '_is_concrete_archetype_', '_abc_impl'}
ALLOWED_RESERVED_ARCHETYPE_FIELD_NAME_OVERRIDES = {'key', 'name', 'is_scored'}

class _BaseArchetypeMeta(ABCMeta):
    archetype_score_multiplier = _ArchetypeScoreMultiplierMetaDescriptor()
    entity_score_multiplier = _EntityScoreMultiplierMetaDescriptor()

    def __new__(mcs, name, bases, namespace, **kwargs):
        module = namespace.get('__module__', '')
        is_derived = namespace.get('_is_derived_', False)
        if module != 'sonolus.script.archetype' and (not is_derived):
            for field_name in namespace:
                if field_name in RESERVED_ARCHETYPE_FIELD_NAMES and field_name not in ALLOWED_RESERVED_ARCHETYPE_FIELD_NAME_OVERRIDES:
                    raise TypeError(f"Field '{field_name}' in {name} overrides a reserved archetype field name.")
        return super().__new__(mcs, name, bases, namespace, **kwargs)

class _BaseArchetype(metaclass=_BaseArchetypeMeta):
    _is_comptime_value_ = True
    _removable_prefix: ClassVar[str] = ''
    _supported_callbacks_: ClassVar[dict[str, CallbackInfo]]
    _default_callbacks_: ClassVar[set[Callable]]
    _imported_fields_: ClassVar[dict[str, _ArchetypeField]]
    _exported_fields_: ClassVar[dict[str, _ArchetypeField]]
    _memory_fields_: ClassVar[dict[str, _ArchetypeField]]
    _shared_memory_fields_: ClassVar[dict[str, _ArchetypeField]]
    _imported_keys_: ClassVar[dict[str, ImportInfo]]
    _exported_keys_: ClassVar[dict[str, int]]
    _callbacks_: ClassVar[dict[str, Callable]]
    _data_constructor_signature_: ClassVar[inspect.Signature]
    _spawn_signature_: ClassVar[inspect.Signature]
    _data_: _ArchetypeData
    archetype_score_multiplier = _ArchetypeScoreMultiplierDescriptor()
    entity_score_multiplier = _EntityScoreMultiplierDescriptor()
    id: int = 0
    key: int | float = -1
    name: ClassVar[str | None] = None
    is_scored: ClassVar[bool] = False

    def __init__(self, *args, **kwargs):
        self._init_fields()
        if ctx():
            raise RuntimeError('The Archetype constructor is only for defining level data')
        bound = self._data_constructor_signature_.bind_partial(*args, **kwargs)
        bound.apply_defaults()
        values = {field.name: field.type._accept_(bound.arguments.get(field.name) or zeros(field.type))._get_() for field in self._imported_fields_.values()}
        self._data_ = _ArchetypeLevelData(values=values)

    @classmethod
    def _new(cls):
        cls._init_fields()
        return object.__new__(cls)

    @classmethod
    def _for_compilation(cls):
        cls._init_fields()
        result = cls._new()
        result._data_ = _ArchetypeSelfData()
        return result

    @classmethod
    @meta_fn
    def _compile_time_id(cls):
        if not ctx():
            raise RuntimeError('Archetype id is only available during compilation')
        result = ctx().mode_state.archetypes.get(cls)
        if result is None:
            raise RuntimeError('Archetype is not registered')
        return result

    @classmethod
    @meta_fn
    def at(cls, index, check=True):
        if not ctx():
            raise RuntimeError('Archetype.at is only available during compilation')
        compile_and_call(cls._check_is_at, index, check=check)
        result = cls._new()
        result._data_ = _ArchetypeReferenceData(index=Num._accept_(index))
        return result

    @classmethod
    def is_at(cls, index, strict=False):
        if strict:
            return index >= 0 and cls._compile_time_id() == entity_info_at(index).archetype_id
        else:
            return index >= 0 and cls._matches_archetype_id(entity_info_at(index).archetype_id)

    @classmethod
    def _check_is_at(cls, index, check):
        if not check or not runtime_checks_enabled():
            return
        assert cls._matches_archetype_id(entity_info_at(index).archetype_id), 'Entity at index is not of the expected archetype or index is invalid'

    @classmethod
    @meta_fn
    def _matches_archetype_id(cls, archetype_id):
        if not ctx():
            raise RuntimeError('Archetype._matches_archetype_id is only available during compilation')
        mode_state = ctx().mode_state
        if cls not in mode_state.archetypes:
            raise RuntimeError('Archetype is not registered')
        subclass_ids = mode_state.subclass_ids_cache.get(cls)
        if subclass_ids is None:
            subclass_ids = [id_ for archetype, id_ in mode_state.archetypes.items() if archetype not in mode_state.compile_time_only_archetypes and issubclass(archetype, cls)]
            mode_state.subclass_ids_cache[cls] = subclass_ids
        return native_switch_membership(archetype_id, subclass_ids)

    @staticmethod
    @meta_fn
    def _get_mro_id_array(archetype_id):
        if not ctx():
            raise RuntimeError('Archetype._get_mro_id_array is only available during compilation')
        return ctx().get_archetype_mro_id_array(archetype_id)

    @classmethod
    @meta_fn
    def spawn(cls, **kwargs):
        cls._init_fields()
        if not ctx():
            raise RuntimeError('Spawn is only allowed within a callback')
        archetype_id = cls.id
        bound = cls._spawn_signature_.bind_partial(**kwargs)
        bound.apply_defaults()
        data = []
        for field in cls._memory_fields_.values():
            data.extend(field.type._accept_(bound.arguments[field.name] if field.name in bound.arguments else zeros(field.type))._to_list_())
        native_call(Op.Spawn, archetype_id, *(Num(x) for x in data))

    @classmethod
    def schema(cls):
        cls._init_fields()
        return {'name': cls.name or 'unnamed', 'fields': list(cls._imported_fields_)}

    def _level_data_entries(self, level_refs=None):
        self._init_fields()
        if not isinstance(self._data_, _ArchetypeLevelData):
            raise RuntimeError('Entity is not level data')
        entries = []
        for name, value in self._data_.values.items():
            field_info = self._imported_fields_.get(name)
            for k, v in value._to_flat_dict_(field_info.data_name, level_refs).items():
                if isinstance(v, str):
                    entries.append({'name': k, 'ref': v})
                else:
                    entries.append({'name': k, 'value': v})
        return entries

    def __init_subclass__(cls, **kwargs):
        if cls.__module__ == _BaseArchetype.__module__ and (not getattr(cls, '_is_derived_', False)):
            if cls._supported_callbacks_ is None:
                raise TypeError('Cannot directly subclass Archetype, use the Archetype subclass for your mode')
            cls._default_callbacks_ = {getattr(cls, cb_info.py_name) for cb_info in cls._supported_callbacks_.values()}
            return
        if cls.name is None or cls.name in {getattr(mro_entry, 'name', None) for mro_entry in cls.mro()[1:]}:
            cls.name = cls.__name__.removeprefix(cls._removable_prefix)
        cls._callbacks_ = {}
        for name in cls._supported_callbacks_:
            for mro_entry in cls.mro():
                if name in mro_entry.__dict__:
                    cb = mro_entry.__dict__[name]
                    if cb not in cls._default_callbacks_:
                        cls._callbacks_[name] = cb
                        break
        cls._field_init_done = False
        cls._is_concrete_archetype_ = True
        cls.id = _IdDescriptor()
        cls._key_ = cls.key
        cls.key = _KeyDescriptor(cls.key)
        cls.name = _NameDescriptor(cls.name)
        cls._is_scored_ = cls.is_scored
        cls.is_scored = _IsScoredDescriptor(cls.is_scored)
        cls.life = _ArchetypeLifeDescriptor()
        cls.archetype_life = _ArchetypeLifeDescriptor()
        cls.entity_life = _EntityLifeDescriptor()

    @classmethod
    def _init_fields(cls):
        if cls._field_init_done:
            return
        for mro_entry in cls.mro()[1:]:
            if hasattr(mro_entry, '_field_init_done'):
                mro_entry._init_fields()
        if sum((issubclass(base, _BaseArchetype) for base in cls.__bases__)) > 1:
            raise TypeError('Multiple inheritance of Archetypes is not supported')
        mro_from_archetype_parents = set(type('Dummy', tuple((base for base in cls.__bases__ if issubclass(base, _BaseArchetype))), {}).mro())
        mro_excluding_archetype_parents = [entry for entry in cls.mro() if entry not in mro_from_archetype_parents]
        try:
            field_specifiers = get_field_specifiers(cls, skip=RESERVED_ARCHETYPE_FIELD_NAMES, included_classes=mro_excluding_archetype_parents).items()
        except Exception as e:
            raise TypeError(f'Error while processing fields of {cls.__name__}: {e}') from e
        if not hasattr(cls, '_imported_fields_'):
            cls._imported_fields_ = {}
        else:
            cls._imported_fields_ = {**cls._imported_fields_}
        if not hasattr(cls, '_exported_fields_'):
            cls._exported_fields_ = {}
        else:
            cls._exported_fields_ = {**cls._exported_fields_}
        if not hasattr(cls, '_memory_fields_'):
            cls._memory_fields_ = {}
        else:
            cls._memory_fields_ = {**cls._memory_fields_}
        if not hasattr(cls, '_shared_memory_fields_'):
            cls._shared_memory_fields_ = {}
        else:
            cls._shared_memory_fields_ = {**cls._shared_memory_fields_}
        imported_offset = sum((field.type._size_() for field in cls._imported_fields_.values()))
        exported_offset = sum((field.type._size_() for field in cls._exported_fields_.values()))
        memory_offset = sum((field.type._size_() for field in cls._memory_fields_.values()))
        shared_memory_offset = sum((field.type._size_() for field in cls._shared_memory_fields_.values()))
        for name, value in field_specifiers:
            if value is ClassVar or get_origin(value) is ClassVar:
                continue
            if get_origin(value) is not Annotated:
                raise TypeError('Archetype fields must be annotated using imported, exported, entity_memory, or shared_memory')
            field_info = None
            for metadata in value.__metadata__:
                if isinstance(metadata, FunctionType):
                    metadata = _annotation_defaults.get(metadata, metadata)
                if isinstance(metadata, _ArchetypeFieldInfo):
                    if field_info is not None:
                        if field_info.storage == metadata.storage and field_info.name is None:
                            field_info = metadata
                        elif field_info.storage == metadata.storage and (metadata.name is None or field_info.name == metadata.name):
                            pass
                        else:
                            raise TypeError(f"Unexpected multiple annotations for field '{name}' of {cls.__name__}, expected exactly one of imported, exported, entity_memory, or shared_memory")
                    else:
                        field_info = metadata
            if field_info is None:
                raise TypeError(f"Missing annotation for '{name}' of {cls.__name__}, expected exactly one of imported, exported, entity_memory, or shared_memory")
            if name in cls._imported_fields_ or name in cls._exported_fields_ or name in cls._memory_fields_ or (name in cls._shared_memory_fields_):
                raise ValueError(f"Field '{name}' is already defined in a superclass")
            try:
                field_type = validate_concrete_type(value.__args__[0])
            except Exception as e:
                raise TypeError(f"Error in field '{name}' of {cls.__name__}: {e}") from e
            match field_info.storage:
                case _StorageType.IMPORTED:
                    cls._imported_fields_[name] = _ArchetypeField(name, field_info.name or name, field_info.storage, imported_offset, field_type, field_info.default)
                    imported_offset += field_type._size_()
                    if imported_offset > _ENTITY_DATA_SIZE:
                        raise ValueError('Imported fields exceed entity data size')
                    setattr(cls, name, cls._imported_fields_[name])
                case _StorageType.EXPORTED:
                    cls._exported_fields_[name] = _ArchetypeField(name, field_info.name or name, field_info.storage, exported_offset, field_type)
                    exported_offset += field_type._size_()
                    if exported_offset > _ENTITY_DATA_SIZE:
                        raise ValueError('Exported fields exceed entity data size')
                    setattr(cls, name, cls._exported_fields_[name])
                case _StorageType.MEMORY:
                    cls._memory_fields_[name] = _ArchetypeField(name, field_info.name or name, field_info.storage, memory_offset, field_type)
                    memory_offset += field_type._size_()
                    if memory_offset > _ENTITY_MEMORY_SIZE:
                        raise ValueError('Memory fields exceed entity memory size')
                    setattr(cls, name, cls._memory_fields_[name])
                case _StorageType.SHARED:
                    cls._shared_memory_fields_[name] = _ArchetypeField(name, field_info.name or name, field_info.storage, shared_memory_offset, field_type)
                    shared_memory_offset += field_type._size_()
                    if shared_memory_offset > _ENTITY_SHARED_MEMORY_SIZE:
                        raise ValueError('Shared memory fields exceed entity shared memory size')
                    setattr(cls, name, cls._shared_memory_fields_[name])
        imported_keys = {}
        index = 0
        for field in cls._imported_fields_.values():
            keys = list(field.type._flat_keys_(field.data_name))
            if field.default is not None:
                defaults = field.default._to_list_()
                for key, default_value in zip(keys, defaults, strict=True):
                    imported_keys[key] = ImportInfo(index=index, default=default_value)
                    index += 1
            else:
                for key in keys:
                    imported_keys[key] = ImportInfo(index=index, default=None)
                    index += 1
        cls._imported_keys_ = imported_keys
        cls._exported_keys_ = {name: i for i, name in enumerate((key for field in cls._exported_fields_.values() for key in field.type._flat_keys_(field.data_name)))}
        cls._data_constructor_signature_ = inspect.Signature([inspect.Parameter(name, inspect.Parameter.POSITIONAL_OR_KEYWORD) for name in cls._imported_fields_])
        cls._spawn_signature_ = inspect.Signature([inspect.Parameter(name, inspect.Parameter.POSITIONAL_OR_KEYWORD) for name in cls._memory_fields_])
        cls._post_init_fields()
        cls._field_init_done = True

    @property
    @abstractmethod
    def index(self):
        raise NotImplementedError

    @meta_fn
    def ref(self):
        match self._data_:
            case _ArchetypeSelfData():
                return EntityRef[type(self)](index=self.index)
            case _ArchetypeReferenceData(index=index):
                return EntityRef[type(self)](index=index)
            case _ArchetypeLevelData():
                result = EntityRef[type(self)](index=-1)
                result._ref_ = self
                return result
            case _:
                raise RuntimeError('Invalid entity data')

    @classmethod
    def _post_init_fields(cls):
        pass

    @classmethod
    def derive(cls, name, is_scored, key=None):
        if getattr(cls, '_is_derived_', False):
            raise RuntimeError('Cannot derive from a derived archetype')
        cls_dict = {'name': name, 'is_scored': is_scored, '_is_derived_': True, '_derived_base_': cls, '__module__': cls.__module__}
        if key is not None:
            if not isinstance(key, (int, float)):
                raise TypeError(f'Key must be an int or float, got {type(key)}')
            cls_dict['key'] = key
        new_cls = type(name, (cls,), cls_dict)
        return new_cls

    @meta_fn
    def _delegate(self, name, default=None):
        name = validate_value(name)._as_py_()
        if hasattr(super(), name):
            fn = getattr(super(), name)
            if ctx():
                return compile_and_call(fn)
            else:
                return fn()
        else:
            return default

class PlayArchetype(_BaseArchetype):
    _removable_prefix: ClassVar[str] = 'Play'
    _supported_callbacks_ = PLAY_CALLBACKS
    is_scored: ClassVar[bool] = False
    life: ClassVar[LifeInfo]
    archetype_life: ClassVar[LifeInfo]
    entity_life: LifeInfo
    archetype_score_multiplier: ClassVar[float]
    entity_score_multiplier: float

    def preprocess(self):
        self._delegate('preprocess')

    def spawn_order(self):
        return self._delegate('spawn_order', default=0.0)

    def should_spawn(self):
        return self._delegate('should_spawn', default=True)

    def initialize(self):
        self._delegate('initialize')

    def update_sequential(self):
        self._delegate('update_sequential')

    def update_parallel(self):
        self._delegate('update_parallel')

    def touch(self):
        self._delegate('touch')

    def terminate(self):
        self._delegate('terminate')

    @property
    @meta_fn
    def despawn(self):
        if not ctx():
            raise RuntimeError('Calling despawn is only allowed within a callback')
        match self._data_:
            case _ArchetypeSelfData():
                return _deref(ctx().blocks.EntityDespawn, 0, Num)
            case _:
                raise RuntimeError('Despawn is only accessible from the entity itself')

    @despawn.setter
    @meta_fn
    def despawn(self, value):
        if not ctx():
            raise RuntimeError('Calling despawn is only allowed within a callback')
        match self._data_:
            case _ArchetypeSelfData():
                _deref(ctx().blocks.EntityDespawn, 0, Num)._set_(value)
            case _:
                raise RuntimeError('Despawn is only accessible from the entity itself')

    @property
    @meta_fn
    def _info(self):
        if not ctx():
            raise RuntimeError('Calling info is only allowed within a callback')
        match self._data_:
            case _ArchetypeSelfData():
                return _deref(ctx().blocks.EntityInfo, 0, PlayEntityInfo)
            case _ArchetypeReferenceData(index=index):
                return _deref(ctx().blocks.EntityInfoArray, index * PlayEntityInfo._size_(), PlayEntityInfo)
            case _:
                raise RuntimeError('Info is only accessible from the entity itself')

    @property
    def index(self):
        return self._info.index

    @property
    def is_waiting(self):
        return self._info.state == 0

    @property
    def is_active(self):
        return self._info.state == 1

    @property
    def is_despawned(self):
        return self._info.state == 2

    @property
    @meta_fn
    def result(self):
        if not ctx():
            raise RuntimeError('Calling result is only allowed within a callback')
        match self._data_:
            case _ArchetypeSelfData():
                return _deref(ctx().blocks.EntityInput, 0, PlayEntityInput)
            case _:
                raise RuntimeError('Result is only accessible from the entity itself')

class WatchArchetype(_BaseArchetype):
    _removable_prefix: ClassVar[str] = 'Watch'
    _supported_callbacks_ = WATCH_ARCHETYPE_CALLBACKS
    is_scored: ClassVar[bool] = False
    life: ClassVar[LifeInfo]
    archetype_life: ClassVar[LifeInfo]
    entity_life: LifeInfo
    archetype_score_multiplier: ClassVar[float]
    entity_score_multiplier: float

    def preprocess(self):
        self._delegate('preprocess')

    def spawn_time(self):
        return self._delegate('spawn_time', default=0.0)

    def despawn_time(self):
        return self._delegate('despawn_time', default=0.0)

    def initialize(self):
        self._delegate('initialize')

    def update_sequential(self):
        self._delegate('update_sequential')

    def update_parallel(self):
        self._delegate('update_parallel')

    def terminate(self):
        self._delegate('terminate')

    @property
    @meta_fn
    def _info(self):
        if not ctx():
            raise RuntimeError('Calling info is only allowed within a callback')
        match self._data_:
            case _ArchetypeSelfData():
                return _deref(ctx().blocks.EntityInfo, 0, WatchEntityInfo)
            case _ArchetypeReferenceData(index=index):
                return _deref(ctx().blocks.EntityInfoArray, index * WatchEntityInfo._size_(), WatchEntityInfo)
            case _:
                raise RuntimeError('Info is only accessible from the entity itself')

    @property
    def index(self):
        return self._info.index

    @property
    def is_active(self):
        return self._info.state == 1

    @property
    @meta_fn
    def result(self):
        if not ctx():
            raise RuntimeError('Calling result is only allowed within a callback')
        match self._data_:
            case _ArchetypeSelfData():
                return _deref(ctx().blocks.EntityInput, 0, WatchEntityInput)
            case _:
                raise RuntimeError('Result is only accessible from the entity itself')

    @classmethod
    def _post_init_fields(cls):
        if cls._exported_fields_:
            raise RuntimeError('Watch archetypes cannot have exported fields')

class PreviewArchetype(_BaseArchetype):
    _removable_prefix: ClassVar[str] = 'Preview'
    _supported_callbacks_ = PREVIEW_CALLBACKS

    def preprocess(self):
        self._delegate('preprocess')

    def render(self):
        self._delegate('render')

    @property
    @meta_fn
    def _info(self):
        if not ctx():
            raise RuntimeError('Calling info is only allowed within a callback')
        match self._data_:
            case _ArchetypeSelfData():
                return _deref(ctx().blocks.EntityInfo, 0, PreviewEntityInfo)
            case _ArchetypeReferenceData(index=index):
                return _deref(ctx().blocks.EntityInfoArray, index * PreviewEntityInfo._size_(), PreviewEntityInfo)
            case _:
                raise RuntimeError('Info is only accessible from the entity itself')

    @property
    def index(self):
        return self._info.index

    @classmethod
    def _post_init_fields(cls):
        if cls._exported_fields_:
            raise RuntimeError('Preview archetypes cannot have exported fields')

@meta_fn
def get_archetype_by_name(name):
    if not ctx():
        raise RuntimeError('Archetypes by name are only available during compilation.')
    name = validate_value(name)
    if not name._is_py_():
        raise TypeError(f"Invalid name: '{name}'")
    name = name._as_py_()
    if not isinstance(name, str):
        raise TypeError(f"Invalid name: '{name}'")
    archetypes_by_name = ctx().mode_state.archetypes_by_name
    if name not in archetypes_by_name:
        raise KeyError(f"Unknown archetype: '{name}'")
    return archetypes_by_name[name]

@meta_fn
def entity_info_at(index):
    if not ctx():
        raise RuntimeError('Calling entity_info_at is only allowed within a callback')
    match ctx().mode_state.mode:
        case Mode.PLAY:
            return _deref(ctx().blocks.EntityInfoArray, index * PlayEntityInfo._size_(), PlayEntityInfo)
        case Mode.WATCH:
            return _deref(ctx().blocks.EntityInfoArray, index * WatchEntityInfo._size_(), WatchEntityInfo)
        case Mode.PREVIEW:
            return _deref(ctx().blocks.EntityInfoArray, index * PreviewEntityInfo._size_(), PreviewEntityInfo)
        case _:
            raise RuntimeError(f"Entity info is not available in mode '{ctx().mode_state.mode}'")

class PlayEntityInfo(Record):
    index: int
    archetype_id: int
    state: int

class WatchEntityInfo(Record):
    index: int
    archetype_id: int
    state: int

class PreviewEntityInfo(Record):
    index: int
    archetype_id: int

class LifeInfo(Record):
    perfect_increment: int
    great_increment: int
    good_increment: int
    miss_increment: int

    def update(self, perfect_increment=None, great_increment=None, good_increment=None, miss_increment=None):
        if perfect_increment is not None:
            self.perfect_increment = perfect_increment
        if great_increment is not None:
            self.great_increment = great_increment
        if good_increment is not None:
            self.good_increment = good_increment
        if miss_increment is not None:
            self.miss_increment = miss_increment
ArchetypeLife = LifeInfo

class HapticType(IntEnum):
    NONE = 0
    LIGHT = 1
    MEDIUM = 2
    HEAVY = 3
    LONG = 4

class PlayEntityInput(Record):
    judgment: Judgment
    accuracy: float
    bucket: Bucket
    bucket_value: float
    haptic: HapticType

class WatchEntityInput(Record):
    target_time: float
    bucket: Bucket
    bucket_value: float

class EntityRef(Record):
    index: int

    @classmethod
    def archetype(cls):
        return cls.type_var_value(A)

    def with_archetype(self, archetype):
        return EntityRef[archetype](index=self.index)

    @meta_fn
    def __eq__(self, other):
        if not ctx() and hasattr(self, '_ref_') and hasattr(other, '_ref_'):
            return self._ref_ is other._ref_
        return super().__eq__(other)

    def __hash__(self):
        if not ctx() and hasattr(self, '_ref_'):
            return hash(id(self._ref_))
        return super().__hash__()

    @meta_fn
    def __bool__(self):
        if ctx():
            static_error('EntityRef cannot be used in a boolean context. Check index directly instead.')
        return True

    @meta_fn
    def get(self, *, check=True):
        assert self.archetype() != Any, 'Cannot get entity of unknown (Any) archetype. Use with_archetype() first or use get_as().'
        if (ref := getattr(self, '_ref_', None)):
            return ref
        return self.archetype().at(self.index, check=check)

    @meta_fn
    def get_as(self, archetype):
        if getattr(self, '_ref_', None):
            raise TypeError('Using get_as in level data is not supported.')
        return self.with_archetype(archetype).get()

    def archetype_matches(self, strict=False):
        assert self.archetype() != Any, 'Cannot use archetype_matches with unknown (Any) archetype. Use with_archetype() first.'
        return self.archetype().is_at(self.index, strict=strict)

    def _to_list_(self, level_refs=None):
        ref = getattr(self, '_ref_', None)
        if ref is None:
            return Num._accept_(self.index)._to_list_()
        else:
            if level_refs is None:
                raise RuntimeError('Unexpected missing level_refs')
            if ref not in level_refs:
                raise KeyError('Reference to entity not in level data')
            return [level_refs[ref]]

    def _copy_from_(self, value):
        super()._copy_from_(value)
        if hasattr(value, '_ref_'):
            self._ref_ = value._ref_

    @classmethod
    def _accepts_(cls, value):
        return super()._accepts_(value) or (cls._type_args_ and cls.archetype() is Any and isinstance(value, EntityRef)) or (issubclass(type(value), EntityRef) and issubclass(value.archetype(), cls.archetype()))

    @classmethod
    def _accept_(cls, value):
        if not cls._accepts_(value):
            raise TypeError(f'Expected {cls}, got {type(value)}')
        result = value.with_archetype(cls.archetype())
        if hasattr(value, '_ref_'):
            result._ref_ = value._ref_
        return result

    @classmethod
    def _validate_parameterized_(cls):
        if not issubclass(cls.archetype(), _BaseArchetype) and cls.archetype() is not Any:
            raise TypeError('EntityRef type parameter must be an Archetype or Any')

class StandardArchetypeName(StrEnum):
    BPM_CHANGE = '#BPM_CHANGE'
    TIMESCALE_CHANGE = '#TIMESCALE_CHANGE'
    TIMESCALE_GROUP = '#TIMESCALE_GROUP'

class StandardImportName:
    BEAT = '#BEAT'
    BPM = '#BPM'
    TIMESCALE = '#TIMESCALE'
    TIMESCALE_SKIP = '#TIMESCALE_SKIP'
    TIMESCALE_GROUP = '#TIMESCALE_GROUP'
    TIMESCALE_EASE = '#TIMESCALE_EASE'
    JUDGMENT = '#JUDGMENT'
    ACCURACY = '#ACCURACY'

class StandardImport:
    BEAT = Annotated[float, imported(name=StandardImportName.BEAT)]
    BPM = Annotated[float, imported(name=StandardImportName.BPM)]
    TIMESCALE = Annotated[float, imported(name=StandardImportName.TIMESCALE)]
    TIMESCALE_SKIP = Annotated[float, imported(name=StandardImportName.TIMESCALE_SKIP)]
    TIMESCALE_GROUP = Annotated[EntityRef[Any], imported(name=StandardImportName.TIMESCALE_GROUP)]
    TIMESCALE_EASE = Annotated[TimescaleEase, imported(name=StandardImportName.TIMESCALE_EASE)]
    JUDGMENT = Annotated[Judgment, imported(name=StandardImportName.JUDGMENT)]
    ACCURACY = Annotated[float, imported(name=StandardImportName.ACCURACY)]
