from sonolus.backend.ir import IRGet
from sonolus.backend.place import BlockPlace
from sonolus.script.internal.context import ctx
from sonolus.script.internal.generic import validate_concrete_type
from sonolus.script.internal.impl import validate_value
from sonolus.script.internal.meta_fn import meta_fn
from sonolus.script.internal.value import BackingValue, ExprBackingValue, ReadOnlyBackingValueWrapper

@meta_fn
def alloc(type_):
    type_ = validate_concrete_type(type_)
    if ctx():
        return type_._alloc_()
    else:
        return type_._alloc_()._as_py_()

@meta_fn
def zeros(type_):
    return validate_concrete_type(type_)._zero_()

@meta_fn
def copy(value):
    value = validate_value(value)
    if ctx():
        return value._copy_()
    else:
        return value._copy_()._as_py_()

def swap(a, b):
    temp = copy(a)
    a @= b
    b @= temp

@meta_fn
def sizeof(type_, /):
    return validate_concrete_type(type_)._size_()

@meta_fn
def freeze(value):
    value = validate_value(value)
    result = type(value)._from_list_((_map_data_value_to_frozen(v) for v in value._to_list_()))
    if ctx():
        return result
    else:
        return result._as_py_()

def _map_data_value_to_frozen(v):
    match v:
        case int() | float() | bool() | ExprBackingValue() | ReadOnlyBackingValueWrapper():
            return v
        case BackingValue():
            return ReadOnlyBackingValueWrapper(v)
        case BlockPlace():
            return ExprBackingValue(IRGet(v))
        case _:
            raise TypeError('Unsupported value for freezing')
