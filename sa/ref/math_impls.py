import math
from sonolus.backend.ops import Op
from sonolus.script.internal.native import native_function

@native_function(Op.Sin, const_eval=True)
def _sin(x):
    return math.sin(x)

@native_function(Op.Cos, const_eval=True)
def _cos(x):
    return math.cos(x)

@native_function(Op.Tan, const_eval=True)
def _tan(x):
    return math.tan(x)

@native_function(Op.Arcsin, const_eval=True)
def _asin(x):
    return math.asin(x)

@native_function(Op.Arccos, const_eval=True)
def _acos(x):
    return math.acos(x)

@native_function(Op.Arctan, const_eval=True)
def _atan(x):
    return math.atan(x)

@native_function(Op.Arctan2, const_eval=True)
def _atan2(y, x):
    return math.atan2(y, x)

@native_function(Op.Sinh, const_eval=True)
def _sinh(x):
    return math.sinh(x)

@native_function(Op.Cosh, const_eval=True)
def _cosh(x):
    return math.cosh(x)

@native_function(Op.Tanh, const_eval=True)
def _tanh(x):
    return math.tanh(x)

@native_function(Op.Floor, const_eval=True)
def _floor(x):
    return math.floor(x)

@native_function(Op.Ceil, const_eval=True)
def _ceil(x):
    return math.ceil(x)

@native_function(Op.Trunc, const_eval=True)
def _trunc(x):
    return math.trunc(x)

@native_function(Op.Round, const_eval=True)
def __round(x):
    return round(x)

def _round(x, n=0):
    if n == 0:
        return __round(x)
    return __round(x * 10 ** n) / 10 ** n

@native_function(Op.Frac, const_eval=True)
def frac(x):
    return x % 1

@native_function(Op.Log, const_eval=True)
def _ln(x):
    return math.log(x)

def _log(x, base=None):
    if base is None:
        return _ln(x)
    else:
        return _ln(x) / _ln(base)

def _sqrt(x):
    return x ** 0.5

@native_function(Op.Degree, const_eval=True)
def _degrees(x):
    return math.degrees(x)

@native_function(Op.Radian, const_eval=True)
def _radians(x):
    return math.radians(x)

@native_function(Op.Rem, const_eval=True)
def _remainder(x, y):
    return math.copysign(abs(x) % abs(y), x)
MATH_BUILTIN_IMPLS = {id(math.sin): _sin, id(math.cos): _cos, id(math.tan): _tan, id(math.asin): _asin, id(math.acos): _acos, id(math.atan): _atan, id(math.atan2): _atan2, id(math.sinh): _sinh, id(math.cosh): _cosh, id(math.tanh): _tanh, id(math.floor): _floor, id(math.ceil): _ceil, id(math.trunc): _trunc, id(round): _round, id(math.log): _log, id(math.sqrt): _sqrt}
