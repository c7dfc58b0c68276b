from libc.stdint import uint16_t
from libc.math import M_PI, acos, asin, atan, atan2, ceil, copysign, cos, cosh, fabs, floor, fmod, isfinite, isinf, isnan, log, sin, sinh, sqrt, tan, tanh
from libc.math import pow as c_pow
from libc.math import round as c_round
from libc.math import trunc as c_trunc
from libc.stdlib import free, malloc
from sonolus.backend._opt._ops_gen import *

def _is_odd_int(x):
    return fmod(fabs(x), 2.0) == 1.0

def _pymin2(a, b):
    return b if b < a else a

def _pymax2(a, b):
    return b if b > a else a

def _clamp01(x):
    m = x if x < 1.0 else 1.0
    return m if m > 0.0 else 0.0

def _f32_exact(v):
    return isnan(v) or v == __cast__('double', __cast__('float', v))

def _pymod(a, b):
    mod = fmod(a, b)
    if mod != 0.0:
        if (b < 0.0) != (mod < 0.0):
            mod += b
    else:
        mod = copysign(0.0, b)
    return mod

def _m1(r, x, out):
    if isnan(r) and (not isnan(x)):
        return FOLD_NOT_CONSTANT
    if isinf(r) and isfinite(x):
        return FOLD_NOT_CONSTANT
    out[0] = r
    return FOLD_OK

def _m2(r, x, y, out):
    if isnan(r) and (not isnan(x)) and (not isnan(y)):
        return FOLD_NOT_CONSTANT
    if isinf(r) and isfinite(x) and isfinite(y):
        return FOLD_NOT_CONSTANT
    out[0] = r
    return FOLD_OK

def _float_pow(iv, iw, out):
    ix: 'double'
    aiv: 'double'
    negate: 'bint'
    if iw == 0.0:
        out[0] = 1.0
        return FOLD_OK
    if isnan(iv):
        out[0] = iv
        return FOLD_OK
    if isnan(iw):
        out[0] = 1.0 if iv == 1.0 else iw
        return FOLD_OK
    if isinf(iw):
        aiv = fabs(iv)
        if aiv == 1.0:
            out[0] = 1.0
        elif (iw > 0.0) == (aiv > 1.0):
            out[0] = fabs(iw)
        else:
            out[0] = 0.0
        return FOLD_OK
    if isinf(iv):
        if iw > 0.0:
            out[0] = iv if _is_odd_int(iw) else fabs(iv)
        else:
            out[0] = copysign(0.0, iv) if _is_odd_int(iw) else 0.0
        return FOLD_OK
    if iv == 0.0:
        if iw < 0.0:
            return FOLD_NOT_CONSTANT
        out[0] = iv if _is_odd_int(iw) else 0.0
        return FOLD_OK
    negate = False
    if iv < 0.0:
        if iw != floor(iw):
            return FOLD_NOT_CONSTANT
        iv = -iv
        negate = _is_odd_int(iw)
    ix = c_pow(iv, iw)
    if isinf(ix):
        return FOLD_NOT_CONSTANT
    out[0] = -ix if negate else ix
    return FOLD_OK

def _fpow(iv, iw):
    ix: 'double'
    negate: 'bint'
    if iw == 0.0:
        return 1.0
    if iv == 0.0:
        return iv if _is_odd_int(iw) else 0.0
    negate = False
    if iv < 0.0:
        iv = -iv
        negate = _is_odd_int(iw)
    ix = c_pow(iv, iw)
    return -ix if negate else ix

def _judge(diff, perfect_min, perfect_max, great_min, great_max, good_min, good_max):
    if perfect_min <= diff <= perfect_max:
        return 1.0
    if great_min <= diff <= great_max:
        return 2.0
    if good_min <= diff <= good_max:
        return 3.0
    return 0.0

def _fold_ease(op, x, out):
    c1: 'double'
    c2: 'double'
    c3: 'double'
    c4: 'double'
    c5: 'double'
    arg: 'double'
    x = _clamp01(x)
    if op == OP_EaseInBack:
        c1 = 1.70158
        c3 = c1 + 1.0
        out[0] = c3 * _fpow(x, 3.0) - c1 * _fpow(x, 2.0)
        return FOLD_OK
    if op == OP_EaseOutBack:
        c1 = 1.70158
        c3 = c1 + 1.0
        out[0] = 1.0 + c3 * _fpow(x - 1.0, 3.0) + c1 * _fpow(x - 1.0, 2.0)
        return FOLD_OK
    if op == OP_EaseInOutBack:
        c1 = 1.70158
        c2 = c1 * 1.525
        if x < 0.5:
            out[0] = _fpow(2.0 * x, 2.0) * ((c2 + 1.0) * 2.0 * x - c2) / 2.0
        else:
            out[0] = (_fpow(2.0 * x - 2.0, 2.0) * ((c2 + 1.0) * (2.0 * x - 2.0) + c2) + 2.0) / 2.0
        return FOLD_OK
    if op == OP_EaseOutInBack:
        c1 = 1.70158
        c3 = c1 + 1.0
        if x < 0.5:
            out[0] = (1.0 + c3 * _fpow(2.0 * x - 1.0, 3.0) + c1 * _fpow(2.0 * x - 1.0, 2.0)) / 2.0
        else:
            out[0] = (c3 * _fpow(2.0 * x - 1.0, 3.0) - c1 * _fpow(2.0 * x - 1.0, 2.0)) / 2.0 + 0.5
        return FOLD_OK
    if op == OP_EaseInCirc:
        arg = 1.0 - _fpow(x, 2.0)
        if arg < 0.0:
            return FOLD_NOT_CONSTANT
        out[0] = 1.0 - sqrt(arg)
        return FOLD_OK
    if op == OP_EaseOutCirc:
        arg = 1.0 - _fpow(x - 1.0, 2.0)
        if arg < 0.0:
            return FOLD_NOT_CONSTANT
        out[0] = sqrt(arg)
        return FOLD_OK
    if op == OP_EaseInOutCirc:
        if x < 0.5:
            arg = 1.0 - _fpow(2.0 * x, 2.0)
            if arg < 0.0:
                return FOLD_NOT_CONSTANT
            out[0] = (1.0 - sqrt(arg)) / 2.0
        else:
            arg = 1.0 - _fpow(2.0 * x - 2.0, 2.0)
            if arg < 0.0:
                return FOLD_NOT_CONSTANT
            out[0] = (sqrt(arg) + 1.0) / 2.0
        return FOLD_OK
    if op == OP_EaseOutInCirc:
        arg = 1.0 - _fpow(2.0 * x - 1.0, 2.0)
        if arg < 0.0:
            return FOLD_NOT_CONSTANT
        if x < 0.5:
            out[0] = sqrt(arg) / 2.0
        else:
            out[0] = (1.0 - sqrt(arg)) / 2.0 + 0.5
        return FOLD_OK
    if op == OP_EaseInCubic:
        out[0] = _fpow(x, 3.0)
        return FOLD_OK
    if op == OP_EaseOutCubic:
        out[0] = 1.0 - _fpow(1.0 - x, 3.0)
        return FOLD_OK
    if op == OP_EaseInOutCubic:
        if x < 0.5:
            out[0] = 4.0 * _fpow(x, 3.0)
        else:
            out[0] = 1.0 - _fpow(-2.0 * x + 2.0, 3.0) / 2.0
        return FOLD_OK
    if op == OP_EaseOutInCubic:
        if x < 0.5:
            out[0] = (1.0 - _fpow(1.0 - 2.0 * x, 3.0)) / 2.0
        else:
            out[0] = _fpow(2.0 * x - 1.0, 3.0) / 2.0 + 0.5
        return FOLD_OK
    if op == OP_EaseInElastic:
        c4 = 2.0 * M_PI / 3.0
        if x == 0.0 or x == 1.0:
            out[0] = x
        else:
            out[0] = -_fpow(2.0, 10.0 * x - 10.0) * sin((x * 10.0 - 10.75) * c4)
        return FOLD_OK
    if op == OP_EaseOutElastic:
        c4 = 2.0 * M_PI / 3.0
        if x == 0.0 or x == 1.0:
            out[0] = x
        else:
            out[0] = _fpow(2.0, -10.0 * x) * sin((x * 10.0 - 0.75) * c4) + 1.0
        return FOLD_OK
    if op == OP_EaseInOutElastic:
        c5 = 2.0 * M_PI / 4.5
        if x == 0.0 or x == 1.0:
            out[0] = x
        elif x < 0.5:
            out[0] = -(_fpow(2.0, 20.0 * x - 10.0) * sin((20.0 * x - 11.125) * c5)) / 2.0
        else:
            out[0] = _fpow(2.0, -20.0 * x + 10.0) * sin((20.0 * x - 11.125) * c5) / 2.0 + 1.0
        return FOLD_OK
    if op == OP_EaseOutInElastic:
        c4 = 2.0 * M_PI / 3.0
        if x < 0.5:
            if x == 0.0:
                out[0] = 0.0
            else:
                out[0] = _fpow(2.0, -20.0 * x) * sin((20.0 * x - 0.75) * c4) / 2.0 + 0.5
        elif x == 1.0:
            out[0] = 1.0
        else:
            out[0] = -_fpow(2.0, 10.0 * (2.0 * x - 1.0) - 10.0) * sin((20.0 * x - 20.75) * c4) / 2.0 + 0.5
        return FOLD_OK
    if op == OP_EaseInExpo:
        out[0] = 0.0 if x == 0.0 else _fpow(2.0, 10.0 * x - 10.0)
        return FOLD_OK
    if op == OP_EaseOutExpo:
        out[0] = 1.0 if x == 1.0 else 1.0 - _fpow(2.0, -10.0 * x)
        return FOLD_OK
    if op == OP_EaseInOutExpo:
        if x == 0.0 or x == 1.0:
            out[0] = x
        elif x < 0.5:
            out[0] = _fpow(2.0, 20.0 * x - 10.0) / 2.0
        else:
            out[0] = (2.0 - _fpow(2.0, -20.0 * x + 10.0)) / 2.0
        return FOLD_OK
    if op == OP_EaseOutInExpo:
        if x == 0.0 or x == 1.0:
            out[0] = x
        elif x < 0.5:
            out[0] = (1.0 - _fpow(2.0, -20.0 * x)) / 2.0
        else:
            out[0] = _fpow(2.0, 20.0 * x - 20.0) / 2.0 + 0.5
        return FOLD_OK
    if op == OP_EaseInQuad:
        out[0] = _fpow(x, 2.0)
        return FOLD_OK
    if op == OP_EaseOutQuad:
        out[0] = 1.0 - _fpow(1.0 - x, 2.0)
        return FOLD_OK
    if op == OP_EaseInOutQuad:
        if x < 0.5:
            out[0] = 2.0 * _fpow(x, 2.0)
        else:
            out[0] = 1.0 - _fpow(-2.0 * x + 2.0, 2.0) / 2.0
        return FOLD_OK
    if op == OP_EaseOutInQuad:
        if x < 0.5:
            out[0] = (1.0 - _fpow(1.0 - 2.0 * x, 2.0)) / 2.0
        else:
            out[0] = _fpow(2.0 * x - 1.0, 2.0) / 2.0 + 0.5
        return FOLD_OK
    if op == OP_EaseInQuart:
        out[0] = _fpow(x, 4.0)
        return FOLD_OK
    if op == OP_EaseOutQuart:
        out[0] = 1.0 - _fpow(1.0 - x, 4.0)
        return FOLD_OK
    if op == OP_EaseInOutQuart:
        if x < 0.5:
            out[0] = 8.0 * _fpow(x, 4.0)
        else:
            out[0] = 1.0 - _fpow(-2.0 * x + 2.0, 4.0) / 2.0
        return FOLD_OK
    if op == OP_EaseOutInQuart:
        if x < 0.5:
            out[0] = (1.0 - _fpow(1.0 - 2.0 * x, 4.0)) / 2.0
        else:
            out[0] = _fpow(2.0 * x - 1.0, 4.0) / 2.0 + 0.5
        return FOLD_OK
    if op == OP_EaseInQuint:
        out[0] = _fpow(x, 5.0)
        return FOLD_OK
    if op == OP_EaseOutQuint:
        out[0] = 1.0 - _fpow(1.0 - x, 5.0)
        return FOLD_OK
    if op == OP_EaseInOutQuint:
        if x < 0.5:
            out[0] = 16.0 * _fpow(x, 5.0)
        else:
            out[0] = 1.0 - _fpow(-2.0 * x + 2.0, 5.0) / 2.0
        return FOLD_OK
    if op == OP_EaseOutInQuint:
        if x < 0.5:
            out[0] = (1.0 - _fpow(1.0 - 2.0 * x, 5.0)) / 2.0
        else:
            out[0] = _fpow(2.0 * x - 1.0, 5.0) / 2.0 + 0.5
        return FOLD_OK
    if op == OP_EaseInSine:
        out[0] = 1.0 - cos(x * M_PI / 2.0)
        return FOLD_OK
    if op == OP_EaseOutSine:
        out[0] = sin(x * M_PI / 2.0)
        return FOLD_OK
    if op == OP_EaseInOutSine:
        out[0] = -(cos(M_PI * x) - 1.0) / 2.0
        return FOLD_OK
    if op == OP_EaseOutInSine:
        if x < 0.5:
            out[0] = sin(M_PI * x) / 2.0
        else:
            out[0] = 1.0 - sin(M_PI * x) / 2.0
        return FOLD_OK
    return FOLD_NOT_CONSTANT

def fold_op(op, a, n, out):
    x: 'double'
    denom: 'double'
    r: 'double'
    i: 'int'
    if op == OP_Not:
        if n != 1:
            return FOLD_NOT_CONSTANT
        out[0] = 1.0 if a[0] == 0.0 else 0.0
        return FOLD_OK
    if op == OP_Negate:
        if n != 1:
            return FOLD_NOT_CONSTANT
        out[0] = -a[0]
        return FOLD_OK
    if op == OP_Abs:
        if n != 1:
            return FOLD_NOT_CONSTANT
        out[0] = fabs(a[0])
        return FOLD_OK
    if op == OP_Sign:
        if n != 1:
            return FOLD_NOT_CONSTANT
        x = a[0]
        if isnan(x):
            out[0] = x
        elif x > 0.0:
            out[0] = 1.0
        elif x < 0.0:
            out[0] = -1.0
        else:
            out[0] = x
        return FOLD_OK
    if op == OP_Ceil:
        if n != 1:
            return FOLD_NOT_CONSTANT
        x = a[0]
        if isnan(x) or isinf(x):
            return FOLD_NOT_CONSTANT
        out[0] = ceil(x) + 0.0
        return FOLD_OK
    if op == OP_Floor:
        if n != 1:
            return FOLD_NOT_CONSTANT
        x = a[0]
        if isnan(x) or isinf(x):
            return FOLD_NOT_CONSTANT
        out[0] = floor(x) + 0.0
        return FOLD_OK
    if op == OP_Trunc:
        if n != 1:
            return FOLD_NOT_CONSTANT
        x = a[0]
        if isnan(x) or isinf(x):
            return FOLD_NOT_CONSTANT
        out[0] = c_trunc(x) + 0.0
        return FOLD_OK
    if op == OP_Round:
        if n != 1:
            return FOLD_NOT_CONSTANT
        x = a[0]
        if isnan(x) or isinf(x):
            return FOLD_NOT_CONSTANT
        r = c_round(x)
        if fabs(x - r) == 0.5:
            r = 2.0 * c_round(x / 2.0)
        out[0] = r + 0.0
        return FOLD_OK
    if op == OP_Frac:
        if n != 1:
            return FOLD_NOT_CONSTANT
        r = _pymod(a[0], 1.0)
        out[0] = r if r >= 0.0 else r + 1.0
        return FOLD_OK
    if op == OP_Sin:
        if n != 1:
            return FOLD_NOT_CONSTANT
        return _m1(sin(a[0]), a[0], out)
    if op == OP_Cos:
        if n != 1:
            return FOLD_NOT_CONSTANT
        return _m1(cos(a[0]), a[0], out)
    if op == OP_Tan:
        if n != 1:
            return FOLD_NOT_CONSTANT
        return _m1(tan(a[0]), a[0], out)
    if op == OP_Sinh:
        if n != 1:
            return FOLD_NOT_CONSTANT
        return _m1(sinh(a[0]), a[0], out)
    if op == OP_Cosh:
        if n != 1:
            return FOLD_NOT_CONSTANT
        return _m1(cosh(a[0]), a[0], out)
    if op == OP_Tanh:
        if n != 1:
            return FOLD_NOT_CONSTANT
        return _m1(tanh(a[0]), a[0], out)
    if op == OP_Arcsin:
        if n != 1:
            return FOLD_NOT_CONSTANT
        return _m1(asin(a[0]), a[0], out)
    if op == OP_Arccos:
        if n != 1:
            return FOLD_NOT_CONSTANT
        return _m1(acos(a[0]), a[0], out)
    if op == OP_Arctan:
        if n != 1:
            return FOLD_NOT_CONSTANT
        return _m1(atan(a[0]), a[0], out)
    if op == OP_Log:
        if n != 1:
            return FOLD_NOT_CONSTANT
        return _m1(log(a[0]), a[0], out)
    if op == OP_Degree:
        if n != 1:
            return FOLD_NOT_CONSTANT
        out[0] = a[0] * (180.0 / M_PI)
        return FOLD_OK
    if op == OP_Radian:
        if n != 1:
            return FOLD_NOT_CONSTANT
        out[0] = a[0] * (M_PI / 180.0)
        return FOLD_OK
    if op == OP_Equal:
        if n != 2:
            return FOLD_NOT_CONSTANT
        out[0] = 1.0 if a[0] == a[1] else 0.0
        return FOLD_OK
    if op == OP_NotEqual:
        if n != 2:
            return FOLD_NOT_CONSTANT
        out[0] = 1.0 if a[0] != a[1] else 0.0
        return FOLD_OK
    if op == OP_Greater:
        if n != 2:
            return FOLD_NOT_CONSTANT
        out[0] = 1.0 if a[0] > a[1] else 0.0
        return FOLD_OK
    if op == OP_GreaterOr:
        if n != 2:
            return FOLD_NOT_CONSTANT
        out[0] = 1.0 if a[0] >= a[1] else 0.0
        return FOLD_OK
    if op == OP_Less:
        if n != 2:
            return FOLD_NOT_CONSTANT
        out[0] = 1.0 if a[0] < a[1] else 0.0
        return FOLD_OK
    if op == OP_LessOr:
        if n != 2:
            return FOLD_NOT_CONSTANT
        out[0] = 1.0 if a[0] <= a[1] else 0.0
        return FOLD_OK
    if op == OP_And:
        r = 0.0
        for i in range(n):
            r = a[i]
            if r == 0.0:
                break
        out[0] = r
        return FOLD_OK
    if op == OP_Or:
        r = 0.0
        for i in range(n):
            r = a[i]
            if r != 0.0:
                break
        out[0] = r
        return FOLD_OK
    if op == OP_If:
        if n != 3:
            return FOLD_NOT_CONSTANT
        if not _f32_exact(a[0]):
            return FOLD_NOT_CONSTANT
        out[0] = a[1] if a[0] != 0.0 else a[2]
        return FOLD_OK
    if op == OP_Switch:
        if n < 1 or n & 1 == 0:
            return FOLD_NOT_CONSTANT
        if not _f32_exact(a[0]):
            return FOLD_NOT_CONSTANT
        i = 1
        while i < n:
            if not _f32_exact(a[i]):
                return FOLD_NOT_CONSTANT
            if a[0] == a[i]:
                out[0] = a[i + 1]
                return FOLD_OK
            i += 2
        out[0] = 0.0
        return FOLD_OK
    if op == OP_SwitchWithDefault:
        if n < 2 or n & 1 != 0:
            return FOLD_NOT_CONSTANT
        if not _f32_exact(a[0]):
            return FOLD_NOT_CONSTANT
        i = 1
        while i < n - 1:
            if not _f32_exact(a[i]):
                return FOLD_NOT_CONSTANT
            if a[0] == a[i]:
                out[0] = a[i + 1]
                return FOLD_OK
            i += 2
        out[0] = a[n - 1]
        return FOLD_OK
    if op == OP_SwitchInteger:
        if n < 1:
            return FOLD_NOT_CONSTANT
        if not _f32_exact(a[0]):
            return FOLD_NOT_CONSTANT
        x = a[0]
        if x >= 0.0 and x < __cast__('double', n - 1) and (c_trunc(x) == x):
            out[0] = a[1 + __cast__('int', x)]
            return FOLD_OK
        out[0] = 0.0
        return FOLD_OK
    if op == OP_SwitchIntegerWithDefault:
        if n < 2:
            return FOLD_NOT_CONSTANT
        if not _f32_exact(a[0]):
            return FOLD_NOT_CONSTANT
        x = a[0]
        if x >= 0.0 and x < __cast__('double', n - 2) and (c_trunc(x) == x):
            out[0] = a[1 + __cast__('int', x)]
            return FOLD_OK
        out[0] = a[n - 1]
        return FOLD_OK
    if op == OP_Add:
        if n != 2:
            return FOLD_NOT_CONSTANT
        out[0] = a[0] + a[1]
        return FOLD_OK
    if op == OP_Subtract:
        if n != 2:
            return FOLD_NOT_CONSTANT
        out[0] = a[0] - a[1]
        return FOLD_OK
    if op == OP_Multiply:
        if n != 2:
            return FOLD_NOT_CONSTANT
        out[0] = a[0] * a[1]
        return FOLD_OK
    if op == OP_Divide:
        if n != 2:
            return FOLD_NOT_CONSTANT
        if a[1] == 0.0:
            return FOLD_NOT_CONSTANT
        out[0] = a[0] / a[1]
        return FOLD_OK
    if op == OP_Mod:
        if n != 2:
            return FOLD_NOT_CONSTANT
        if a[1] == 0.0:
            return FOLD_NOT_CONSTANT
        out[0] = _pymod(a[0], a[1])
        return FOLD_OK
    if op == OP_Rem:
        if n != 2:
            return FOLD_NOT_CONSTANT
        if a[1] == 0.0:
            return FOLD_NOT_CONSTANT
        out[0] = copysign(fmod(fabs(a[0]), fabs(a[1])), a[0])
        return FOLD_OK
    if op == OP_Power:
        if n != 2:
            return FOLD_NOT_CONSTANT
        return _float_pow(a[0], a[1], out)
    if op == OP_Max:
        if n != 2:
            return FOLD_NOT_CONSTANT
        out[0] = _pymax2(a[0], a[1])
        return FOLD_OK
    if op == OP_Min:
        if n != 2:
            return FOLD_NOT_CONSTANT
        out[0] = _pymin2(a[0], a[1])
        return FOLD_OK
    if op == OP_Arctan2:
        if n != 2:
            return FOLD_NOT_CONSTANT
        return _m2(atan2(a[0], a[1]), a[0], a[1], out)
    if op == OP_Clamp:
        if n != 3:
            return FOLD_NOT_CONSTANT
        out[0] = _pymax2(a[1], _pymin2(a[2], a[0]))
        return FOLD_OK
    if op == OP_Lerp:
        if n != 3:
            return FOLD_NOT_CONSTANT
        out[0] = a[0] + (a[1] - a[0]) * a[2]
        return FOLD_OK
    if op == OP_LerpClamped:
        if n != 3:
            return FOLD_NOT_CONSTANT
        out[0] = a[0] + (a[1] - a[0]) * _clamp01(a[2])
        return FOLD_OK
    if op == OP_Unlerp:
        if n != 3:
            return FOLD_NOT_CONSTANT
        denom = a[1] - a[0]
        if denom == 0.0:
            return FOLD_NOT_CONSTANT
        out[0] = (a[2] - a[0]) / denom
        return FOLD_OK
    if op == OP_UnlerpClamped:
        if n != 3:
            return FOLD_NOT_CONSTANT
        denom = a[1] - a[0]
        if denom == 0.0:
            return FOLD_NOT_CONSTANT
        out[0] = _clamp01((a[2] - a[0]) / denom)
        return FOLD_OK
    if op == OP_Remap:
        if n != 5:
            return FOLD_NOT_CONSTANT
        denom = a[1] - a[0]
        if denom == 0.0:
            return FOLD_NOT_CONSTANT
        out[0] = a[2] + (a[3] - a[2]) * (a[4] - a[0]) / denom
        return FOLD_OK
    if op == OP_RemapClamped:
        if n != 5:
            return FOLD_NOT_CONSTANT
        denom = a[1] - a[0]
        if denom == 0.0:
            return FOLD_NOT_CONSTANT
        out[0] = a[2] + (a[3] - a[2]) * _clamp01((a[4] - a[0]) / denom)
        return FOLD_OK
    if op == OP_JudgeSimple:
        if n != 5:
            return FOLD_NOT_CONSTANT
        out[0] = _judge(a[0] - a[1], -a[2], a[2], -a[3], a[3], -a[4], a[4])
        return FOLD_OK
    if op == OP_Judge:
        if n != 8:
            return FOLD_NOT_CONSTANT
        out[0] = _judge(a[0] - a[1], a[2], a[3], a[4], a[5], a[6], a[7])
        return FOLD_OK
    if OP_EaseInBack <= op <= OP_EaseOutSine:
        if n != 1:
            return FOLD_NOT_CONSTANT
        return _fold_ease(op, a[0], out)
    return FOLD_NOT_CONSTANT
from sonolus.backend.ops import Op as _Op
_OP_IDS = {op.value: i for i, op in enumerate(_Op)}

def fold(op, args):
    op_id: 'int'
    n: 'int'
    i: 'int'
    status: 'int'
    stackbuf: 'double[16]'
    buf = stackbuf
    result = 0.0
    if isinstance(op, str):
        op_id = _OP_IDS[op]
    elif isinstance(op, int):
        op_id = op
    else:
        op_id = _OP_IDS[op.value]
    n = len(args)
    if n > 16:
        buf = __cast__('double*', malloc(__cast__('unsigned size_t', n) * __sizeof__('double')))
        if buf == NULL:
            raise MemoryError
    try:
        for i in range(n):
            buf[i] = __cast__('double', args[i])
        with __nogil__:
            status = fold_op(__cast__('uint16_t', op_id), buf, n, __addr__(result))
    finally:
        if n > 16:
            free(buf)
    if status == FOLD_OK:
        return result
    return None

def is_op_foldable(op_id):
    if op_id < 0 or op_id >= OP_TABLE_SIZE:
        raise IndexError('Op id out of range')
    return SONOLUS_OP_FOLDABLE[op_id] != 0

def foldable_op_ids():
    i: 'int'
    result = []
    for i in range(OP_TABLE_SIZE):
        if SONOLUS_OP_FOLDABLE[i] != 0:
            result.append(i)
    return result
