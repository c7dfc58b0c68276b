from collections.abc import Callable
from functools import wraps
from typing import overload

def meta_fn(fn=None, *, show_in_stack=True):

    def decorator(fn):
        from sonolus.backend.utils import get_function
        from sonolus.script.internal import visitor
        base_fn = fn
        while hasattr(base_fn, '__wrapped__'):
            base_fn = base_fn.__wrapped__
        function_name = getattr(base_fn, '__name__', '<unnamed>')
        module = getattr(base_fn, '__module__', None)
        if module is not None:
            qualified_name = f'{module}.{getattr(base_fn, '__qualname__', function_name)}'
        else:
            qualified_name = f'<unknown>.{getattr(base_fn, '__qualname__', function_name)}'
        source_file, node = get_function(base_fn)
        stack_entry = f'File "{source_file}", line {node.lineno}, in {function_name}'

        @wraps(fn)
        def wrapper(*args, **kwargs):
            if ctx():
                completion_timer = visitor.mark_start(qualified_name)
                debug_stack = ctx().callback_state.debug_stack
                try:
                    if show_in_stack:
                        debug_stack.append(stack_entry)
                    return fn(*args, **kwargs)
                finally:
                    if show_in_stack:
                        debug_stack.pop()
                    completion_timer()
            return fn(*args, **kwargs)
        wrapper._meta_fn_ = True
        return wrapper
    if fn is None:
        return decorator
    return decorator(fn)
perf_meta_fn = meta_fn
from sonolus.script.internal.context import ctx
