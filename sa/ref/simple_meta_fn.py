def simple_meta_fn(fn):
    fn._meta_fn_ = True
    return fn
