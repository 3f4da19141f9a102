class _Any:
    def __getattr__(self, name):
        v = _Any()
        object.__setattr__(self, name, v)
        return v

    def __call__(self, *a, **kw):
        return _Any()


class DefStyle:
    ALIGNED = BLOCK = INLINE = None


class Item(_Any):
    def __init__(self, *a, **kw):
        pass

    def format(self, *a, **kw):
        return "help"
