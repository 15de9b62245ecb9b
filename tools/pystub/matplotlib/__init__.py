"""Stand-in that draws nothing (matplotlib is not installed)."""


class Nothing(object):
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Nothing()

    def __call__(self, *a, **k):
        return Nothing()

    def __iter__(self):
        return iter([Nothing()])

    def __getitem__(self, k):
        return Nothing()

    def __setitem__(self, k, v):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


rcParams = Nothing()


def use(*a, **k):
    pass


def __getattr__(n):
    if n.startswith("__"):
        raise AttributeError(n)
    return Nothing()
