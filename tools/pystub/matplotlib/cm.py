from matplotlib import Nothing


def __getattr__(n):
    if n.startswith("__"):
        raise AttributeError(n)
    return Nothing()
