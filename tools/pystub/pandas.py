"""Minimal stand-in (pandas is not installed): what the tools and scripts of the repository need."""
import numpy as np


class _Rows(object):
    def __init__(self, frame):
        self._frame = frame

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)):
            return {c: self._frame._d[c][i] for c in self._frame._d}
        return self._frame._take(i)


class DataFrame(object):
    def __init__(self, data=None, columns=None, index=None):
        self._d = {}
        if data is None:
            data = {}
        if isinstance(data, DataFrame):
            self._d, self.index = {c: a.copy() for c, a in data._d.items()}, data.index
            return
        if isinstance(data, np.ndarray) and data.dtype.names:
            for c in (columns or data.dtype.names):
                self._d[c] = np.array(data[c])
        elif isinstance(data, dict):
            for c in (columns or data):
                self._d[c] = np.array(data[c])
        elif isinstance(data, np.ndarray) and data.ndim == 1:
            self._d[columns[0]] = np.array(data)
        else:
            n = len(data)
            for j, c in enumerate(columns):
                self._d[str(c)] = np.array([row[j] for row in data]) if n else np.array([], dtype=float)
        self.index = np.arange(len(self)) if index is None else np.asarray(index)

    def _take(self, k):
        f = DataFrame({c: a[k] for c, a in self._d.items()})
        f.index = self.index[k]
        return f

    @property
    def columns(self):
        return list(self._d)

    @property
    def iloc(self):
        return _Rows(self)

    @property
    def loc(self):
        return _Rows(self)

    @property
    def values(self):
        return np.array([self._d[c] for c in self._d]).T

    def __len__(self):
        for a in self._d.values():
            return len(a)
        return 0

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(self._d)

    def __getitem__(self, k):
        if isinstance(k, str):
            return self._d[k]
        if isinstance(k, (list, tuple)) and k and isinstance(k[0], str):
            f = DataFrame({c: self._d[c] for c in k})
            f.index = self.index
            return f
        return self._take(k)

    def __setitem__(self, k, v):
        n = len(self)
        if np.ndim(v) == 0:
            v = [v] * n
        self._d[k] = np.array(v)

    def __delitem__(self, k):
        del self._d[k]

    def copy(self):
        return DataFrame(self)

    def drop(self, columns=None, axis=None, labels=None, **kw):
        f = DataFrame(self)
        for c in ([columns] if isinstance(columns, str) else columns or labels or []):
            del f._d[c]
        return f

    def assign(self, **kw):
        f = DataFrame(self)
        for k, v in kw.items():
            f[k] = v
        return f

    def to_records(self, index=True):
        cols = [("index", self.index)] if index else []
        cols += list(self._d.items())
        rec = np.zeros(len(self), dtype=[(c, np.asarray(a).dtype) for c, a in cols])
        for c, a in cols:
            rec[c] = a
        return rec.view(np.recarray)

    def to_csv(self, path, sep=",", index=True, header=True, **kw):
        with open(path, "w") as f:
            if header:
                f.write(sep.join(([""] if index else []) + list(self._d)) + "\n")
            for i in range(len(self)):
                row = [str(self.index[i])] if index else []
                for c in self._d:
                    x = self._d[c][i]
                    row.append("" if isinstance(x, (float, np.floating)) and np.isnan(x) else repr(x.item()) if hasattr(x, "item") and not isinstance(x, str) else str(x))
                f.write(sep.join(row) + "\n")


def concat(frames, ignore_index=False, **kw):
    frames = list(frames)
    f = DataFrame({c: np.concatenate([g._d[c] for g in frames]) for c in frames[0]._d})
    if not ignore_index:
        f.index = np.concatenate([g.index for g in frames])
    return f
