"""Import sktopt with plotting replaced by inert stand-ins (plots are not part of any property)."""
import os

os.environ.setdefault("MPLBACKEND", "Agg")
import warnings  # noqa: E402
from unittest.mock import MagicMock  # noqa: E402

import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import matplotlib.figure  # noqa: E402
import numpy as np  # noqa: E402

warnings.filterwarnings("ignore")


class _Fig(MagicMock):
    pass


def _subplots(nrows=1, ncols=1, *a, squeeze=True, **k):
    arr = np.empty((nrows, ncols), dtype=object)
    for i in range(nrows):
        for j in range(ncols):
            arr[i, j] = _AX
    if squeeze:
        arr = arr[0, 0] if arr.size == 1 else arr.squeeze()
    return _FIG, arr


class _Anything:
    """Cheap object accepting any attribute access and call."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _ANY

    def __call__(self, *a, **k):
        return _ANY

    def __iter__(self):
        return iter((_ANY, _ANY))

    def __getitem__(self, i):
        return _ANY

    def __len__(self):
        return 2


_ANY = _AX = _FIG = _Anything()


def stub_plots():
    plt.subplots = _subplots
    plt.figure = lambda *a, **k: _FIG
    plt.close = lambda *a, **k: None
    for n in ("plot", "savefig", "hist", "title", "xlabel", "ylabel", "legend", "grid", "clf",
              "tight_layout", "scatter", "yscale", "xscale", "text", "subplot"):
        setattr(plt, n, lambda *a, **k: _ANY)
    matplotlib.figure.Figure = lambda *a, **k: _FIG


stub_plots()
import logging  # noqa: E402

import sktopt  # noqa: E402

logging.disable(logging.CRITICAL)
