"""What reaches the viewer: every figure shown while capturing, with the file name it would be saved under."""

import contextlib

import numpy as np


class Shown:
    def __init__(self, fig, kwargs):
        import plotly.graph_objects as go

        self.fig = go.Figure(fig) if isinstance(fig, dict) else fig
        self.config = kwargs.get("config") or {}

    @property
    def filename(self):
        return self.config.get("toImageButtonOptions", {}).get("filename")

    @property
    def trace(self):
        return self.fig.data[0]

    def arr(self, key):
        return np.asarray(getattr(self.trace, key))

    def fingerprint(self):
        return repr(self.fig.to_dict()) if False else self.fig.to_json() + str(self.filename)


@contextlib.contextmanager
def capture():
    """Figures handed to plotly's show; nothing is opened."""
    import plotly.io as pio
    import plotly.io._renderers as pr

    shown = []

    def show(fig, renderer=None, validate=True, **kwargs):  # noqa: ARG001, FBT002
        shown.append(Shown(fig, kwargs))

    old = pio.show, pr.show
    pio.show = pr.show = show
    try:
        yield shown
    finally:
        pio.show, pr.show = old


def shown_by(fn):
    """The single figure that fn shows."""
    with capture() as s:
        fn()
    return s
