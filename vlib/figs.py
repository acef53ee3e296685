"""Reading back what a matplotlib axes shows."""
import re

import numpy as np


def plt():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt_
    return plt_


shown = []


def _record(*args, **kwargs):
    shown.append(args)


class Closing:
    """Closes every figure when leaving the block. Windows are not opened,
    but noted in shown."""

    def __enter__(self):
        import matplotlib.figure as mf
        p = plt()
        shown.clear()
        self.kept = [(p, 'show', p.show), (mf.Figure, 'show', mf.Figure.show)]
        try:
            from plotly.basedatatypes import BaseFigure
            self.kept.append((BaseFigure, 'show', BaseFigure.show))
        except ImportError:
            pass
        for owner, name, _ in self.kept:
            setattr(owner, name, _record)
        return p

    def __exit__(self, *exc):
        for owner, name, f in self.kept:
            setattr(owner, name, f)
        plt().close('all')


def xy(line):
    x = np.asarray(np.ma.filled(np.ma.masked_invalid(
        np.asarray(line.get_xdata(), float)), np.nan), float).ravel()
    y = np.asarray(line.get_ydata(), float).ravel()
    return x, y


def data_lines(ax):
    """Lines drawn in data coordinates (no axhline or axvline)."""
    return [ln for ln in ax.lines
            if ln.get_transform().contains_branch_seperately(
                ax.transData) == (True, True) or ax.name == 'polar']


def by_label(ax):
    return {ln.get_label(): ln for ln in ax.lines}


def shaded(ax):
    """Rectangles (x0, x1, y0, y1) shaded over the background: x in data
    coordinates, y in fractions of the axes' height."""
    out = []
    for art in list(ax.collections) + list(ax.patches):
        if hasattr(art, 'get_paths'):
            paths = art.get_paths()
        else:
            paths = [art.get_path()]
        tr = art.get_transform()
        for p in paths:
            for poly in p.to_polygons(closed_only=False):
                d = tr.transform(np.asarray(poly, float))
                x = ax.transData.inverted().transform(d)[:, 0]
                y = ax.transAxes.inverted().transform(d)[:, 1]
                if x.max() - x.min() > 1e-12:
                    out.append((x.min(), x.max(), y.min(), y.max()))
    return out


def title_number(text):
    """The number at the end of 'Eigenvalue: -1.234+0.500j'."""
    try:
        return complex(text.split(':')[-1].replace('\u2212', '-')
                       .replace(' ', ''))
    except ValueError:
        return None


def rgba(color):
    from matplotlib.colors import to_rgba
    return to_rgba(color)


def shapes(ax):
    """Circles, ellipses and wedges: [(kind, centre, ...)], in data units."""
    from matplotlib import patches
    out = {'circle': [], 'ellipse': [], 'wedge': [], 'other': []}
    for p in ax.patches:
        if isinstance(p, patches.Circle):
            out['circle'].append((tuple(map(float, p.center)),
                                  float(p.radius), p))
        elif isinstance(p, patches.Ellipse):
            out['ellipse'].append((tuple(map(float, p.center)),
                                   float(p.width), float(p.height),
                                   float(p.angle), p))
        elif isinstance(p, patches.Wedge):
            out['wedge'].append((tuple(map(float, p.center)),
                                 float(p.r), p.theta1, p.theta2, p))
        else:
            out['other'].append(p)
    return out


def ground_lines(ax):
    """Heights of lines that span the whole width of the axes."""
    out = []
    for ln in ax.lines:
        if ln.get_transform() == ax.get_yaxis_transform(which='grid'):
            x, y = xy(ln)
            if min(x) <= 0.0 and max(x) >= 1.0 and np.ptp(y) == 0:
                out.append(y[0])
    return out


def segments(ax):
    """Vertices of the lines drawn in data coordinates, as (n, 2) arrays."""
    return [np.array(xy(ln)).T for ln in data_lines(ax)]
