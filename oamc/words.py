"""Weather words: one pixel per weather sequence.

With the "callback" meteo format every pixel of the (flat) model domain can be given its own
forcing, so a grid of N pixels runs N different weather histories through the real model at once.
All |A|^L words over a weather alphabet A are enumerated this way; word w occupies pixel w of the
grid (row-major) and letter t of the word is the forcing in time step t.
"""

import itertools

import numpy as np

from . import domain

NAN = float("nan")

#          temp   rh   wind  precip  cloud_fraction cloud_factor
LETTERS = {
    "C": (258.0, 60.0, 2.0, 0.0, 0.0, 1.0),  # cold, clear, dry
    "S": (267.0, 95.0, 3.0, 45.0, 1.0, 0.3),  # heavy snowfall
    "s": (271.0, 95.0, 1.0, 0.3, 0.8, 0.5),  # light snowfall
    "M": (274.3, 92.0, 2.0, 8.0, 1.0, 0.3),  # mixed precipitation
    "R": (280.0, 95.0, 5.0, 15.0, 1.0, 0.3),  # rain on snow
    "H": (295.0, 25.0, 8.0, 0.0, 0.0, 1.0),  # hot, dry, sunny, windy
    "W": (262.0, 10.0, 18.0, 0.0, 0.2, 0.9),  # dry storm (sublimation)
    "F": (272.0, 100.0, 6.0, 0.0, 0.5, 0.7),  # humid, no precipitation (hoar)
    "N": (NAN, NAN, NAN, NAN, NAN, NAN),  # complete data gap
    "P": (268.0, 95.0, 3.0, NAN, 1.0, 0.3),  # precipitation missing
    "p": (279.0, 70.0, 3.0, NAN, 0.3, 0.8),  # precipitation missing, warm
    "T": (NAN, 95.0, 3.0, 20.0, 1.0, 0.3),  # temperature missing, precipitation available
}


def words(alphabet, length, prefixes=("",)):
    return [p + "".join(w) for p in prefixes for w in itertools.product(alphabet, repeat=length)]


class WordRun:
    """A model run with one pixel per word."""

    def __init__(self, ck, word_list, start, timestep, config, elev=1500.0, rasters=None, letters=None):
        import openamundsen as oa
        import pandas as pd

        self.words = word_list
        self.letters = letters or LETTERS
        n = len(word_list)
        L = len(word_list[0])
        assert all(len(w) == L for w in word_list)
        cols = int(np.ceil(np.sqrt(n)))
        rows = int(np.ceil(n / cols))
        roi = np.zeros(rows * cols)
        roi[:n] = 1
        self.shape = (rows, cols)
        roi = roi.reshape(self.shape)
        self.n = n
        rasters = dict(rasters or {})
        full = {}
        for k, v in rasters.items():
            a = np.zeros(rows * cols)
            a[:n] = v
            full[k] = a.reshape(self.shape)
        g = domain.make_grids(ck.scratch.sub("g"), np.full(self.shape, elev), roi=roi, **full)
        end = pd.Timestamp(start) + (L - 1) * pd.Timedelta(timestep)
        cfg = domain.base_config(g, ck.scratch.sub("r"), start, str(end), timestep)
        domain.merge(cfg, config)
        self.codes = np.array([[ord(c) for c in w] for w in word_list])
        self.m = oa.OpenAmundsen(cfg)
        self.m.initialize(meteo_callback=self.force)
        self.roi = self.m.grid.roi

    def force(self, m):
        t = m.date_idx
        vals = np.full((6, self.n), np.nan)
        for letter, v in self.letters.items():
            pos = self.codes[:, t] == ord(letter)
            vals[:, pos] = np.array(v)[:, None]
        mm = m.state.meteo
        roi = m.grid.roi
        mm.temp[roi] = vals[0]
        mm.rel_hum[roi] = vals[1]
        mm.wind_speed[roi] = vals[2]
        mm.precip[roi] = vals[3]
        mm.cloud_fraction[roi] = vals[4]
        mm.cloud_factor[roi] = vals[5]

    def get(self, cat, var):
        a = self.m.state[cat][var]
        return np.array(a[..., self.roi], copy=True)

    def steps(self):
        for t in range(len(self.m.dates)):
            yield t


def prefix_nodes(word_list):
    """Number of distinct prefixes (states) and edges (transitions) of a word set."""
    nodes = set()
    for w in word_list:
        for k in range(len(w) + 1):
            nodes.add(w[:k])
    return len(nodes), len(nodes) - 1
