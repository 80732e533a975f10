"""Stand-ins for the two data files that the repository does not contain: tables of Peters' g(n, e), worked out
here from the published formula.  `harmonics.npz` is complete up to the harmonics that carry any power;
`peters_g.npy` is exact for the lower harmonics and zero above (see DESIGN.md)."""
import numpy as np
from scipy.special import jv

E_MIN, E_MAX, E_LEN, N_MAX = 0.0, 0.95, 140, 1000
FINE_N = 60


def peters_g(n, e):
    a = jv(n - 2, n * e) - 2 * e * jv(n - 1, n * e) + 2 / n * jv(n, n * e) + 2 * e * jv(n + 1, n * e) - jv(n + 2, n * e)
    b = jv(n - 2, n * e) - 2 * jv(n, n * e) + jv(n + 2, n * e)
    return n**4 / 32 * (a**2 + (1 - e**2) * b**2 + 4 / (3 * n**2) * jv(n, n * e)**2)


def harmonics(path):
    e = 1 - np.logspace(np.log10(1 - E_MIN), np.log10(1 - E_MAX), E_LEN)
    g = np.zeros((E_LEN, N_MAX))
    for i in range(E_LEN):
        top = int(min(N_MAX, 6 * (1 + e[i])**0.5 / (1 - e[i])**1.5 + 20))
        n = np.arange(1, top + 1).astype(float)
        g[i, :top] = peters_g(n, e[i])
    np.savez(path, e_lims=np.array([E_MIN, E_MAX, E_LEN], float), n_max=np.array(float(N_MAX)), g_vals=g)


def fine_grid(path):
    """The 1000 x 10000 grid, written as a sparse .npy file of which only the low harmonics are filled in."""
    e = np.linspace(0, 1, 1000)
    n = np.arange(1, FINE_N + 1).astype(float)
    grid = np.lib.format.open_memmap(path, mode="w+", dtype=np.float64, shape=(1000, 10000))
    low = peters_g(n[None, :], np.minimum(e, 0.97)[:, None])
    grid[:, :FINE_N] = low
    grid.flush()
    del grid
