"""Objects shared by the specification cases (evaluated abstractly, never executed)."""
import numpy as np
from vspec import sym, psym, uf, vec, claim, buffered
from bdld.potential.potential import Potential, BoundaryCondition


class AnyPotential(Potential):
    """a potential about which nothing is known but its dimension and ranges"""

    def __init__(self, n_dim, name="V"):
        super().__init__()
        self.n_dim = n_dim
        self.name = name
        self.ranges = [(sym(f"lo{d}"), sym(f"lo{d}") + psym(f"width{d}")) for d in range(n_dim)]

    def energy(self, pos):
        return uf(self.name + ".energy", *[pos[d] for d in range(self.n_dim)])

    def force(self, pos):
        return np.array([uf(self.name + ".force", d, *[pos[k] for k in range(self.n_dim)]) for d in range(self.n_dim)])

    def __str__(self):
        return "any potential"


class AnyBoundary(AnyPotential):
    """potential with an unknown boundary condition that may change position and momentum in place"""

    def __init__(self, n_dim, name="V"):
        super().__init__(n_dim, name)
        self.apply_boundary_condition = self.any_boundary

    def any_boundary(self, pos, mom):
        x = [pos[k] for k in range(self.n_dim)]
        p = [mom[k] for k in range(self.n_dim)]
        for k in range(self.n_dim):
            pos[k] = uf("bc.pos", k, *x, *p)
            mom[k] = uf("bc.mom", k, *x, *p)


def on_disk(name, got, want):
    """the rows of a file start with the given ones (more may be there already)"""
    claim("on disk", [got[:len(want)], buffered(name) if want else False], [want, False])
