"""Regenerates sep_table.json (reference separatrices of the alphabets)."""
import json
import os
from concurrent.futures import ProcessPoolExecutor

from . import lattice, sepref


def one(c):
    return float(sepref.separatrix(*c))


def main():
    A = sorted(set(abs(q) for ax in (lattice.A, lattice.A_EXTRA) for q in ax[0] + ax[1]))
    E = sorted(set(lattice.E[0] + lattice.E[1] + [1.0]))
    X = sorted(set(lattice.X[0] + lattice.X[1] + [0.0]))
    keys = [(a, e, x) for a in A for e in E for x in X]
    with ProcessPoolExecutor() as ex:
        vals = list(ex.map(one, keys, chunksize=50))
    with open(os.path.join(os.path.dirname(__file__), "sep_table.json"), "w") as fh:
        json.dump({"A": A, "E": E, "X": X, "p": vals}, fh)


if __name__ == "__main__":
    main()
