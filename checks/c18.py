"""Tree recombination: the same guarantee as recombination on the whole dataset, for any number of levels."""

from checks.c17 import FUNCS, L4, MODES, recombine
from checks.common import *  # noqa: F403

from coreax.solvers import TreeRecombination

FUNCS += ["coreax.solvers.recombination.TreeRecombination.reduce", "coreax.solvers.recombination._prepare_tree",
          "coreax.solvers.recombination._centroid"]
ASSUMPTIONS = ["exact real arithmetic in place of float32",
               "the singular value decomposition is a stub: exact rank and an exact basis of the null space (the one the real "
               "decomposition returns, its negation, or unrelated ones); replays use the real decomposition"]


def tree(*a, factor=2, rcond=None, **k):
    return recombine(lambda fn, mode: TreeRecombination(test_functions=fn, mode=mode, rcond=rcond,
                                                        tree_reduction_factor=factor), *a, label=f"tree({factor})", **k)


L3 = [[0], [1], [3]]
L5 = [[0], [1], [3], [4], [6]]
L6 = [[0], [1], [3], [4], [6], [-2]]
L7 = [[0], [1], [3], [4], [6], [-2], [5]]
L8 = L7 + [[9]]
L9 = L8 + [[-7]]
Q7 = [[0, 0], [2, 0], [0, 2], [1, 1], [3, 3], [-1, 2], [4, -3]]
H = 0.5


def scenarios():
    out = [tree(4, 1, L4, bases=1), tree(4, 1, L4, zeros=(1,), mode="explicit", bases=1), tree(3, 1, L3, bases=4),
           tree(2, 1, [[0], [3]]), tree(4, 1, L4, zeros=(0, 3), mode="implicit"), tree(3, 1, L3, bases=2, factor=3),
           tree(5, 1, L5, weights=[None, 1, H, 2, 0.75], bases=1),
           tree(5, 1, L5, weights=[0, None, 0, 1, 2], mode="implicit"),
           tree(6, 1, L6, weights=[None, 1, 0, 2, 0.75, H], bases=1, mode="explicit"),
           tree(8, 1, L8, weights=None), tree(9, 1, L9, weights=[1, 1, H, 2, 0.75, 3, 1, 4, 1.5]),
           tree(7, 2, Q7, weights=[1, 1, H, 2, 0.75, 3, 1]), tree(5, 1, L5, weights=[1, 1, H, 2, 0.75], factor=3),
           tree(5, 1, L5, weights=[1, 1, H, 2, 0.75], tf="square"),
           tree(5, 1, L5, weights=[1, 2, H, 2, 0.75], supervised=True),
           tree(5, 1, [[1]] * 5, weights=[None, 1, H, 2, 0.75])]
    out += [tree(7, 1, L7, mode=mode, weights=[1, 1, H, 2, 0.75, 3, 1]) for mode in MODES]
    t = {"tier": "thorough"}
    for mode in MODES:
        out += [tree(4, 1, L4, mode=mode, name=" bases", **t),
                tree(5, 1, L5, mode=mode, weights=[None, 1, H, 2, 0.75], name=" bases", **t),
                tree(7, 1, L7, mode=mode, weights=[1, 1, H, None, 0.75, 3, 1], budget=600, **t)]
    out += [tree(5, 1, L5, weights=[None, 1, H, None, 0.75], bases=1, budget=600, max_paths=5000, **t),
            tree(7, 2, Q7, weights=[1, 1, H, None, 0.75, 3, 1], bases=1, budget=600, **t),
            tree(9, 1, L9, weights=[1, 1, H, 2, 0.75, None, 1, 4, 1.5], bases=1, budget=600, **t)]
    return out
