"""Round trips."""

from .common import *

ID = 'C01'
QUICK = 4
RULE = (
    'Random schemas over every kind of hint (nested, inherited, all byte orders), plus every '
    'ordered pair of hint kinds, and classes of hundreds of members; random and boundary values. Each value is packed by 3 routes '
    'and unpacked by 6 (into new and existing objects), compared with the value the reference '
    'codec promises, and packed again. Distinct: schema signature and packed bytes.'
)


def large_case(case):
    """Classes with hundreds of members."""
    g = SchemaGen(case.rng, Profile(depth=case.rng.choice((0, 1, 2)), max_fields=3, raw=0.05, pad=12, self=0))
    everything(case, g.class_def(n=case.rng.choice((30, 70, 150, 280, 400))), values=1, truncate=0, mutate=0)


KINDS = {
    'random': random_kind(Profile(inherit=0.2), 1500, 60000, values=2, truncate=0, mutate=0),
    'deep': random_kind(Profile(inherit=0.2, depth=5, max_fields=4), 200, 12000, values=2,
                        truncate=0, mutate=0),
    'pairs': pair_kind(LEAFS, LEAFS, values=1, truncate=0, mutate=0),
    'big': random_kind(Profile(), 150, 6000, values=1, big=0.4, truncate=0, mutate=0),
    'large': Kind(large_case, 60, 1500),
}
