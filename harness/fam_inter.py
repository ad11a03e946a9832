# C19: several enumerations interleaved on one generator object
from fam_pulls import make, run                                  # noqa: F401


def gen(rng, i, tier):
    return make(rng, i, tier, levels=False)
