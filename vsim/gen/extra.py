"""Further generators of whole programs: (weight, function of rng)."""
from .callgen import gen_calls
GENS = [(3, gen_calls)]
