"""Base programs shared by the properties: hand-written corpus and generators."""
import random
from .corpus import load
from .gen.asyncgen import G
CORPUS = load()
NAMES = sorted(CORPUS)
KINDS = [("plain", "gen", "async", "agen"), ("plain", "gen"), ("async", "agen"), ("async",), ("gen",), ("agen",)]


def corpus_case(name):
    c = CORPUS[name]; s = {"src": "(function(){\n" + c["src"] + "\n})();" if "fn" in c["flags"] else c["src"]}
    return s


def gen_async(rng, kinds=None, **kw):
    g = G(rng, kinds or rng.choice(KINDS), **kw)
    return {"src": g.program(), "prologue": G.PRE, "order": [rng.randrange(32) for _ in range(30)]}


GENS = [(6, gen_async)]


def register(weight, fn):
    GENS.append((weight, fn))


def any_generated(rng):
    from .gen import extra
    fs = GENS + extra.GENS
    return rng.choices([f for _, f in fs], [w for w, _ in fs])[0](rng)
