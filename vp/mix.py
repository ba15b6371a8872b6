"""Scenarios of the other checks, to be run under other conditions."""
import importlib

SOURCES = ["c02", "c05", "c06", "c07", "c10", "c11", "c12", "c13", "c14", "c15", "c16"]


class Pool:
    """draws scenarios of given numbers of processes"""

    def __init__(self, rng, sources=SOURCES, tier="quick"):
        self.rng = rng
        self.byP, self.src = {}, {}
        for s in sources:
            cls = importlib.import_module("vp.checks." + s).C
            gen = cls.__new__(cls)
            for sc in cls.scenarios(gen, rng, tier):
                sc.setdefault("P", 1)
                sc.setdefault("spec", cls.trace_module)
                sc["from"] = s.upper()
                if sc.get("tags"):
                    continue
                self.byP.setdefault(sc["P"], {}).setdefault(s, []).append(sc)

    def draw(self, P, source=None):
        d = self.byP[P]
        s = source if source in d else self.rng.choice(sorted(d))
        return self.rng.choice(d[s])
