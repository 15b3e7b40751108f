"""The claimed properties: statements, anchors, and the obligation units that decide them."""
from .units import Unit, cong

TRUSTED = [
    "the Python interpreter running the analyser",
    "sa/: the lowering of Python/jnp/numpy constructs to terms and its rewrite rules",
    "specs/: the reference definitions the value graphs are compared with",
    "the documented semantics of jax.numpy, numpy, jax.vmap, jax.jit and the Python standard library",
]
ASSUME = [
    "real-number semantics: rounding, overflow and underflow are not modelled",
    "inputs satisfy the declared domains of sa/sigs.py (array ranks, signs, ranges)",
]
TECH = "static value-graph congruence: abstract interpretation of the source to canonical terms, compared with reference definitions (global value numbering with guards)"
NOTE = ("Every function of the property is lowered from its current source, over symbolic inputs of symbolic length, to a canonical "
        "value graph (all callees, decorators, vmaps and defaults resolved) that must be congruent to an independent reference definition. "
        "Holds for every input of the declared domain in exact arithmetic; rounding is not modelled. Trusts the lowering, the rewrite rules and the reference definitions.")

PROPS = {}


class Prop:
    def __init__(self, id, title, statement, text, why, files, mech, units, min_obl=1, level="proof", tech=TECH, note=NOTE, over=("inputs",),
                 assume=(), trust=(), deep=None):
        self.id, self.title, self.statement, self.text, self.why = id, title, statement, text, why
        self.files, self.mech, self._units, self.min_obl = files, mech, units, min_obl
        self.level, self.tech, self.level_note, self.over = level, tech, note, list(over)
        self._assume, self._trust, self._deep = list(assume), list(trust), deep
        assert id not in PROPS
        assert len(title) <= 80, title
        PROPS[id] = self

    def units(self, tier):
        u = list(self._units() if callable(self._units) else self._units)
        if tier == "thorough" and self._deep:
            u += list(self._deep())
        return u

    def trusted(self):
        return TRUSTED + self._trust

    def assumptions(self):
        return ASSUME + self._assume


def congs(prefix, *names, **kw):
    return [cong(prefix + n, **kw) for n in names]


def load():
    from . import props_all  # noqa


load()
