"""Contract registry.  Imported by the contract files both under the verifier
(instrumented) and under plain CPython (replay and bounded runs)."""

REGISTRY = []


class Contract:
    def __init__(self, fn, prop, name, targets, bounded, note, opts):
        self.fn = fn
        self.prop = prop
        self.name = name
        self.targets = targets
        self.bounded = bounded
        self.note = note
        self.opts = opts
        self.module = fn.__module__


def contract(prop, name=None, targets=(), bounded=None, note='', **opts):
    """prop: property id or tuple of ids.  bounded: a text stating the bound, when
    the contract quantifies over a bounded family of shapes only."""
    def deco(fn):
        REGISTRY.append(Contract(fn, (prop,) if isinstance(prop, str) else tuple(prop),
                                 name or fn.__name__, tuple(targets), bounded, note, opts))
        return fn
    return deco


class Outcome:
    """result of v.call: exactly one of value / exc is meaningful"""

    def __init__(self, value, exc):
        self.value = value
        self.exc = exc
        self.ok = exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)
