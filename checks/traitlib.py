"""Stand-ins that let the real traitlets library accept symbolic values."""


def traits_models(x, p):
    """traitlets is not instrumented: its type tests have to know symbolic numbers"""
    if not x.symbolic:
        return
    import traitlets
    from symx import values as V
    int_v, float_v = traitlets.Int.validate, traitlets.Float.validate

    def bounds(trait, value):
        if trait.min is not None and trait.min != -float("inf") and value < trait.min:
            raise traitlets.TraitError("below minimum")
        if trait.max is not None and trait.max != float("inf") and value > trait.max:
            raise traitlets.TraitError("above maximum")
        return value

    def ival(self, obj, value):
        if type(value) is V.SymInt:
            return bounds(self, value)
        return int_v(self, obj, value)

    def fval(self, obj, value):
        if type(value) is V.SymInt:
            value = value + 0.0
        if type(value) is V.SymReal:
            return bounds(self, value)
        return float_v(self, obj, value)
    p.set(traitlets.Int, "validate", ival)
    p.set(traitlets.Float, "validate", fval)
