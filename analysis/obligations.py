class Ob:
    """One obligation: property, stable key (no line numbers), verdict, where, what."""

    def __init__(self, prop, key, ok, where, detail=""):
        self.prop, self.key, self.ok, self.where, self.detail = prop, key, bool(ok), where, detail
