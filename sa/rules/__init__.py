RULES = {}


def rule(pid):
    def deco(f):
        RULES.setdefault(pid, []).append(f)
        return f
    return deco


def load_all():
    import importlib
    for m in ("measure", "model", "grid", "density", "fit", "greedy", "slater", "reject", "state"):
        importlib.import_module("sa.rules." + m)
