"""Harness registry: HARNESSES[name] = function(ctx, **cfg); configs(prop, tier, seed)."""
import importlib
import pkgutil

HARNESSES = {}
_CONFIGS = {}


def harness(f):
    HARNESSES[f.__name__] = f
    return f


def plan(prop):
    def deco(f):
        _CONFIGS.setdefault(prop, []).append(f)
        return f
    return deco


def configs(prop, tier, seed):
    out = []
    seen = set()
    for f in _CONFIGS[prop]:
        for name, cfg in f(tier, seed):
            key = (name, repr(sorted(cfg.items())))
            if key not in seen:
                seen.add(key)
                out.append((name, cfg))
    return out


for _m in pkgutil.iter_modules(__path__):
    importlib.import_module(f"{__name__}.{_m.name}")
