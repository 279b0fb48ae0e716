"""All rules."""
import importlib

MODULES = ['auth', 'shares', 'tokens', 'updates', 'shadow', 'frozen', 'slippage', 'params', 'reserves', 'farming', 'near', 'storage', 'oracle', 'twap', 'prorata', 'pricing']


def rules():
    out = []
    for m in MODULES:
        mod = importlib.import_module(m)
        for v in vars(mod).values():
            if isinstance(v, type) and getattr(v, 'id', None) and v.__module__ == m:
                out.append(v())
    return sorted(out, key=lambda r: r.id)
