import importlib
MODULES = ["p_ledger", "p_ledger2", "p_text", "p_rewrite", "p_files", "p_test", "p_values", "p_import", "p_gnucash", "p_generate", "p_determinism", "p_viewer"]
def lookup(prop):
    for m in MODULES:
        f = getattr(importlib.import_module(m), prop.lower(), None)
        if f:
            return f
    raise SystemExit("no check for " + prop)
