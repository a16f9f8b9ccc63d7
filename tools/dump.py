"""Run a driver and print what it recorded (for looking at case variety)."""
import sys, json, importlib
sys.path[:0] = ['/verif/harness', '/verif/harness/standin', '/repo']
import core, logging
logging.disable(logging.CRITICAL)


def record(prop, tier='quick', seed=1):
    ctx = core.Ctx(prop, tier, seed)
    out = []
    ctx.validate = lambda *a, **k: out.extend(ctx.events) or ctx.events.clear()
    ctx.model_check = lambda *a, **k: None
    try:
        importlib.import_module('props.' + prop.lower()).run(ctx)
    finally:
        import shutil
        shutil.rmtree(ctx.scratch)
    return out
