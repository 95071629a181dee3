"""Replays one recorded counterexample on the unmodified code.

usage: /opt/venv/bin/python -B replay.py FILE [--flavour lxml|std]
exit 1: the property is violated for these inputs; 0: it is not.
"""
import importlib
import json
import logging
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FASTKML_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)


def main():
    path = sys.argv[1]
    flavour = sys.argv[sys.argv.index("--flavour") + 1] if "--flavour" in sys.argv else "lxml"
    with open(path, encoding="utf-8") as fh:
        rec = json.load(fh)
    import fastkml
    assert os.path.abspath(fastkml.__file__).startswith(REPO + os.sep), fastkml.__file__
    import fastkml.config
    if flavour == "std":
        import xml.etree.ElementTree as et
    else:
        import lxml.etree as et
    fastkml.config.set_etree_implementation(et)
    fastkml.config.set_default_namespaces()
    from sx.env_concrete import ConcreteEnv, Stop
    mod = importlib.import_module("harness." + rec["module"])
    env = ConcreteEnv(rec["inputs"], rec["params"])
    env.flavour = flavour
    try:
        getattr(mod, rec["fn"])(env, **rec["params"])
    except Stop:
        print("the recorded inputs do not meet the harness's assumptions")
    except KeyError as exc:
        if exc.args and exc.args[0] in (None,):
            raise
        tb = traceback.extract_tb(exc.__traceback__)
        if tb[-1].filename.endswith("env_concrete.py"):
            print("execution left the recorded path:", exc)
        else:
            env.failed.append(("unexpected exception KeyError", traceback.format_exc()[-1200:]))
    except Exception as exc:
        env.failed.append((f"unexpected exception {type(exc).__name__}", traceback.format_exc()[-1200:]))
    if env.failed:
        for label, detail in env.failed[:5]:
            print(f"{label}: {detail}")
        print("inputs:", json.dumps(rec["inputs"])[:1500])
        return 1
    print("holds for these inputs")
    return 0


sys.exit(main())
