"""Runs one scripted history against kiel; exit 0 if the expectation holds."""
import asyncio  # noqa
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.getcwd())
os.environ.setdefault("KV_REPO", os.getcwd())
from kv import env  # noqa
env.setup()
from kv import wire  # noqa
from kv.broker import Action  # noqa
from kv.runner import Ctx  # noqa
from kv.world import outcome, settle, simulate  # noqa


def run(work, *args, **kw):
    try:
        simulate(Ctx("demo", "quick", 1), work, *args, **kw)
    except BaseException:
        traceback.print_exc()
        os._exit(1)


def done():
    sys.stdout.flush()
    print("ok")
    sys.stdout.flush()
    os._exit(0)
