"""setup_cmd: nothing to compile; checks the tools the monitors stand on."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from kv import env, wire  # noqa: E402

env.setup()
import tornado  # noqa: E402,F401
import kazoo  # noqa: E402,F401
import kiel  # noqa: E402

assert os.path.realpath(kiel.__file__).startswith(os.path.realpath(env.REPO) + os.sep), kiel.__file__
m = wire.message(b"k", b"v")
assert wire.read_set(wire.entry(5, m))[0][0] == 5
for codec in (1, 2):
    got = wire.read_set(wire.wrapped(codec, [(0, b"a", b"b"), (1, None, b"c" * 100)]))
    assert [g[2:4] for g in got] == [(b"a", b"b"), (None, b"c" * 100)], got
print("ok")
