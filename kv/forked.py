"""Worker processes forked from one parent, each a consumer of the group "g".

python -m kv.forked DIR HOST COUNT JSON-PARTITIONS: worker i keeps its pid, name and allocation in
DIR/i.json; all of them end when the standard input of the parent is closed.
"""
import asyncio
import json
import os
import sys
import time


def worker(i, where, hosts, parts, parent):
    from kiel.clients import GroupedConsumer
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    c = GroupedConsumer(["127.0.0.1:9"], "g", hosts)
    f = c.allocator.start(parts)
    last = None
    while os.getppid() == parent:
        now = {"pid": os.getpid(), "name": c.name, "failed": repr(f.exception()) if f.exception() else None,
               "holds": sorted((t, p) for t, ps in (c.allocation or {}).items() for p in ps)}
        if now != last:
            with open("%s/%d.tmp" % (where, i), "w") as fd:
                json.dump(now, fd)
            os.rename("%s/%d.tmp" % (where, i), "%s/%d.json" % (where, i))
            last = now
        time.sleep(.01)


def main(where, host, count, parts):
    from kv import env
    env.setup()
    import kiel.clients  # noqa: everything is loaded before forking, as in a preforking server
    parts, parent = json.loads(parts), os.getpid()
    for i in range(int(count)):
        if os.fork() == 0:
            try:
                worker(i, where, [host], parts, parent)
            finally:
                os._exit(0)
    sys.stdin.read()


if __name__ == "__main__":
    main(*sys.argv[1:])
