"""Shared between C01/C02: schema type <-> kiel classes."""
import importlib

from kv import gen, wire


def classes():
    out = {}
    m = lambda n: importlib.import_module("kiel.protocol." + n)
    produce, fetch, offset, metadata = m("produce"), m("fetch"), m("offset"), m("metadata")
    commit, ofetch, coord = m("offset_commit"), m("offset_fetch"), m("coordinator")
    join, heart, leave, sync = m("join_group"), m("heartbeat"), m("leave_group"), m("sync_group")
    desc, lst = m("describe_groups"), m("list_groups")
    S = m("messages").MessageSet
    tp = lambda mod, part, topic="TopicRequest": {"": getattr(mod, topic), "partitions": {"": part} if part else None}
    out["req"] = {
        "produce": (produce.ProduceRequest, {"topics": tp(produce, produce.PartitionRequest)}),
        "fetch": (fetch.FetchRequest, {"topics": tp(fetch, fetch.PartitionRequest)}),
        "offset": (offset.OffsetRequest, {"topics": tp(offset, offset.PartitionRequest)}),
        "metadata": (metadata.MetadataRequest, {}),
        "offset_commit": (commit.OffsetCommitV0Request, {"topics": tp(commit, commit.PartitionRequest)}),
        "offset_commit:1": (commit.OffsetCommitV1Request, {"topics": tp(commit, commit.PartitionV1Request, "TopicV1Request")}),
        "offset_commit:2": (commit.OffsetCommitV2Request, {"topics": tp(commit, commit.PartitionRequest)}),
        "offset_fetch": (ofetch.OffsetFetchRequest, {"topics": tp(ofetch, None)}),
        "group_coordinator": (coord.GroupCoordinatorRequest, {}),
        "join_group": (join.JoinGroupRequest, {"group_protocols": {"": join.GroupProtocol}}),
        "heartbeat": (heart.HeartbeatRequest, {}),
        "leave_group": (leave.LeaveGroupRequest, {}),
        "sync_group": (sync.SyncGroupRequest, {"assignments": {"": sync.MemberAssignment, "assignment": {
            "": sync.Assignment, "topics": {"": sync.TopicAssignment}}}}),
        "describe_groups": (desc.DescribeGroupsRequest, {}),
        "list_groups": (lst.ListGroupsRequest, {}),
    }
    out["resp"] = {
        "produce": produce.ProduceResponse, "fetch": fetch.FetchResponse, "offset": offset.OffsetResponse,
        "metadata": metadata.MetadataResponse, "offset_commit": commit.OffsetCommitResponse,
        "offset_fetch": ofetch.OffsetFetchResponse, "group_coordinator": coord.GroupCoordinatorResponse,
        "join_group": join.JoinGroupResponse, "heartbeat": heart.HeartbeatResponse,
        "leave_group": leave.LeaveGroupResponse, "sync_group": sync.SyncGroupResponse,
        "describe_groups": desc.DescribeGroupsResponse, "list_groups": lst.ListGroupsResponse,
    }
    out["set"] = S
    out["message"] = m("messages").Message
    return out


REQ_SCHEMA = dict(wire.REQUESTS)
REQ_SCHEMA["offset_commit:1"] = [
    ("group", wire.STR), ("generation", wire.I32), ("consumer_id", wire.I32),
    ("topics", wire.topics([("partition_id", wire.I32), ("offset", wire.I64), ("timestamp", wire.I64),
                            ("metadata", wire.STR)]))]
REQ_SCHEMA["offset_commit:2"] = [
    ("group", wire.STR), ("generation", wire.I32), ("consumer_id", wire.I32), ("retention_time", wire.I64),
    ("topics", wire.topics([("partition_id", wire.I32), ("offset", wire.I64), ("metadata", wire.STR)]))]


def to_kiel(C, t, v, cls_map, rng=None):
    """Builds the kiel value for schema type t."""
    if isinstance(t, list):
        kw = {}
        for name, ft in t:
            sub = (cls_map or {}).get(name)
            val = to_kiel(C, ft, v[name], sub, rng)
            if val is None and rng is not None and rng.random() < .3:
                continue  # an omitted string is null
            kw[name] = val
        return cls_map[""](**kw)
    if isinstance(t, tuple):
        if not v and rng is not None and rng.random() < .3:
            return None
        return [to_kiel(C, t[1], x, cls_map, rng) for x in v]
    if t == wire.MSGSET:
        return C["set"]([(-1, C["message"](magic=0, attributes=0, key=k, value=val)) for k, val in v])
    return v


def to_wire(t, v):
    """Replaces message lists by their encoding."""
    if isinstance(t, list):
        return {n: to_wire(ft, v[n]) for n, ft in t}
    if isinstance(t, tuple):
        return [to_wire(t[1], x) for x in v or []]
    if t == wire.MSGSET:
        return wire.plain_set([(-1, k, val) for k, val in v])
    return v


def compare(t, want, got, path=""):
    """-> None or a description of the first difference."""
    if isinstance(t, list):
        for n, ft in t:
            if not hasattr(got, n):
                return "%s.%s missing" % (path, n)
            d = compare(ft, want[n], getattr(got, n), path + "." + n)
            if d:
                return d
        return None
    if isinstance(t, tuple):
        if not isinstance(got, (list, tuple)):
            return "%s is %r, not a list" % (path, got)
        if len(got) != len(want):
            return "%s has %d elements, not %d" % (path, len(got), len(want))
        for i, (w, g) in enumerate(zip(want, got)):
            d = compare(t[1], w, g, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if t == wire.MSGSET:
        msgs = [(o, m.key, m.value) for o, m in got.messages]
        exp = [(o, gen.decoded(k), gen.decoded(v)) for o, k, v in want]
        if not same(msgs, exp):
            return "%s: messages %s, not %s" % (path, short(msgs), short(exp))
        return None
    exp = gen.decoded(want) if t in (wire.STR, wire.BYTES) else want
    if not same(exp, got):
        return "%s is %s, not %s" % (path, short(got), short(exp))
    return None


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."
