"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


PROTO = ["kiel/protocol/primitives.py", "kiel/protocol/part.py", "kiel/protocol/request.py"]
APIS = ["kiel/protocol/%s.py" % n for n in (
    "metadata", "produce", "fetch", "offset", "offset_commit", "offset_fetch", "coordinator",
    "join_group", "heartbeat", "leave_group", "sync_group", "describe_groups", "list_groups")]

prop("C01", "Requests are encoded exactly as the Kafka protocol lays them out",
     "Serializing any request of any supported API yields exactly the bytes the Kafka protocol defines for it: the API's key, the version, the request's own correlation id and the client id, followed by every documented field in order, with the documented width, signedness and big-endian byte order, UTF-8 strings and byte strings prefixed by their length in bytes, -1 for null and arrays prefixed by their element count. "
     "No field value inside its documented range changes another field's bytes, is truncated, or makes serialization fail.",
     ["inputs"], "all request classes (13 APIs, all versions defined), all field values in range: extreme integers, empty/null/non-ASCII strings, binary keys and values, empty, nested and null arrays",
     "The tests compare one hand-written byte string per API; widths, signs, multi-byte strings, nulls and empty arrays in other positions are never exercised, and several APIs are tested with a single element in each array.",
     PROTO + APIS + ["kiel/constants.py"],
     [("recursive render of parts into a struct format", "kiel/protocol/part.py Part.render"),
      ("length-prefixed primitives", "kiel/protocol/primitives.py VariablePrimitive.render, Array.render"),
      ("request preamble", "kiel/protocol/request.py Request.serialize")],
     observe=["bytes returned by serializing a request", "bytes received by a broker socket"])

prop("C02", "Responses are decoded to exactly what the broker encoded",
     "Parsing any well-formed response of any supported API yields exactly the values the broker encoded, for every field and every element, in order, wherever in a larger buffer the part starts. "
     "Byte strings that are valid UTF-8 come back as text and all others as the unchanged bytes, null comes back as None, and parsing consumes exactly the encoded length.",
     ["inputs"], "all response classes, all field values in range, any number of topics/partitions/brokers/members, text and binary payloads",
     "One hand-written response per API is parsed in the tests; nothing varies counts, nulls, signs, error codes or non-ASCII content.",
     PROTO + APIS + ["kiel/protocol/response.py"],
     [("recursive parse with running offset", "kiel/protocol/part.py Part.parse"),
      ("length-prefixed parse and UTF-8 fallback", "kiel/protocol/primitives.py VariablePrimitive.parse, Array.parse")],
     observe=["attributes of the parsed response"])

prop("C03", "Message sets survive encoding with every compression setting",
     "For any list of messages (null, empty, text or binary keys and values of any size) and any supported compression setting, the rendered message set has correct sizes and a correct CRC32 on every message, is readable by an independent Kafka implementation as the same keys and values in the same order, and parses back to equal messages. "
     "Sets that a broker stored as any mix of plain, gzip and snappy entries parse to all the contained messages, in order, with their own offsets.",
     ["inputs"], "all lists of messages including boundary sizes and CRC values with the top bit set; all of none/gzip/snappy and mixes of them",
     "Tests render two or three short text messages per codec and never check CRCs of arbitrary payloads, binary payloads or mixed sets.",
     ["kiel/protocol/messages.py", "kiel/compression/gzip.py", "kiel/compression/snappy.py", "kiel/protocol/primitives.py"],
     [("CRC and size computation", "kiel/protocol/messages.py Message.render, MessageSet.render"),
      ("compressed wrapper message", "kiel/protocol/messages.py MessageSet.compressed"),
      ("recursive parse of compressed entries", "kiel/protocol/messages.py MessageSet.parse, Message.parse")],
     observe=["rendered bytes", "parsed messages and offsets", "bytes a broker receives in produce requests"])

prop("C04", "A fetch response cut off mid-message yields exactly the whole messages",
     "A broker may cut a partition's message set at any byte to honour the size limit; for every cut point the consumer sees exactly the complete messages before the cut, in order and unaltered, and never an altered, invented or mis-keyed one. "
     "What follows the cut partition in the same response (other partitions, other topics) is decoded exactly as if nothing had been cut.",
     ["inputs"], "every byte position of a cut in every partition of multi-partition responses, plain and compressed sets, arbitrary payloads",
     "One test cuts one single-partition set at one point; cuts inside other fields, at message boundaries and ahead of further partitions are never tried.",
     ["kiel/protocol/messages.py", "kiel/protocol/fetch.py"],
     [("tolerating a partial trailing message", "kiel/protocol/messages.py MessageSet.parse")],
     observe=["parsed fetch responses", "messages returned by consume()"])

prop("C05", "Compression codecs are lossless and interoperable",
     "For every byte string, compressing then decompressing with gzip or snappy returns the identical bytes, and the compressed form is readable by other implementations: a standard gzip stream, or the xerial snappy framing (magic header, version 1/compatible 1, length-prefixed raw snappy blocks of at most 32 KiB of input). "
     "Streams produced by other implementations with any legal block sizes decompress to exactly their content.",
     ["inputs"], "all byte strings including empty, incompressible and multi-block ones around the 32 KiB boundaries; foreign streams with arbitrary block splits",
     "Tests round-trip one short string per codec; block boundaries, tiny final blocks and foreign framings are never tried.",
     ["kiel/compression/gzip.py", "kiel/compression/snappy.py"],
     [("xerial block framing", "kiel/compression/snappy.py compress, decompress"), ("gzip container", "kiel/compression/gzip.py")],
     observe=["compressed bytes", "decompressed bytes"])

CONN = ["kiel/connection.py", "kiel/protocol/request.py"]
prop("C06", "Every response reaches exactly the request it answers",
     "With any number of requests of any APIs in flight on one connection, each pending request completes with the decoded response that carries its own correlation id, whatever order responses arrive in and however the bytes are split or coalesced. "
     "No two requests created in a process share a correlation id, ids always fit the protocol's 32-bit field, and each request is written to the socket whole, exactly once and preceded by its length.",
     ["schedules", "inputs"], "all interleavings of concurrent sends, all response orders, all segmentations of the byte stream, correlation ids over the whole 32-bit range",
     "Tests use a mocked stream with one or two requests answered in order; TCP segmentation and reordering never occur.",
     CONN,
     [("pending futures keyed by correlation id", "kiel/connection.py Connection.send, read_loop, read_message"),
      ("id generation", "kiel/protocol/request.py generate_correlation_id")],
     state=[("pending", "correlation id -> future", "kiel/connection.py"), ("api_correlation", "correlation id -> api name", "kiel/connection.py")],
     observe=["futures returned by send()", "bytes at the broker socket"])

prop("C07", "Every request settles exactly once, whatever happens to its connection",
     "If a connection is closed by the broker, reset, cut in the middle of a response, fed an undecodable or unsolicited response, or closed locally, every request outstanding on it fails promptly with an error, none is left pending forever, and none that completed changes its outcome. "
     "From then on the connection reports itself as closing and any further send fails immediately without touching the network.",
     ["fault_sequences", "crash_points"], "every kind of connection loss at every byte of a response and at every point between requests, any number of outstanding requests",
     "Tests mock the stream, so no request is ever outstanding when a real socket dies; two of the repository's own tests in this area fail with the installed tornado.",
     ["kiel/connection.py", "kiel/clients/client.py"],
     [("failing pending futures", "kiel/connection.py Connection.abort, close, socket_error_handling")],
     state=[("closing", "connection no longer usable", "kiel/connection.py")],
     observe=["futures returned by send()", "sockets seen by the broker"])

prop("C08", "Connecting succeeds if any bootstrap host can serve metadata",
     "Given a list of bootstrap hosts (with or without a port), connecting tries them in order and succeeds with the metadata of the first one that answers a metadata request, whatever the ones before it do: refuse the connection, accept and close, or die before or in the middle of the answer. "
     "If none answers, connecting fails with the no-brokers error, and in every case no bootstrap connection is left open.",
     ["fault_sequences", "configurations"], "all lists of bootstrap hosts and all per-host failure modes in all orders",
     "Tests mock connect() failures only; failures after the connection is established are not tried.",
     ["kiel/cluster.py", "kiel/connection.py"],
     [("bootstrap loop", "kiel/cluster.py Cluster.start")],
     observe=["connections and requests at the bootstrap brokers", "result of connect()"])

prop("C09", "After a metadata refresh the client's view is the cluster's actual topology",
     "Whenever connecting or a metadata refresh finishes, the client knows exactly the topics, partitions and leaders the cluster reports, including those of topics that were never in trouble, and holds exactly one live connection to each reported broker that is reachable; brokers no longer reported are disconnected. "
     "This holds after any sequence of leader moves, broker loss, restart, addition or removal, transient metadata errors and overlapping refreshes, as long as some connected broker still answers; a reported broker that refuses connections is tried again until it accepts or is no longer reported.",
     ["histories", "schedules", "fault_sequences"], "all sequences of topology changes and transient metadata errors, including several refreshes running concurrently",
     "Tests feed two or three canned metadata responses to mocked connections; no test has concurrent refreshes or checks untouched topics after a partial refresh.",
     ["kiel/cluster.py", "kiel/clients/client.py"],
     [("heal loop", "kiel/cluster.py Cluster.heal, process_brokers, process_topics"), ("heal trigger", "kiel/clients/client.py Client.send")],
     state=[("conns/topics/leaders", "known brokers, topics and partition leaders", "kiel/cluster.py")],
     observe=["cluster topics/leaders/connections", "connections at the brokers", "where later requests are sent"])

prop("C10", "One broker's or partition's failure never discards what others returned",
     "When a fetch or produce spans several brokers or partitions and some of them fail - the connection is lost, the leader is unknown, or the partition answers with any error code, documented or not - the messages and results that the other partitions returned in the same operation are still delivered and the operation does not raise. "
     "The failing partitions' positions are left where they were - except that an out-of-range answer makes a single consumer look the start position up again - so their messages are delivered by later calls once the fault has passed.",
     ["fault_sequences", "inputs"], "all error codes (the whole 16-bit range) and connection failures on any subset of the brokers/partitions taking part in a fetch or produce operation",
     "Tests inject one error code at a time on one partition of one broker.",
     ["kiel/clients/client.py", "kiel/clients/consumer.py", "kiel/clients/single.py", "kiel/clients/producer.py", "kiel/constants.py"],
     [("per-response handling", "kiel/clients/client.py Client.send"), ("per-partition error handling", "kiel/clients/consumer.py handle_fetch_response")],
     observe=["return values of consume()", "requests at the brokers"])

prop("C11", "Produced messages are appended, pending, or fatally rejected - never lost",
     "Every message accepted by produce() is at any quiescent moment exactly one of: acknowledged by its partition's leader, still pending in the producer and sent again by later flushes, or answered by the leader with an error that is not retriable; it is never silently dropped by a lost connection, a leader change, a topic that vanished, or calls that overlap, as long as some connected broker stays reachable. "
     "A message that was acknowledged or fatally rejected is never sent again, and only messages whose request got no answer can be appended more than once.",
     ["fault_sequences", "schedules", "histories"], "all interleavings of produce/flush calls with retriable and fatal error codes, connection losses before and after the append, leader moves and metadata errors",
     "Tests check one retriable and one fatal code on a mocked broker; no test loses a connection with messages in flight.",
     ["kiel/clients/producer.py", "kiel/clients/client.py", "kiel/iterables.py"],
     [("unsent/sent bookkeeping", "kiel/clients/producer.py flush, queue_retries, handle_produce_response"), ("draining", "kiel/iterables.py drain")],
     state=[("unsent", "messages waiting for a flush", "kiel/clients/producer.py"), ("sent", "messages in flight", "kiel/clients/producer.py")],
     observe=["messages appended to the brokers' logs", "pending count", "acknowledgements sent"])

prop("C12", "Each message goes, unaltered, to the leader of the partition chosen for it",
     "Each produced message is sent with the key and value the configured key maker and serializer gave for it, to the broker that leads the partition the configured partitioner chose (among those offered) for that key, and the partitioner is always offered exactly the partitions currently known for that topic. "
     "By default values are JSON with sorted keys, keys are null and any of the topic's partitions may be chosen; keys and values may be text, bytes, null or anything that can be made a string of (0 and empty ones included), a message the caller's own key maker or serializer refuses raises from that produce() call alone and leaves everything else as it was, and the configured acknowledgement level, timeout and compression appear in every produce request.",
     ["inputs", "configurations", "histories"], "all messages, serializers, key makers, partitioners, compression settings and topologies, including after leaders move",
     "Tests cover the default serializer and one partitioner with a single topic on one or two mocked brokers.",
     ["kiel/clients/producer.py", "kiel/protocol/produce.py", "kiel/cluster.py"],
     [("routing", "kiel/clients/producer.py flush"), ("serialization", "kiel/clients/producer.py produce")],
     observe=["produce requests at each broker"])

prop("C13", "Batching: nothing waits beyond the batch size, order within a partition is kept",
     "A producer sends nothing until the configured number of messages is pending across all topics, and as soon as it is, everything pending is sent, with at most one request per leader; a batch size of 0 or 1 sends every message at once and an explicit flush sends whatever is pending. "
     "In the absence of errors each partition's log receives its messages in the order produce() was called, each exactly once.",
     ["histories", "configurations", "schedules"], "all sequences of produce/flush calls over several topics, all batch sizes, overlapping calls",
     "Tests use two batch sizes and a handful of messages on one topic.",
     ["kiel/clients/producer.py"],
     [("batch threshold", "kiel/clients/producer.py produce"), ("grouping by leader/topic/partition", "kiel/clients/producer.py flush")],
     observe=["produce requests over time", "pending count", "broker logs"])

prop("C14", "Closing a producer delivers everything still pending",
     "When close() on a producer returns, every message that was pending when it was called and not fatally rejected has been acknowledged by a leader, provided the cluster's faults (retriable errors, lost connections, leader moves) are temporary and some connected broker stays reachable, also if the application goes on flushing meanwhile; the only messages that may be given up are those of topics the cluster no longer has. "
     "close() terminates once the faults have passed and messages offered after it was called are refused.",
     ["fault_sequences", "crash_points"], "all pending sets at close and all temporary fault sequences striking the final flushes",
     "Tests check that close() flushes once against a broker that accepts everything.",
     ["kiel/clients/producer.py", "kiel/clients/client.py"],
     [("final flush", "kiel/clients/producer.py wind_down")],
     observe=["broker logs and acknowledgements at the time close() returns"])

prop("C15", "Consuming delivers each partition's log in order, without gaps or duplicates",
     "Across the sequence of consume() calls on a consumer, each partition's messages are returned in offset order, starting from its start position, with none skipped and none repeated, whatever mix of message sizes (each within the byte limits), compression, errors, lost connections, leader moves and empty responses occurs, as long as the position is never out of range and some connected broker stays reachable. "
     "Once faults have passed, every message in the log is returned within a bounded number of further calls, with any JSON value - including null, false, 0 and empty ones - delivered except null.",
     ["fault_sequences", "histories", "inputs"], "all logs (plain, compressed, mixed), byte limits, and fault sequences, over any number of partitions and brokers",
     "Tests fetch one or two canned message sets; no test runs a consumer across faults and compares everything it returned with the log.",
     ["kiel/clients/consumer.py", "kiel/clients/client.py", "kiel/protocol/messages.py"],
     [("position advance", "kiel/clients/consumer.py deserialize_messages"), ("fetch at position", "kiel/clients/consumer.py consume")],
     state=[("offsets", "next offset per topic/partition", "kiel/clients/consumer.py")],
     observe=["return values of consume()", "fetch offsets at the brokers"])

prop("C16", "The start position a caller asks for is the position consumption starts at",
     "A single consumer's first successful consume() of a topic starts every partition at the offset the brokers gave for the requested start - beginning, end, or a datetime/timedelta translated to whole epoch seconds, end if none is given - and never at an offset no broker gave. "
     "This holds when the topic was not known when connecting, and when the offset lookup first fails with a retriable error or a lost connection: the lookup is then repeated with the same start before anything is fetched; a fatal lookup error yields an empty result and the next call tries again, and after an out-of-range answer the next call looks up the start it is given.",
     ["inputs", "fault_sequences"], "all start values, all partition/leader layouts and all fault sequences striking the offset lookup, topics known or not at connect",
     "Tests check one call with canned offsets per start kind; failures during the lookup are followed for one call and do not look at the fetched offset.",
     ["kiel/clients/single.py", "kiel/clients/consumer.py"],
     [("start translation", "kiel/clients/single.py start_to_timestamp"), ("lookup", "kiel/clients/single.py determine_offsets, handle_offset_response"),
      ("synced tracking", "kiel/clients/consumer.py consume")],
     state=[("synced_offsets", "topics whose positions are determined", "kiel/clients/consumer.py")],
     observe=["offset and fetch requests at the brokers", "return values of consume()"])

prop("C17", "Each fetch asks each assigned partition exactly once, of its leader",
     "Every fetch round for a topic asks for exactly the partitions assigned to the consumer, each exactly once, each from the broker that leads it according to the latest metadata, at the consumer's current position, with one request per leader. "
     "Each request carries the configured wait time and minimum bytes, and the configured maximum bytes divided evenly among the partitions asked of that leader.",
     ["configurations", "histories"], "all topologies and all values of the consumer's limits, before and after leader moves",
     "Tests check one layout of two leaders with default limits.",
     ["kiel/clients/consumer.py", "kiel/cluster.py"],
     [("grouping by leader", "kiel/clients/consumer.py consume")],
     observe=["fetch requests at the brokers"])

prop("C18", "A grouped consumer resumes each partition from its committed offset",
     "After joining a group and after every rebalance, a grouped consumer's first fetch of each partition it holds is at the offset committed for the group (every partition having one), and it fetches only partitions currently allocated to it; a rebalance at any moment, including while offsets are being looked up, forces a new lookup before the next fetch. "
     "Retriable lookup errors and lost coordinator connections are retried, a fatal one, like an out-of-range answer to a fetch, yields nothing and a fresh lookup on the next call.",
     ["schedules", "fault_sequences", "histories"], "all committed-offset states, all rebalance timings relative to consume(), all fault sequences on the lookup",
     "Tests mock the allocator and never change the allocation while a call is in progress.",
     ["kiel/clients/grouped.py", "kiel/clients/consumer.py", "kiel/zookeeper/allocator.py"],
     [("offset fetch", "kiel/clients/grouped.py determine_offsets, handle_offset_fetch_response"), ("desync on rebalance", "kiel/clients/grouped.py __init__")],
     observe=["offset fetch and fetch requests at the brokers", "return values of consume()"])

prop("C19", "Commits record exactly what was delivered, until the coordinator accepts them",
     "Every offset a grouped consumer commits is the position just after the last message it delivered (or started from) in a partition it holds, never beyond what was delivered and never for a partition it has not yet positioned; commits go to the group's coordinator. "
     "A commit that fails retriably, for any subset of its partitions, or whose connection is lost, is sent again until every partition is accepted, fatally rejected (which is not sent again) or no longer held; a too-large metadata error is retried with blank metadata, and messages fetched are returned even if their automatic commit fails; with autocommit off nothing is committed unless asked.",
     ["fault_sequences", "schedules", "histories"], "all interleavings of consume/commit/rebalance and all per-partition commit error patterns and coordinator losses",
     "Tests answer one commit with one error code for every partition at once and never rebalance in between.",
     ["kiel/clients/grouped.py"],
     [("commit construction and retry", "kiel/clients/grouped.py commit_offsets, handle_offset_commit_response")],
     state=[("topics_to_commit", "topics consumed since the last accepted commit", "kiel/clients/grouped.py")],
     observe=["offset commit requests at the coordinator", "committed offsets"])

prop("C20", "The group coordinator is found, and found again, despite failing brokers",
     "Connecting a grouped consumer determines the coordinator from whichever broker answers, trying the others when one fails retriably or drops the connection, and never gives up while some broker can answer nor loops forever after a fatal answer. "
     "When the coordinator moves or its connection is lost later, the consumer asks again and continues with the new coordinator.",
     ["fault_sequences", "configurations"], "all sequences of retriable/fatal errors and lost connections over any number of brokers, and coordinator moves at any point",
     "Tests give one retriable error followed by success on mocked connections that never drop.",
     ["kiel/clients/grouped.py"],
     [("discovery loop", "kiel/clients/grouped.py determine_coordinator, handle_group_coordinator_response")],
     observe=["coordinator requests at the brokers", "targets of offset fetches and commits"])

prop("C21", "The default allocation covers every partition once, evenly and stably",
     "For any group members and partitions, the default allocation gives every partition to exactly one current member, no member holds two more than any other, and the result depends only on the sets of members and partitions, not on the process, order or history computing it. "
     "Custom allocation functions are always given the sorted members and sorted partitions, and a member the result does not mention simply holds nothing.",
     ["inputs"], "all member and partition sets, any names and counts including none and fewer partitions than members",
     "Tests allocate a handful of partitions to two or three members.",
     ["kiel/clients/grouped.py", "kiel/zookeeper/allocator.py"],
     [("round robin", "kiel/clients/grouped.py naive_allocator"), ("sorting", "kiel/zookeeper/allocator.py rebalance")],
     observe=["allocation of each consumer", "arguments given to the allocation function"])

prop("C22", "Group members converge on one agreed allocation after any change",
     "Whenever membership and partitions have stopped changing and all notifications are delivered, every live member's allocation equals its own share of the allocation function applied to the actual live members and the actual shared partitions, so together they cover every partition exactly once. "
     "This holds whatever order, coalescing or overlap the notifications arrive in, also for consumers in worker processes forked from one parent, and every change of a member's inputs triggers its rebalance callback.",
     ["schedules", "histories"], "all sequences of joins, leaves, session expirations and partition additions/removals, all notification interleavings including concurrent membership and partition callbacks",
     "Tests call the callbacks one at a time on one mocked allocator; there is never a second member or a second thread.",
     ["kiel/zookeeper/allocator.py", "kiel/zookeeper/party.py", "kiel/zookeeper/shared_set.py"],
     [("rebalance on change", "kiel/zookeeper/allocator.py on_group_members_change, on_partition_change, rebalance")],
     state=[("members/partitions/mapping", "inputs and result of the allocation", "kiel/zookeeper/allocator.py")],
     observe=["allocation of every member against the state stored in zookeeper"])

prop("C23", "Concurrent updates of the shared partition set are never lost",
     "However many members add and remove partitions concurrently, the shared set ends up as some sequential execution of those updates would leave it: nothing added is lost to another member's write, only what was removed is missing, and every member is notified of the final content. "
     "Adding what is present or removing what is absent writes nothing, non-ASCII names and the first use of an empty or missing set work, and a lock lost with its session loses no update.",
     ["schedules", "inputs"], "all interleavings of concurrent additions and removals by several members with delays between their reads and writes, all item names",
     "Tests use a mocked zookeeper client, so neither the lock nor the stored bytes are ever real.",
     ["kiel/zookeeper/shared_set.py", "kiel/zookeeper/allocator.py"],
     [("locked read-modify-write", "kiel/zookeeper/shared_set.py add_items, remove_items"), ("serialization", "kiel/zookeeper/shared_set.py serialize")],
     observe=["data stored in zookeeper and its versions", "change notifications"])

prop("C24", "Group membership follows live sessions and survives rejoining",
     "A member is listed in its group from the time its join returns for as long as its session lives, and it disappears when it leaves, closes or its session expires; every other member is notified with the current list each time. "
     "Joining over a leftover entry of an earlier session takes ownership of it so that it does not vanish when the old session expires, joining twice is harmless, leaving when already gone succeeds, and a consumer whose session expired joins again once it is connected.",
     ["histories", "crash_points", "schedules"], "all sequences of join, leave, crash, expiry and rejoin under the same name by several sessions",
     "Tests mock the zookeeper client; no session ever expires.",
     ["kiel/zookeeper/party.py", "kiel/zookeeper/allocator.py"],
     [("ephemeral nodes", "kiel/zookeeper/party.py join, leave"), ("ownership takeover", "kiel/zookeeper/party.py join")],
     observe=["nodes and owners in zookeeper", "member lists delivered to each member"])

prop("C25", "Closing releases everything and later calls are harmless",
     "After close() on any client returns or raises, no socket to any broker is left open, a grouped consumer has left its group and ended its zookeeper session, and nothing reconnects later; this holds even when winding down fails, or a refresh, a call or the connecting itself was under way (calls in progress end, if need be with an error). "
     "Calls made after close() started (produce, flush, consume, commit_offsets) send nothing and do not raise.",
     ["crash_points", "schedules", "fault_sequences"], "all client kinds, closed at any point relative to outstanding operations and faults",
     "Tests assert that mocked connections' close() is called once.",
     ["kiel/clients/client.py", "kiel/clients/producer.py", "kiel/clients/consumer.py", "kiel/clients/grouped.py", "kiel/cluster.py", "kiel/zookeeper/allocator.py"],
     [("close", "kiel/clients/client.py Client.close"), ("stop", "kiel/cluster.py Cluster.stop; kiel/zookeeper/allocator.py stop")],
     observe=["open connections at the brokers and at zookeeper", "requests after close"])

prop("C26", "A message that cannot be deserialized is skipped alone",
     "When the configured deserializer raises for some messages, exactly those messages are skipped: all others in the same and other partitions are returned in order, consume() does not raise, and consumption moves past the bad messages wherever they lie, including at the end of a fetched set. "
     "No message is returned twice because a neighbour was bad.",
     ["inputs"], "all placements of undecodable messages within plain and compressed sets across partitions",
     "One test puts one bad message in the middle of a set.",
     ["kiel/clients/consumer.py"],
     [("per-message error handling", "kiel/clients/consumer.py deserialize_messages")],
     observe=["return values of consume()", "fetch offsets at the brokers"])

prop("C27", "Topics created after connecting are usable at once; unknown ones are harmless",
     "Producing to or consuming from a topic the client has not seen triggers a metadata refresh, after which a topic that meanwhile exists is used by that very call of a producer or single consumer. "
     "A topic that does not exist makes the call return without sending data, raising, or disturbing the client's other topics, and the same call works once the topic exists.",
     ["histories", "fault_sequences"], "all orders of topic creation/deletion relative to produce and consume calls on producers and single consumers",
     "Tests check one unknown topic with a mocked heal.",
     ["kiel/clients/producer.py", "kiel/clients/consumer.py", "kiel/cluster.py"],
     [("refresh on unknown topic", "kiel/clients/producer.py produce; kiel/clients/consumer.py consume")],
     observe=["requests at the brokers", "return values"])

prop("C28", "A group as a whole delivers every message despite any change of members",
     "While grouped consumers of one group join, close, crash and lose their zookeeper session, partitions are added and requests fail, every message from the group's initial offsets on is returned by a consume() call of some member, except what a crashed member's unfinished call had been sent. "
     "While the group is settled no message is returned twice, messages of a partition are returned by its current holder from the committed offset on, and consume() returns what it fetched even when its automatic commit fails or close() is called meanwhile.",
     ["histories", "schedules", "crash_points", "fault_sequences"], "all sequences of joins, closes, crashes, session losses and partition additions relative to the calls of every member, with faults on any of their requests",
     "Tests have one grouped consumer with a mocked allocator; there is no group, no crash and no handing over.",
     ["kiel/clients/grouped.py", "kiel/clients/consumer.py", "kiel/zookeeper/allocator.py", "kiel/zookeeper/party.py", "kiel/zookeeper/shared_set.py"],
     [("delivery and autocommit", "kiel/clients/grouped.py consume, commit_offsets"), ("handing over", "kiel/clients/grouped.py on_rebalance, determine_offsets; kiel/zookeeper/allocator.py rebalance, stop")],
     observe=["return values of every member's consume()", "fetch responses sent", "committed offsets"])

prop("C29", "A client outlives the loss of all brokers without losing its place",
     "When all brokers go away at any moment and come back, perhaps fewer and with other leaders, calls made meanwhile end (with a no-brokers error or without result) and connect() restores the client: one connection to each broker and no more, however often it is called and whatever calls are under way. "
     "A producer then delivers every message it accepted and a consumer goes on exactly behind the last message returned, neither losing nor repeating any, its commits following.",
     ["crash_points", "fault_sequences", "histories"], "all moments of a total outage relative to calls under way on producers, single and grouped consumers, all sets of brokers returning and calls made meanwhile",
     "No test ever loses all brokers or connects a client twice.",
     ["kiel/cluster.py", "kiel/connection.py", "kiel/clients/client.py", "kiel/clients/producer.py", "kiel/clients/consumer.py", "kiel/clients/grouped.py"],
     [("connecting", "kiel/cluster.py start, heal, drop_closed_conns, process_brokers"), ("failed rounds", "kiel/clients/client.py send"), ("requeueing", "kiel/clients/producer.py send_unsent"),
      ("failed autocommit", "kiel/clients/grouped.py consume")],
     observe=["connections, logs and committed offsets at the brokers", "return values"])

prop("C30", "Nothing accumulates in a client however long it is used",
     "What a client keeps - memory reachable from it or from kiel's modules, pending entries, tasks, timers, sockets, zookeeper watches - does not grow with the number of operations carried out, whatever errors, lost connections, unknown topics, undecodable messages, rebalances or session losses they met. "
     "Once operations have ended and pending messages are delivered, a client that has done ten times as much holds no more than one that did a tenth.",
     ["histories", "fault_sequences"], "arbitrarily long histories of operations and faults on every kind of client",
     "Tests make a handful of calls on one object and never look at what is left behind.",
     ["kiel/connection.py", "kiel/cluster.py", "kiel/clients/client.py", "kiel/clients/producer.py", "kiel/clients/consumer.py", "kiel/clients/grouped.py", "kiel/zookeeper/allocator.py"],
     [("pending requests", "kiel/connection.py send, read_loop, read_message"), ("sent messages", "kiel/clients/producer.py send_unsent, handle_produce_response"), ("lost connections", "kiel/cluster.py drop_closed_conns, process_brokers")],
     observe=["objects reachable from the client", "live kiel objects, tasks, timers, sockets, threads, watches"])

prop("C31", "What is produced is what is consumed, end to end",
     "Whatever value a producer accepted - any JSON value but null with the default pair, anything with a matching custom serializer and deserializer - is given to every consumer of the topic equal and of the same type, whatever the compression, batch size, keys and partitioner, and whether the consumer is single or grouped. "
     "Each consumer is given it exactly as often as it was appended (once unless an acknowledgement went missing), in the order of its partition's log, which without faults is the order in which one producer produced; nothing that was not produced is ever returned.",
     ["inputs", "configurations", "histories", "schedules", "fault_sequences"], "all values, client configurations and interleavings of any number of producers and consumers on shared topics, with temporary faults",
     "No test connects a producer's output to a consumer's input.",
     ["kiel/clients/producer.py", "kiel/clients/consumer.py", "kiel/clients/single.py", "kiel/clients/grouped.py", "kiel/protocol/messages.py", "kiel/compression/gzip.py", "kiel/compression/snappy.py"],
     [("serializing", "kiel/clients/producer.py produce"), ("message sets", "kiel/protocol/messages.py MessageSet.compressed, parse"), ("deserializing", "kiel/clients/consumer.py deserialize_messages")],
     observe=["values given to produce()", "broker logs", "values returned by consume()"])

prop("C32", "A zookeeper operation that fails is reported, never passed over",
     "When any zookeeper operation that joining, updating or leaving a group needs is answered with an error, or the allocation function raises while joining, connect(), start(), add_partitions(), remove_partitions() and stop() end - promptly, with that very error - and do not pretend success; "
     "whenever one of them reports success, its effect is in place: the member is listed under its own session, the partitions are in or out of the shared set. Leaving ends the session, and with it membership and locks, even if an operation failed before or while leaving, so that the group goes on working for the others.",
     ["fault_sequences", "histories"], "an error at any operation of any history of joining, updating and leaving",
     "Tests replace kazoo by mocks and let one or two of the calls raise.",
     ["kiel/zookeeper/allocator.py", "kiel/zookeeper/party.py", "kiel/zookeeper/shared_set.py", "kiel/clients/grouped.py"],
     [("starting and stopping", "kiel/zookeeper/allocator.py start, stop, create_attempter"), ("connect()", "kiel/clients/grouped.py connect, wind_down"), ("updates", "kiel/zookeeper/shared_set.py add_items, remove_items")],
     observe=["outcomes of calls", "zookeeper's tree and sessions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fd:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fd.write(json.dumps(p) + "\n")
print(len(P))
