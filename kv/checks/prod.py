"""Offline/online checker for what happens to each produced message."""
import collections
import json

RETRIABLE = {2, 3, 5, 6, 7, 14, 15, 16, 19, 20}


class Ledger(object):
    """Every attempt to deliver every message, from the brokers' side."""

    def __init__(self, ctx, cl):
        self.ctx, self.cl = ctx, cl
        self.accepted = []                 # uids in the order produce() took them
        self.topic = {}
        self.attempts = collections.defaultdict(list)   # uid -> [dict]
        self.by_corr = {}
        self.appended = collections.Counter()
        self.log = collections.defaultdict(list)         # (topic, pid) -> [uid]
        cl.on_request = self.on_request
        cl.on_sent = self.on_sent
        cl.on_append = self.on_append
        cl.on_conn_gone = self.on_gone

    def uid(self, value):
        return json.loads(value)["u"]

    # -- events ------------------------------------------------------------
    def on_request(self, c):
        if c.api != "produce":
            return
        corr = (c.conn.cid, c.corr)
        recs = self.by_corr[corr] = []
        for t in c.body["topics"]:
            for p in t["partitions"]:
                for m in p["messages"]:
                    u = self.uid(m[3])
                    prev = self.attempts[u][-1] if self.attempts[u] else None
                    if prev is not None:
                        st = prev["status"]
                        if st == "acked" and not prev["unsure"]:
                            self.cl.fail("message %r was acknowledged and is sent again" % u)
                        elif st == "fatal" and not prev["unsure"]:
                            self.cl.fail("message %r was rejected with fatal code %s and is sent again" % (u, prev["code"]))
                        elif st == "outstanding":
                            self.cl.fail("message %r is sent again while its previous request is outstanding" % u)
                        self.ctx.count("retries")
                    if self.topic.get(u) not in (None, t["name"]):
                        self.cl.fail("message %r for topic %s was sent to topic %s" % (u, self.topic[u], t["name"]))
                    a = {"corr": corr, "tp": (t["name"], p["partition_id"]), "status": "outstanding", "code": None, "unsure": False,
                         "broker": c.broker.id}
                    self.attempts[u].append(a)
                    recs.append((u, a))

    def on_append(self, c, topic, pid, items):
        for k, v in items:
            u = self.uid(v)
            self.appended[u] += 1
            self.log[(topic, pid)].append(u)

    def on_sent(self, c, how):
        """how: 'resp' or the fault that kept the answer from the client."""
        recs = self.by_corr.get((c.conn.cid, c.corr))
        if recs is None:
            return
        codes = {}
        if how == "resp":
            for t in c.response["topics"]:
                for p in t["partitions"]:
                    codes[(t["name"], p["partition_id"])] = p["error_code"]
        for u, a in recs:
            if how != "resp":
                a["status"] = "lost"
                continue
            a["code"] = codes[a["tp"]]
            a["status"] = "acked" if a["code"] == 0 else ("retriable" if a["code"] in RETRIABLE else "fatal")
            a["at"] = self.cl.loop.time()
            self.ctx.count("outcome_" + a["status"])

    def on_gone(self, conn):
        for corr, recs in self.by_corr.items():
            if corr[0] == conn.cid:
                for u, a in recs:
                    if a["status"] == "outstanding":
                        a["status"] = "lost"
                        self.ctx.count("outcome_lost")
                    elif self.cl.loop.time() - a.get("at", -9) < .0015:
                        a["unsure"] = True  # the answer may not have been read

    # -- verdicts ----------------------------------------------------------
    def state(self, u):
        if not self.attempts[u]:
            return "pending"
        a = self.attempts[u][-1]
        if a["status"] == "outstanding":
            return "outstanding"
        if a["unsure"]:
            return "unsure"
        return {"acked": "acked", "fatal": "fatal", "retriable": "pending", "lost": "pending"}[a["status"]]

    def quiescent(self, producer, label):
        states = collections.Counter(self.state(u) for u in self.accepted)
        n = producer.unsent_count
        lo = states["pending"]
        hi = lo + states["unsure"]
        self.ctx.check(not states["outstanding"], "%s: %d messages outstanding although no operation is", label, states["outstanding"])
        if not lo <= n <= hi:
            bad = [(u, [(a["status"], a["code"]) for a in self.attempts[u]]) for u in self.accepted if self.state(u) == "pending"][:6]
            self.ctx.violation("%s: %d messages pending in the producer, but %d are neither acknowledged nor fatally rejected: %r" % (
                label, n, lo, bad))
        self.ctx.count("quiescent_checks")
        for u in self.accepted:
            extra = sum(1 for a in self.attempts[u] if a["status"] == "lost" or a["unsure"] or a["code"] in (7, 20))
            self.ctx.check(self.appended[u] <= 1 + extra, "%s: message %r was appended %d times with %d unanswered attempts",
                           label, u, self.appended[u], extra)

    def delivered(self, label):
        for u in self.accepted:
            st = self.state(u)
            self.ctx.check(st in ("acked", "fatal", "unsure"), "%s: message %r is %s, attempts %r", label, u, st,
                           [(a["status"], a["code"]) for a in self.attempts[u]])
            if st == "acked":
                self.ctx.check(self.appended[u] >= 1, "%s: message %r never reached a log", label, u)
