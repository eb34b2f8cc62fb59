"""The streaming recorder under the scheduler (C17, C23): its threads, its network thread and scripted satellites on virtual time."""
import re
from vlib import build as B
from vlib.conc import explore
from vlib.http import Session, varint
from checks import sat_common as Sat

SRCS = sorted(set(Sat.SRCS) | {
    "common/platform/network_environment_unix.cpp", "common/timestamp.cpp", "common/chunked_http_framing.cpp", "common/report_request_framing.cpp",
    "common/hex_conversion.cpp", "common/serialization.cpp", "recorder/serialization/report_request_header.cpp",
    "recorder/fork_aware_recorder.cpp", "recorder/stream_recorder/stream_recorder.cpp", "recorder/stream_recorder/stream_recorder_impl.cpp"})
CHUNK = re.compile(rb"([0-9A-Fa-f]{1,8})\r\n")
SPANS = 0x1a     # collector.proto ReportRequest.spans, length delimited


def build():
    return B.build("srec", ["srec.cpp", "fakeevent.cc", "fakenet.cc", "vrt.cc"], SRCS, mode="sched", protos=True,
                   exclude=("network/ares_dns_resolver/ares_dns_resolver.cpp",))


def body(i, n):
    b = ""
    while len(b) < n:
        b += "<%d:%d>" % (i, len(b))
    return b[:n].encode()


def enc(n):
    out = b""
    while n > 127:
        out += bytes([n & 127 | 128])
        n >>= 7
    return out + bytes([n])


class Spans(Session):
    """spans as the recorder frames them: a chunk holding one spans field"""

    def match(self, rest):
        out = []
        m = CHUNK.match(rest)
        if not m:
            ok = re.fullmatch(rb"[0-9A-Fa-f]{0,8}\r?", rest)
            return [(k, 10 ** 9, False) for k in list(self.texts) + [-2]] if ok else []
        n = int(m.group(1), 16)
        for k, t in self.texts.items():
            whole = bytes([SPANS]) + enc(len(t)) + t + b"\r\n"
            r = rest[m.end():]
            if n == len(whole) - 2 and r[:len(whole)] == whole[:len(r)]:
                out.append((k, m.end() + len(whole), len(r) >= len(whole)))
        if n == 0 and b"\r\n"[:len(rest) - m.end()] == rest[m.end():m.end() + 2]:
            out.append((-2, m.end() + 2, len(rest) >= m.end() + 2))
        return out


def common_of(b):
    """the report header's part of the first chunk: its reporter (1) and auth (2) fields"""
    h = b.find(b"\r\n\r\n")
    e = b.find(b"\r\n", h + 4)
    if h < 0 or e < 0:
        return b""
    i = e + 2
    while i < len(b) and b[i] >> 3 in (1, 2):
        n, j = varint(b, i + 1)
        if n is None:
            break
        i = j + n
    return b[e + 2:i]


def decode(tr):
    texts, sess, got, out, now, common = {}, {}, {}, [], 0, None
    i = 0
    while i < len(tr):
        e = dict(tr[i])
        k = e["e"]
        t = e.pop("now", now)
        if t > now:
            out.append({"e": "now", "t": t})
            now = t
        if k == "conn" and e["ok"]:
            sess[e["id"]] = Spans(b"sat", b"", texts)
            got[e["id"]] = b""
        elif k == "rc":
            texts[e["id"]] = body(e["id"], e["len"])
        elif k in ("pr",):
            common = None
        elif k == "write":
            w = bytes.fromhex(e.pop("w"))
            while e["full"] and not e["err"] and i + 1 < len(tr) and tr[i + 1]["e"] == "write" and tr[i + 1]["id"] == e["id"]:
                i += 1
                w += bytes.fromhex(tr[i]["w"])
                e["full"], e["err"] = tr[i]["full"], tr[i]["err"]
            s = sess.get(e["id"])
            if s and not s.head:
                # one recorder's requests all begin alike
                mine = common_of(s.b + w)
                if common is None and mine and b"token" in mine:
                    common = mine
                s.common = common or b"?"
            e["fin"], e["part"], e["counted"] = s.feed(w) if s else ([0], [], 0)
            e["counted"] = min(e["counted"] if e["counted"] is not None else -1, 10 ** 6)
        elif k == "read":
            d = bytes.fromhex(e.pop("d"))
            if e["r"] > 0 and e["id"] in got:
                got[e["id"]] += d
                e["cls"] = Sat.classify(got[e["id"]])
        out.append(e)
        i += 1
    return out


def rand_conf(r, small=True):
    poll = r.choice([50, 100, 100])
    mn = r.choice([300, 500, 1000, 3000])
    return (r.choice([1, 2, 2, 3, 4, 8]), r.choice([1, 1, 2, 2, 3]), poll, r.choice([200, 300, 700, 2000]), r.choice([150, 300, 500]), r.choice([50, 100, 200]),
            mn, mn + r.choice([0, 0, 7]), r.choice([100, 150, 200]), r.choice([0, 0, 0, 30, 100, 250, -1]), 0)


def rand_socket(r):
    if r.random() < 0.45:
        return "c.%dw.%dA" % (r.choice([0, 0, 0, 10, 120]), r.choice([0, 20, 90]))
    if r.random() < 0.2:
        return r.choice("rns")
    s = r.choice("cccd")
    for _ in range(r.randint(1, 4)):
        s += ".%d%s" % (r.choice([0, 0, 20, 50, 100, 150, 200, 400, 700]), r.choice(["w", "w", "s", "p%d" % r.choice([1, 100, 170, 185, 200, 240, 400]), "b", "e", "x", "m", "y"]))
    if r.random() < 0.5:
        s += ".%dA" % r.choice([0, 20, 90])
    return s


def rand_script(r, poll, n, forks=False):
    out, t = [], 0
    for _ in range(n):
        k = r.random()
        if k < 0.45:
            out.append("r%d" % r.choice([9, 12, 20, 110, 118, 119, 120, 230, 300, 600]))
        elif k < 0.65:
            out.append("f%d" % r.choice([0, 10, poll, 2 * poll, 250, 500, 2000]))
        elif k < 0.72:
            out.append("z%d" % r.choice([0, poll, 200, 500, 3000]))
        elif forks and k < 0.85:
            out.append(r.choice(forks))
        else:
            t += r.choice([0, 10, poll // 2, poll, poll, 200, 300, 600])
            out.append("@%d" % t)
    return ",".join(out)


def rand_case(r, forks=False):
    conf = rand_conf(r)
    socks = "/".join(rand_socket(r) for _ in range(r.randint(0, 5)))
    socks = (socks + "/" if socks else "") + r.choice(["c.0w.20A", "c.0w.20A", "c.0w", "c"])
    n = r.choice([1, 2, 2, 2, 3])
    if forks and r.random() < 0.6:
        n = 1
    # of several threads one forks; the child has only that one
    scripts = [rand_script(r, conf[2], r.randint(2, 8), forks and ("PC" if n == 1 else "P" if i == 0 else "")) for i in range(n)]
    return (",".join(map(str, conf)), socks, str(r.choice([0, 300, 700, 1500]))) + tuple(scripts)
