"""C36: a JSON configuration is applied completely or refused."""
from checks.config_common import *


def broken(text, rng):
    """text that is no JSON whatever the reader's leniency"""
    r = rng.random()
    if r < 0.3:
        return text[:rng.randrange(len(text) - 1)] if len(text) > 2 else ""
    if r < 0.5:
        return text + rng.choice([" x", "}", "]", "{}", ",", " 1"])
    if r < 0.7:
        return text[:-1] + rng.choice(["", ']', ':'])
    if r < 0.85 and ":" in text:
        i = text.index('":') if '":' in text else text.index(":")
        return text[:i] + text[i:].replace(":", rng.choice(["", ";", "="]), 1) if '":' in text and text.index('":') == text.index('"', 2) else "{" + text
    return rng.choice(["", " ", "[]", "null", "1", '"a"', "true", "[" + text + "]", "{" + text, ":" + text, "<" + text])


def run(c):
    t = c.thorough
    rng = c.rng
    r = c.model("ConfigModel", consts=dict(MaxSettings=2), spec="MSpec", invariants=["OrderFree", "Whole", "Apart", "NothingIsDefault"], workers=8, action_constraint="MEmit", heap="4g")
    docs = [json.loads(p[1:]) for p in r.prints if p[0] == "T"]
    values = {}
    for d in docs:
        if len(d) == 1:
            values.setdefault(d[0][0], []).append(d[0][1])
    assert len(docs) > 10000 and len(values) == 16
    cmds = [command("json", "{}", [])]
    for d in docs:
        if len(d) == 1 or t or rng.random() < 0.6:
            cmds.append(command("json", document(d, rng), d))
    # larger documents of the same settings, mostly of good values
    for _ in range(60000 if t else 5000):
        names = [n for n in values if n != "colector_port"]
        rng.shuffle(names)
        doc = []
        spoil = rng.random() < 0.3
        for n in names[:rng.randint(3, 15)]:
            vs = values[n]
            good = [v for v in vs if fine(n, v)]
            doc.append([n, rng.choice(good if not spoil or rng.random() < 0.8 else vs)])
        text = document(doc, rng)
        if rng.random() < 0.15:
            cmds.append(command("json", broken(text, rng), doc, 0))
        else:
            cmds.append(command("json", text, doc))
        if rng.random() < 0.1 and small(doc):
            cmds.append("fac" + cmds[-1][4:])
    # random values
    for _ in range(6000 if t else 1200):
        doc = []
        for n in rng.sample(sorted(values), rng.randint(1, 4)):
            if n in ("component_name", "access_token", "collector_host", "ssl_root_certificates"):
                v = {"k": "s", "v": "".join(rng.choice(["a", "é", "\n", '"', "\\", "\t", "z", "/", "€", "😀", "\x01"]) for _ in range(rng.choice([1, 3, 40]))).encode().hex()}
            elif n in ("max_buffered_spans", "reporting_period", "report_timeout", "collector_port"):
                v = {"k": "n", "v": [rng.choice([0, 0, rng.randint(0, 65535)]), rng.randint(0, 65535)]}
            elif n == "tags":
                v = {"k": "o", "v": [[("k%d" % i).encode().hex(), {"k": "s", "v": rng.choice(["", "61", "c3a9"])}] for i in range(rng.randint(0, 12))]}
            elif n == "satellite_endpoints":
                v = {"k": "l", "v": [{"k": "o", "v": [["host", {"k": "s", "v": b"h".hex() * rng.randint(1, 9)}], ["port", {"k": "n", "v": [0 if rng.random() < 0.9 else 1, rng.choice([0, 1, 65535, rng.randint(1, 65535), rng.randint(1, 65535), rng.randint(1, 65535)])]}]]} for _ in range(rng.randint(1, 6))]}
            elif n == "propagation_modes":
                v = {"k": "l", "v": [{"k": "s", "v": rng.choice(["lightstep", "b3", "envoy", "trace_context", "cloud_trace"] * 4 + ["B3", "b3 ", "", "tracecontext", "b"]).encode().hex()} for _ in range(rng.randint(1, 6))]}
            else:
                v = rng.choice(values[n])
            doc.append([n, v])
        cmds.append(command("json", document(doc, rng), doc))
    # the factory's answer: an error or a tracer, with the streaming recorder too
    for d in [[]] + [x for x in docs if len(x) == 1 and small(x)]:
        cmds.append(command("fac", document(d, rng), d))
    one = {"k": "b", "v": 1}
    ends = ["satellite_endpoints", {"k": "l", "v": [{"k": "o", "v": [["host", {"k": "s", "v": b"127.0.0.1".hex()}], ["port", {"k": "n", "v": [0, 1]}]]}]}]
    for d in ([["use_stream_recorder", one], ["collector_plaintext", one], ends], [["use_stream_recorder", one], ends], [["collector_plaintext", one], ends]):
        cmds.append(command("fac", document(d, rng), d))
    rng.shuffle(cmds)
    sc = [cmds[i:i + 60] for i in range(0, len(cmds), 60)]
    exe = build()
    what = "configurations"
    traces = run_scenarios(c, exe, sc, what, timeout=600)
    check_traces(c, "ConfigTrace", traces, what, rerunner(c, exe, sc, what))
    ev = [e for tr in traces for e in tr]
    c.add(configurations=len(ev), applied=sum(e["res"] == "ok" for e in ev), refused=sum(e["res"] == "err" for e in ev))
    c.sample("document: " + json.dumps(ev[0])[:300])


def small(doc):
    """no buffer of gigabytes: these are for the options only"""
    return not any(n == "max_buffered_spans" and v["k"] == "n" and v["v"][0] > 1 for n, v in doc)


def fine(n, v):
    k, x = v["k"], v["v"]
    if k == "z":
        return True
    if n in ("component_name", "access_token", "collector_host", "ssl_root_certificates"):
        return k == "s"
    if n in ("collector_plaintext", "use_single_key_propagation", "use_stream_recorder", "verbose"):
        return k == "b"
    if n in ("max_buffered_spans", "reporting_period", "report_timeout", "collector_port"):
        return k == "n" and (n != "collector_port" or x[0] == 0)
    if n == "propagation_modes":
        return k == "l" and all(i["k"] == "s" and i["v"] not in ("4233", "") for i in x)
    if n == "tags":
        return k == "o" and all(i[1]["k"] == "s" for i in x)
    if n == "satellite_endpoints":
        return k == "l" and all(i["k"] == "o" and [f[0] for f in i["v"]] == ["host", "port"] and i["v"][0][1]["k"] == "s" and i["v"][1][1]["k"] == "n" and i["v"][1][1]["v"][0] == 0 and i["v"][1][1]["v"][1] for i in x)
    return True
