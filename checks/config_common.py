"""Configurations (C36) and tracers made of options (C38): the driver and JSON text."""
import json
from vlib import build as B, tlc as T
from vlib.check import run_scenarios, rerunner
from vlib.traces import check_traces

SRCS = ["tracer/json_options.cpp", "tracer/tracer.cpp", "tracer/tracer_impl.cpp", "tracer/lightstep_tracer_factory.cpp", "recorder/no_grpc_transporter.cpp",
        "tracer/no_default_ssl_roots_pem.cpp"]


def build():
    return B.build("config", ["config.cpp"], SRCS, mode="asan", protos=True)


def text_of(h):
    return bytes.fromhex(h).decode("utf-8")


def string(s, rng):
    return json.dumps(s, ensure_ascii=rng.random() < 0.5)


def render(v, rng, name=None):
    """the JSON text of a value of the specification"""
    k, x = v["k"], v["v"]
    sp = lambda: rng.choice(["", "", "", " ", "\n "])
    if k == "s":
        return string(text_of(x), rng)
    if k == "n":
        return str(x[0] * 65536 + x[1])
    if k in ("x", "m"):
        return x
    if k == "b":
        return "true" if x else "false"
    if k == "z":
        return "null"
    if k == "l":
        return "[" + sp() + ("," + sp()).join(render(i, rng) for i in x) + sp() + "]"
    key = (lambda n: n) if name != "tags" else text_of
    return "{" + sp() + ("," + sp()).join(string(key(n), rng) + sp() + ":" + sp() + render(i, rng) for n, i in x) + sp() + "}"


def document(doc, rng):
    return render({"k": "o", "v": doc}, rng) if not any(n == "tags" for n, _ in doc) else \
        "{" + ",".join(string(n, rng) + ":" + rng.choice(["", " "]) + render(v, rng, n) for n, v in doc) + "}"


def hx(s):
    return (s if isinstance(s, bytes) else s.encode("utf-8")).hex() or "-"


def command(op, text, doc, syntax=1):
    return "%s %s %d %s" % (op, hx(text), syntax, hx(json.dumps(doc)))
