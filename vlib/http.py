"""Reads the bytes of one connection as a chunked HTTP report request."""
import re

COUNTS = b"spans.dropped"


def varint(b, i):
    v = s = 0
    while i < len(b):
        c = b[i]
        v |= (c & 127) << s
        s += 7
        i += 1
        if c < 128:
            return v, i
    return None, i


def fields(b):
    """[(number, wire type, value)] or None if b is no sequence of fields"""
    out, i = [], 0
    while i < len(b):
        t, i = varint(b, i)
        if t is None:
            return None
        n, w = t >> 3, t & 7
        if w == 0:
            v, i = varint(b, i)
            if v is None:
                return None
        elif w == 2:
            k, i = varint(b, i)
            if k is None or i + k > len(b):
                return None
            v = b[i:i + k]
            i += k
        elif w == 1:
            v = b[i:i + 8]
            i += 8
        elif w == 5:
            v = b[i:i + 4]
            i += 4
        else:
            return None
        if i > len(b):
            return None
        out.append((n, w, v))
    return out


METRICS_FIELD = 6    # collector.proto ReportRequest.internal_metrics


def drop_count(body, common):
    """the drop count in the first chunk: the common header, then at most one metrics message; None if malformed"""
    if not body.startswith(common):
        return None
    f = fields(body[len(common):])
    if f is None:
        return None
    total = 0
    for n, w, v in f:
        if n != METRICS_FIELD or w != 2:
            return None
        m = fields(v)
        if m is None:
            return None
        for n2, w2, v2 in m:
            if n2 != 4 or w2 != 2:     # InternalMetrics.counts
                return None
            s = fields(v2)
            if s is None:
                return None
            name = [x for k, _, x in s if k == 1]
            val = [x for k, wt, x in s if k == 2 and wt == 0]
            if name != [COUNTS] or len(val) > 1:
                return None
            total += val[0] if val else 0
    return total


def head_end(b):
    """(position after the first chunk, its body) or None if not all there; raises ValueError if malformed"""
    line = b"POST /api/v2/reports HTTP/1.1\r\n"
    if b[:len(line)] != line[:len(b)]:
        raise ValueError("request line")
    h = b.find(b"\r\n\r\n")
    if h < 0:
        return None
    i = h + 4
    e = b.find(b"\r\n", i)
    if e < 0:
        if not re.fullmatch(rb"[0-9A-Fa-f]*\r?", b[i:]):
            raise ValueError("chunk size")
        return None
    if not re.fullmatch(rb"[0-9A-Fa-f]+", b[i:e]):
        raise ValueError("chunk size")
    n = int(b[i:e], 16)
    j = e + 2
    if len(b) < j + n + 2:
        return None
    if b[j + n:j + n + 2] != b"\r\n":
        raise ValueError("chunk end")
    return j + n + 2, b[j:j + n]


def check_headers(b, host):
    h = b.find(b"\r\n\r\n")
    lines = b[:h].split(b"\r\n")[1:]
    d = {}
    for l in lines:
        k, s, v = l.partition(b":")
        if not s or k.strip() != k or k.lower() in d:
            return False
        d[k.lower()] = v.strip()
    return d.get(b"transfer-encoding") == b"chunked" and d.get(b"host") == host and b"content-length" not in d


TERM = b"0\r\n\r\n"


class Session:
    """one connection since its reset"""

    def __init__(self, host, common, texts):
        self.b, self.pos, self.host, self.common, self.texts, self.head, self.bad = b"", 0, host, common, texts, False, False

    def feed(self, w):
        """-> (items finished, candidates for the one in progress, drop count delivered)"""
        self.b += w
        fin, counted = [], 0
        if self.bad:
            return [0], [], 0
        if not self.head:
            try:
                r = head_end(self.b)
            except ValueError:
                self.bad = True
                return [0], [], 0
            if r is None:
                return [], ([-1] if self.b else []), 0
            counted = drop_count(r[1], self.common)
            if counted is None or not check_headers(self.b, self.host):
                self.bad = True
                return [0], [], 0
            self.head = True
            self.pos = r[0]
            fin.append(-1)
        while self.pos < len(self.b):
            rest = self.b[self.pos:]
            cands = self.match(rest)
            full = [(k, n) for k, n, whole in cands if whole]
            if full:
                fin.append(full[0][0])
                self.pos += full[0][1]
            elif cands:
                return fin, [k for k, _, _ in cands], counted
            else:
                self.bad = True
                return fin + [0], [], counted
        return fin, [], counted

    def match(self, rest):
        out = []
        for k, t in list(self.texts.items()) + [(-2, TERM)]:
            m = min(len(t), len(rest))
            if t[:m] == rest[:m]:
                out.append((k, len(t), len(rest) >= len(t)))
        return out
