"""C09: each satellite connection carries one well-formed chunked request."""
from checks import cstream_common as X


def run(c):
    X.run(c, False)
