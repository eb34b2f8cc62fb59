"""C10: across connections each span is delivered once or counted dropped."""
from checks import cstream_common as X
from checks import sat_common as Sat


def run(c):
    X.run(c, True)
    Sat.run(c, False, True)
