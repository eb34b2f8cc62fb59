"""C18: satellite connections fail over, are renewed and shut down within their times."""
from checks.sat_common import run as go


def run(c):
    go(c, True, False)
