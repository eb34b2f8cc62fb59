"""C20: name resolution: ready once, refreshed for ever."""
from checks.resolution_common import run as go


def run(c):
    go(c, rotation=False, resolution=True)
