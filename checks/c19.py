"""C19: endpoint choice rotates over every resolved endpoint."""
from checks.resolution_common import run as go


def run(c):
    go(c, rotation=True, resolution=False)
