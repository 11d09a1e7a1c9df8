from ..main import with_main
from .ops import c08


def decide(tier):
    return with_main("C08", c08)
