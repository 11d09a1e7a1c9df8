from ..main import with_main
from .ops import c10


def decide(tier):
    return with_main("C10", c10)
