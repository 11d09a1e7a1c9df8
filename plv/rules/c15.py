from ..main import with_main
from .graph import c15


def decide(tier):
    return with_main("C15", c15)
