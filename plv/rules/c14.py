from ..main import with_main
from .graph import c14


def decide(tier):
    return with_main("C14", c14)
