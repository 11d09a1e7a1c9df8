from ..main import with_main
from .tx import c06


def decide(tier):
    return with_main("C06", c06)
