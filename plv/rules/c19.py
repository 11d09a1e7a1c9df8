from ..main import with_main
from .cli import c19


def decide(tier):
    return with_main("C19", c19)
