from ..main import with_main
from .cli import c20


def decide(tier):
    return with_main("C20", c20)
