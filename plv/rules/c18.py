from ..main import with_main
from .cli import c18


def decide(tier):
    return with_main("C18", c18)
