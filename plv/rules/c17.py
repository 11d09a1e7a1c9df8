from ..main import with_main
from .schema import c17


def decide(tier):
    return with_main("C17", c17)
