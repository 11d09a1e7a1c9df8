from ..main import with_main
from .tx import c02


def decide(tier):
    return with_main("C02", c02)
