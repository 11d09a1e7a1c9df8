from ..main import with_main
from .tx import c03


def decide(tier):
    return with_main("C03", c03)
