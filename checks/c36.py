"""C36: the generated decoders are safe on every input and deliver only valid values."""
from vlib import gu


def main():
    return gu.main("C36", "dec", ["Inputs: all byte strings of the announced size and one byte shorter."], more=lambda g, out: gu.acn(g, "dec"))
