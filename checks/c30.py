"""C30: generated uPER codecs are lossless."""
from vlib import gu


def main():
    return gu.main("C30", "rt", ["REAL values: a few given ones (the runtime's REAL coding is decided in C04). A component with a DEFAULT is absent or differs from it. The validation is taken as C34 decides it."])
