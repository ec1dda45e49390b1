"""C39: the generated ACN encodings have the declared layout."""
from vlib import gu


def main():
    return gu.main_acn("C39", "bits", ["The reference encoder is a reading of the ACN grammar of the battery written by hand in vlib/abattery.py; components without properties are encoded as in uPER."])
