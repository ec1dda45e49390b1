"""C23: the packet CRC is the CRC-16 of its polynomial."""
from vlib.core import H, Runner

W = "PUSCScalaTest/asn1-pusc-lib-asn1CompilerTestInput/wrappers/c/"


def main():
    from vlib.core import REPO
    hs = []
    def h(name, func, n, en=8, thorough=False, bounds="", **kw):
        hs.append(H(name, "harness/c23.c", func=func, units=[W + "Crc.c"], inc=[REPO + "/" + W], unwind=max(n, en) + 4, maxunwind=80, defs=["NN=%d" % n, "EN=%d" % en], thorough=thorough, bounds=bounds, **kw))
    h("step", "step", 1, bounds="one octet on every earlier value (by induction: every message)")
    h("empty", "empty", 1, bounds="the empty message")
    h("pieces", "pieces", 3, bounds="every message of 0..3 octets cut at every place, from every earlier value")
    h("def", "def", 3, bounds="every message of 0..3 octets")
    h("ver", "ver", 1, bounds="every checksum")
    h("linear", "linear", 1, bounds="one octet, every two earlier values and octets")
    h("zeros", "zeros", 1, bounds="one octet, every earlier value")
    h("burst", "burst", 1, bounds="every burst of up to 16 bits at every place in the octet")
    h("pair", "pair", 1, 16, bounds="every two bits up to 16 octets apart")
    h("pair64", "pair", 1, 128, True, bounds="every two bits up to 128 octets apart")
    return Runner("C23").run(hs, assumptions=["The harnesses on one octet and every earlier value ('step', 'linear', 'zeros') are what messages of any length consist of; the induction over the length is by hand.", "Two changed bits are covered up to the stated distance (the polynomial has period 32767)."])
