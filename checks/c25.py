"""C25: packet length and error control hooks."""
from vlib.core import H, Runner, VERIF

W = "PUSCScalaTest/asn1-pusc-lib-asn1CompilerTestInput/wrappers/c/"
U = [W + f for f in "Errors.c PacketErrorControl.c PacketLength.c UInt16Coder.c".split()] + ["asn1crt/asn1crt.c", "asn1crt/asn1crt_encoding.c", "asn1crt/asn1crt_encoding_acn.c"]


def main():
    from vlib.core import REPO
    hs = []
    for f, b in dict(upd="every packet of 0..12 octets", val="every packet of 0..12 octets", lupd="every packet length up to 131071 and every maximum", lval="every packet length up to 131071, every maximum and content", coder="every place and value").items():
        hs.append(H(f, "harness/c25.c", units=U, inc=[REPO + "/" + W, VERIF + "/harness/pusc"], unwind=16, maxunwind=80, defs=["MAXP=12"], bounds=b))
    return Runner("C25").run(hs, assumptions=["The codec of PUSC-UINT16, which is generated, is replaced by the runtime call it consists of (harness/pusc/BasicTypes.h).", "Packets are whole octets.", "The checksum functions are decided by C23 and C24 and replaced here by one that may give any value."])
