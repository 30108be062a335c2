"""CCSDS headers as ASN.1 definitions."""
from . import asn

VERSION = "packet-version-number"
TYPE = "packet-type-is-cmd"
FLAG = "sec-hdr-flag-is-present"
APID = "application-process-identifier"
IDENT = "packet-identification"
WIDTH = {VERSION: 3, TYPE: 1, FLAG: 1, APID: 11}
SHIFT = {VERSION: 13, TYPE: 12, FLAG: 11, APID: 0}


def header(S, extra=()):
    """Ident, Prim and Hdr; extra: further members of Hdr."""
    ident = asn.sequence(
        S,
        "Ident",
        [
            asn.member(S, VERSION, asn.integer(S, 0, 7)),
            asn.member(S, TYPE, asn.boolean(S)),
            asn.member(S, FLAG, asn.boolean(S)),
            asn.member(S, APID, asn.integer(S, 0, 2047)),
        ],
    )
    prim = asn.sequence(
        S,
        "Prim",
        [
            asn.member(S, IDENT, asn.ref(S, ident)),
            asn.member(S, "packet-length", asn.integer(S, 0, 65535)),
        ],
    )
    hdr = asn.sequence(
        S, "Hdr", [asn.member(S, "primary", asn.ref(S, prim))] + list(extra)
    )
    return ident, prim, hdr
