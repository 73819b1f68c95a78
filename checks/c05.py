"""C05: the integer codecs and packed arrays return what was stored."""
TECHNIQUE = "TLA+ model of the byte stream (TLC) + TLC validation of buffers written and read by the real codecs"
LEVEL_NOTE = ("TLC interleaves writer and reader of a buffer with items of all kinds (2 bit groups, all values up to 40). The "
              "real VarInt (both decoding variants), marked/signed VarInt, StreamVByte (all gap kinds), compact arrays and "
              "ranked bit vectors are driven with values of every width and validated against CodecTrace.tla.")
V = "INIT Init\nNEXT Next\nINVARIANTS Fifo NothingLeft\nCHECK_DEADLOCK FALSE\nCONSTANTS Bits=%d MaxValue=%d MaxItems=%d Variant=\"%s\"\n"


def split(recs):
    out = [[]]
    for r in recs:
        out[-1].append(r)
        if r["ev"] not in ("put", "get"):
            out.append([])
    return [x for x in out if x]


def body(c):
    exes = [c.build("codecs"), c.build("codecs_fast")]
    c.model("Varint", V % (2, 40, 2, "ok"), ("Write", "ReadGroup"))
    c.model("Varint", V % (3, 9, 3, "ok"), label="Varint/3 bits")
    c.model("Varint", V % (2, 40, 2, "NoFlagBit"), expect=("invariant",), label="Varint/NoFlagBit")
    n = c.pick(250, 3000)
    recs = c.run_harness_many([[e, str(c.seed * 100 + 10 * i + j), str(n)] for i, e in enumerate(exes) for j in range(c.pick(2, 6))],
                              what="encoding and decoding")
    c.validate("CodecTrace", split(recs), "INIT TInit\nNEXT TNext\n")
