"""C15: graph files are read and written as described."""
from .common import split, seeds, mpi_seeds
TECHNIQUE = "TLA+ model of ranged file reading (TLC) + TLC validation of files read and written by the real code against their description"
LEVEL_NOTE = ("FileRanges.tla: all small files, distributions and numbers of processes, token by token. GraphFiles.tla says what METIS lines and "
              "ParHIP words describe; all readers (plain, compressed, distributed), writers and the validator are checked against it.")
FR = ("SPECIFICATION Spec\nINVARIANTS RangeOK ReadsItsLines Partitioned NoOverrun\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
      "CONSTANTS MaxN=%d MaxD=2 MaxP=%d Variant=\"%s\"\n")
T = "INIT TInit\nNEXT TNext\n"
STARTS = ("graph", "metis", "parhip", "validate")


def body(c):
    exes = {n: c.build(n) for n in ("io", "io64", "iow", "dio")}
    c.model("FileRanges", FR % (c.pick(3, 4), c.pick(3, 4), "ok"),
            ("SkipComment", "Begin", "Edge", "NewLine", "EndOfFile", "Seek", "Finish", "Chunk", "Bisect", "Found"))
    for v in ("AfterWeight", "DropTail"):
        c.model("FileRanges", FR % (2, 2, v), expect=("invariant",), label="FileRanges/" + v)
    recs = []
    for name, f in (("io", 1.0), ("io64", 0.5), ("iow", 0.5)):
        q = lambda x: max(1, int(x * f))
        recs += seeds(c, exes[name], [(("metis",), q(250), q(2500), 2, 6), (("parhip",), q(200), q(2000), 2, 6), (("write",), q(120), q(1200), 2, 6)] +
                      ([(("valid",), 150, 1500, 2, 6)] if name == "io" else []), what="reading and writing graph files")
    c.validate("GraphFilesTrace", split(recs, STARTS), T, label="GraphFilesTrace")
    d = mpi_seeds(c, exes["dio"], [((1, 2, 3, 5, 8), ("metis",), 40, 300, 1, 3), ((1, 2, 3, 5, 8), ("parhip",), 30, 250, 1, 3)],
                  what="reading graph files with several PEs")
    c.validate("DistFilesTrace", split(d, STARTS), T, label="DistFilesTrace")
