"""All conformance harnesses: name -> build arguments (see build.build)."""
import os
STUB = "-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "kagen_stub")
H = {
    "session": dict(harness="session.cc", libs=("common", "shm")),
    "compress": dict(harness="compress.cc", libs=("common", "shmdata")),
    "compress_svb": dict(harness="compress.cc", libs=("common", "shmdata"), flav="svb"),
    "compress64": dict(harness="compress.cc", libs=("common", "shmdata"), flav="shm64"),
    "codecs": dict(harness="codecs.cc", libs=("common",)),
    "codecs_fast": dict(harness="codecs.cc", libs=("common",), extra=("-DKAMINPAR_COMPRESSION_FAST_DECODING", "-mbmi2")),
    "pq": dict(harness="pq.cc", libs=("common",)),
    "prims": dict(harness="prims.cc", libs=("common",)),
    "containers": dict(harness="containers.cc", libs=("common",)),
    "coarsen": dict(harness="coarsen.cc", libs=("common", "shm")),
    "gains": dict(harness="gains.cc", libs=("common", "shm")),
    "bipart": dict(harness="bipart.cc", libs=("common", "shm")),
    "refine": dict(harness="refine.cc", libs=("common", "shm")),
    "io": dict(harness="io.cc", libs=("common", "shmdata", "io")),
    "io64": dict(harness="io.cc", libs=("common", "shmdata", "io"), flav="shm64"),
    "iow": dict(harness="io.cc", libs=("common", "shmdata", "io"), flav="shmw"),
    "dio": dict(harness="dio.cc", libs=("common", "shm", "mpi", "dist", "distio"), flav="dist"),
    "libpart": dict(harness="libpart.cc", libs=("common", "shm")),
    "kaminpar": dict(libs=("common", "shm", "io", "cli", "app", "file:apps/version.cc")),
    **{t: dict(libs=("common", "shm", "io", "cli", "file:apps/tools/shm_%s_tool.cc" % t)) for t in
       ("connected_components", "graph_attach_weights", "graph_compression", "graph_properties", "graph_rearrangement", "partition_properties")},
    "dkaminpar": dict(harness="dkaminpar.cc", libs=("common", "shm", "mpi", "dist", "distio", "distcli", "file:apps/version.cc"), flav="dist",
                      extra=(STUB,)),
    "dcomm": dict(harness="dcomm.cc", libs=("common", "shm", "mpi", "dist"), flav="dist"),
    "ddata": dict(harness="ddata.cc", libs=("common", "shm", "mpi", "dist"), flav="dist"),
    "drefine": dict(harness="drefine.cc", libs=("common", "shm", "mpi", "dist"), flav="dist"),
    "dsession": dict(harness="dsession.cc", libs=("common", "shm", "mpi", "dist"), flav="dist"),
}
