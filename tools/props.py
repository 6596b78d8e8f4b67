"""The checks: which workload decides which property, and how much of it runs."""

STUBS = [
    "MPI library: simulated in-process transport, collectives and one-sided windows (sim/engine/mpi.cc)",
    "magistrate/checkpoint serialization library: stand-in with the same interface (sim/shim/checkpoint)",
    "clocks, sleeping, std::random_device: simulated (sim/engine/sys.cc)",
    "PMPI trace wrappers and VT-TV output: not built",
]
ASSUMPTIONS = [
    "MPI is reliable and non-overtaking per (communicator, source, destination, tag); loss and duplication of "
    "messages are below the interface vt relies on and are not injected",
    "nodes interleave at MPI calls only: vt is single-threaded per node, so code between two MPI calls is atomic to other nodes",
    "vt aborts the job on node failure, so node crashes are simulated only for durable state (files)",
]
VT_ALL = ["all of src/vt (compiled unmodified from /repo: runtime, messaging, termination, scheduler, groups, "
          "collections, location, load balancing, rdma, pipes, events, trace, pool)",
          "vendored fmt, yaml-cpp, json, brotli, EngFormat, fcontext"]

ALL = []


def add(pid, workload, ranks=(2, 5), modes=("a",), quick_s=22, thorough_s=600, **kw):
    p = dict(id=pid, workload=workload, ranks=ranks, modes=list(modes), quick_s=quick_s,
             thorough_s=thorough_s, real=VT_ALL)
    p.update(kw)
    ALL.append(p)


def get(pid):
    for p in ALL:
        if p["id"] == pid:
            return p
    raise SystemExit("unknown property " + pid)



add("C01", "term", modes=["mix", "coll", "rooted", "mix"])
add("C02", "term", modes=["mix", "coll", "rooted"])
add("C03", "term", modes=["chain", "elements", "mix", "elements"])
add("C05", "sched", modes=["order"])
add("C06", "sched", modes=["ult"])
add("C22", "pool", modes=["api", "msgs", "msgs"], ranks=(2, 4))
add("C09", "groups", modes=["rooted", "coll", "mix"], ranks=(2, 11))
add("C20", "timers", modes=["system", "manager"], ranks=(2, 4))
add("C14", "lb", modes=["loads", "record", "loads"], ranks=(2, 6))
add("C18", "callback", modes=["system", "component", "system"], ranks=(2, 5))
add("C11", "coll", modes=["migrate"], ranks=(2, 5), quick_s=30)
add("C12", "coll", modes=["members"], ranks=(2, 5))
add("C04", "am", modes=["all"], ranks=(2, 6))
add("C07", "redu", modes=["reduce", "sync"], ranks=(2, 6))
add("C08", "scope", modes=["all"], ranks=(2, 6))
add("C10", "obj", modes=["all"], ranks=(2, 8))
add("C16", "handle", modes=["node", "elements"], ranks=(2, 5))
add("C17", "rdma", modes=["memory", "functions", "region"], ranks=(2, 5))
add("C19", "events", modes=["events", "events", "async"], ranks=(2, 5))
add("C24", "startup", modes=["rounds"], ranks=(2, 6))
add("C13", "lb", modes=["balance"], ranks=(2, 6))
add("C15", "lbfile", modes=["file", "damaged", "offline", "replay"], ranks=(2, 5))
add("C25", "diag", modes=["plain"], ranks=(2, 6))
add("C21", "ckpt", modes=["same", "restart", "disk"], ranks=(2, 5))
add("C23", "trace", modes=["plain", "phases"], ranks=(2, 5))
