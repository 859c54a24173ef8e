"""Which scenarios decide which property."""
REAL = ["metaproxy: every filter, router, session and package code of /repo/src, "
        "metaproxy_prog.cpp main(), compiled from the working tree",
        "libyaz 5.34 (BER codec, HTTP codec, ZOOM, COMSTACK TCP), libxml2, libxslt, "
        "boost.thread, libstdc++"]
STUB = ["YAZ++ (not installed here): re-implemented in /verif/yazpp over COMSTACK",
        "kernel: sockets, pipes, poll, DNS, clocks, threads scheduling, signals, "
        "fork/exec/waitpid, files under /simfs",
        "Z39.50 and HTTP clients, Z39.50 targets, HTTP origin servers, CGI programs"]
ASSUME = ["the YAZ++ stand-in keeps the documented YAZ++ behaviour",
          "sequentially consistent memory: preemption at instrumented loads and stores "
          "of /repo code and at every synchronisation or system call",
          "exploration samples schedules and faults; it does not enumerate them"]
TABLE = {
    "C01": dict(scn=["answers"], oracle="per-client model of a private Z39.50 session"),
    "C02": dict(scn=["hostile", "cutoff"], oracle="liveness and memory safety of the "
                "proxy, model of the control clients"),
    "C03": dict(scn=["badback"], oracle="per-client model, relaxed only for the operation "
                "a fault hits; response deadline; control clients on healthy targets"),
    "C04": dict(scn=["sessions"], oracle="descriptor and backend-connection conservation"),
    "C05": dict(scn=["pool"], oracle="each instrumented job: run once by one worker, its result once on the event "
                "loop's thread, destroyed once; threads and idle workers"),
    "C06": dict(scn=["shared"], oracle="per-client model of a private session; "
                "relaxed to diagnostics for requests a fault may have hit"),
    "C07": dict(scn=["sharedkeys"], oracle="credentials, number and idle time of "
                "backend connections"),
    "C08": dict(scn=["multimerge"], oracle="merge of the targets' result sets by the "
                "configured rule, recomputed per window"),
    "C09": dict(scn=["multifail"], oracle="per-target outcome of each operation; the hits, "
                "records and terms of the targets that worked; nothing silently short"),
    "C10": dict(scn=["virtdb"], oracle="per-client model of named sets over databases; "
                "requests seen by each target"),
    "C11": dict(scn=["loadbal"], oracle="per-session target; open sessions and packages per "
                "target recomputed from the recorded history"),
    "C12": dict(scn=["limits", "cutoff"], oracle="counters over the recorded connects"),
    "C13": dict(scn=["auth"], oracle="register look-up per session; requests seen by each "
                "target"),
    "C14": dict(scn=["limitf"], oracle="per-client model; what was done in the last minute "
                "against the delay of each answer"),
    "C15": dict(scn=["chunk"], oracle="unsplit present of the model set"),
    "C16": dict(scn=["sortf"], oracle="sorting model of the prefetched window"),
    "C17": dict(scn=["sru"], oracle="model of the target's set windowed by the request; "
                "requests seen by each target"),
    "C18": dict(scn=["zoom"], oracle="per-client model of the session; target, database, user and query "
                "seen by each target; response deadline"),
    "C19": dict(scn=["http"], oracle="one-to-one matching of client exchanges and origin logs; "
                "expected request and response text recomputed"),
    "C20": dict(scn=["cgi"], oracle="simulated programs check environment, input and descriptors; exact "
                "output per request; processes and descriptors counted at the end"),
    "C21": dict(scn=["files"], oracle="content and type of the simulated file (or one of its versions "
                "during the request); list of paths opened"),
    "C22": dict(scn=["stopping"], oracle="exit within bound; model of connected clients"),
    "C23": dict(scn=["chain"], oracle="expected query, records, diagnostics and log lines recomputed per "
                "request; one user at a time of libyaz's unlocked objects"),
    "C24": dict(scn=["maxsock"], oracle="connections open per target over time"),
    "C25": dict(scn=["btest"], race=0, oracle="model of each session's negotiated options and of the fixed result set"),
    "C26": dict(scn=["answers", "badback", "hostile", "sessions", "maxsock", "limits", "cutoff",
                     "stopping", "chunk", "shared", "sharedkeys", "multimerge", "multifail",
                     "virtdb", "loadbal", "auth", "limitf", "sortf", "sru", "http", "files", "cgi",
                     "zoom", "chain", "pool"], race=8,
                oracle="vector clocks of the simulated threads, advanced by every lock, condition, "
                "thread start and join and atomic operation, against every load and store of "
                "metaproxy's code"),
}
