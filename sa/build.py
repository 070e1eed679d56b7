"""Compiles /repo's current sources to LLVM bitcode, links them into one module and dumps the resolved program."""
import glob, hashlib, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(HERE, "build"))
BASE = ["-I%s/_build/install/include", "-I%s", "-I%s/_build/deps/src/linenoise", "-I%s/src/rtmessage", "-I%s/include",
        "-I%s/src/core", "-I%s/src/session_manager"]
DEFS = ["-DRBUS_ALWAYS_ON", "-D_TIME_BITS=64", "-D_FILE_OFFSET_BITS=64"]
# sources under src/ that the build does not compile into the library, broker or session manager
SKIP = {"rtmessage/rtm_diag_probe.c"}


class AnalysisError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def units():
    """(source, flags): the build's own compile commands when the build tree is there, else the same flags listed here"""
    res = []
    cdb = {}
    if os.path.exists(REPO + "/_build/build.ninja"):
        import json, shlex
        r = sh(["ninja", "-C", REPO + "/_build", "-t", "compdb"])
        try:
            for e in json.loads(r.stdout):
                if " -c " in e["command"] and "/src/" in e["file"] and e["file"].endswith(".c"):
                    f = e["file"]
                    k = f.split("/src/", 1)[1] if f.startswith(("/repo/", REPO + "/")) else None
                    if not k or "_build" in f or k in cdb:
                        continue
                    a = shlex.split(e["command"])
                    cdb[k] = [x.replace("-I/repo", "-I" + REPO) for x in a if x.startswith(("-I", "-D", "-isystem", "-std"))]
        except Exception:
            cdb = {}
    for d in ("rtmessage", "core", "rbus", "session_manager"):
        for f in sorted(glob.glob("%s/src/%s/*.c" % (REPO, d))):
            k = "%s/%s" % (d, os.path.basename(f))
            if cdb:
                if k in cdb:
                    res.append((f, k, cdb[k]))
                continue
            if k in SKIP or os.path.basename(f) in ("rtm_sub.c", "rtsub.c", "rtsend.c", "rtm_diag_probe.c"):
                continue
            fl = [x % REPO for x in BASE] + DEFS
            if d in ("rtmessage", "rbus"):
                fl.append("-DMSG_ROUNDTRIP_TIME=1")
            res.append((f, k, fl))
    return res


def tool():
    src = os.path.join(HERE, "dump", "irdump.cpp")
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(HERE, "build", "irdump-" + h)
    if not os.path.exists(out):
        cf = sh(["llvm-config-18", "--cxxflags"]).stdout.split()
        lf = sh(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "passes", "bitwriter", "transformutils"]).stdout.split()
        tmp = out + ".%d" % os.getpid()
        r = sh(["clang++-18", "-O1", "-w"] + cf + [src, "-o", tmp] + lf + ["-lpthread"])
        if r.returncode:
            raise AnalysisError("cannot build irdump: " + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def header_names():
    """names declared in the repository's headers: boundaries that stay calls"""
    names = set()
    for d in ("include", "src/rtmessage", "src/core", "src/rbus", "src/session_manager"):
        for h in glob.glob("%s/%s/*.h" % (REPO, d)):
            t = open(h, errors="replace").read()
            t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
            t = re.sub(r"//[^\n]*", " ", t)
            for m in re.finditer(r"\b([A-Za-z_]\w+)\s*\(", t):
                names.add(m.group(1))
    return names


# small wrappers whose effect the analyses want to see at the caller although a header declares them
INLINE_ANYWAY = {"rt_atomic_fetch_add", "rt_atomic_fetch_sub"}
# internal, but looked for by name by a rule
CALL_ANYWAY = {"rbusEventSubscription_find",
               # large functions of one caller that are functions of their own; any other internal function of one caller is part of it
               "_get_callback_handler", "_set_callback_handler", "_method_callback_handler", "_subscribe_callback_handler", "_table_add_row_callback_handler", "msgpack_pack_int64",
               "rbusSubscriptions_loadCache", "rtConnectedClient_Read", "rtRouted_OnMessageDiscoverElementObjects", "rtRouted_OnMessageSubscribe", "rtRouter_DispatchMessageFromClient",
               # functions of several callers that are functions of their own, and stay so when a part is taken out of them
               "_convert_reg_name_to_instance_name", "_get_parameter_names_handler", "_get_parameter_names_recurse", "_get_recursive_partialpath_handler", "_rbus_event_unsubscribe",
               "_rbuscore_directconnection_save_to_cache", "getChildByName", "logTreeTopic", "perform_cleanup", "prep_reply_header_from_request", "rbusEvent_SubscribeWithRetries",
               "rbusSubscriptions_onElementCreated", "rbusSubscriptions_onSubscriptionCreated", "rbusSubscriptions_saveCache", "rbusValue_SetBufferData", "rbus_subscribeToEventInternal",
               "registerTableRow", "removeElementInternal", "removeRouteFromTopicTree", "rtConnection_ConnectAndRegister", "rtConnection_CreateInternal", "rtConnection_Read",
               "rtConnection_ReadUntil", "rtConnection_SendInternal", "rtHashMap_Resize", "rtRouted_SendMessage", "rtRouted_TransactionTimingDetails", "send_subscription_request",
               "tokenizeExpression", "unregisterTableRow"}


def build(multi=60, tag="main"):
    """returns (json path, info)"""
    t0 = time.time()
    td = tool()
    us = units()
    if len(us) < 30:
        raise AnalysisError("only %d compilation units found" % len(us))
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/**/*", recursive=True) + glob.glob(REPO + "/include/*")):
        if f.endswith((".c", ".h")):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    h.update(open(td, "rb").read())
    h.update(repr((multi, [u[2] for u in us], sorted(INLINE_ANYWAY))).encode())
    h.update(open(os.path.abspath(__file__), "rb").read())
    key = h.hexdigest()[:16]
    outdir = os.path.join(BUILD, "ir-" + key)
    out = os.path.join(outdir, "ir.json")
    info = {"units": len(us), "sources_sha": key}
    if os.path.exists(out):
        info["cached"] = True
        return out, info
    # one build at a time: checks may be started together
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(out):
        info["cached"] = True
        return out, info
    # keep only the newest few
    def age(o):
        try:
            return os.path.getmtime(o)
        except OSError:
            return 0
    for o in sorted(glob.glob(os.path.join(BUILD, "ir-*")), key=age)[:-6]:
        shutil.rmtree(o, ignore_errors=True)
    work = outdir + ".tmp%d" % os.getpid()
    os.makedirs(work)

    def one(u):
        f, k, fl = u
        o = os.path.join(work, k.replace("/", "_") + ".bc")
        base = os.path.basename(f)[:-2]
        r = sh(["clang-18", "-O0", "-g", "-w", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c", "-Dmain=main_" + base, f, "-o", o] + fl, cwd="/")
        if r.returncode == 0:
            r = sh([td, o, o + ".a", "annotate"])
            if r.returncode == 0:
                os.rename(o + ".a", o)
        return r.returncode, r.stderr, f, o
    with ThreadPoolExecutor(8) as p:
        rs = list(p.map(one, us))
    for rc, err, f, o in rs:
        if rc:
            raise AnalysisError("cannot compile %s: %s" % (f, err[-1500:]))
    linked = os.path.join(work, "all.linked")
    r = sh(["llvm-link-18"] + [o for _, _, _, o in rs] + ["-o", linked])
    if r.returncode:
        raise AnalysisError("llvm-link: " + r.stderr[-1500:])
    nl = os.path.join(work, "noinline.txt")
    names = (header_names() | CALL_ANYWAY) - INLINE_ANYWAY
    open(nl, "w").write("\n".join(sorted(names)) + "\n")
    r = sh([td, linked, os.path.join(work, "ir.json"), str(multi), nl])
    if r.returncode:
        raise AnalysisError("irdump: " + r.stderr[-1500:])
    for g in glob.glob(work + "/*.bc"):
        os.unlink(g)
    os.unlink(linked)
    try:
        os.rename(work, outdir)
    except OSError:
        shutil.rmtree(work, ignore_errors=True)
    info["build_s"] = round(time.time() - t0, 1)
    return out, info


if __name__ == "__main__":
    print(build())
