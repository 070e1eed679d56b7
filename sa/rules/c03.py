"""Guarded state: every access to a shared cell has its mutex held, in this function or in every calling context."""
from collections import defaultdict
from locks import Locks, contexts

# shared cell -> (mutex that guards it, functions that create or destroy its owner while no other thread can see it)
G = {}


def guard(mutex, cells, private=""):
    for c in cells.split():
        G[c] = (mutex, set(private.split()))


guard("_rtConnection.mutex",
      "_rtConnection.pending_requests_list _rtListener.in_use _rtListener.expression _rtListener.subscription_id _rtListener.callback "
      "_rtListener.closure _rtConnection.run_threads _rtConnection.send_buffer_in_use",
      "rtConnection_CreateInternal rtConnection_StartThreads rtConnection_Destroy")
guard("_rtConnection.callback_message_mutex", "_rtConnection.callback_message_list", "rtConnection_CreateInternal rtConnection_Destroy")
guard("rbuscore.c:g_mutex", "rbuscore.c:g_server_objects rbuscore.c:g_event_subscriptions_for_client rbuscore.c:g_advisory_listener_installed")
guard("rbuscore.c:g_mutex", "_server_object.methods _server_object.subscriptions", "server_object_destroy server_object_create")
guard("rbuscore.c:g_mutex", "_server_event.listeners", "server_event_destroy server_event_create")
guard("rbuscore.c:g_mutex", "_server_event.sub_callback _server_event.sub_data _server_event.object", "server_event_create")
# perform_cleanup walks the list it has just taken out of the registry
guard("rbuscore.c:g_mutex", "_client_subscription.events", "client_subscription_destroy client_subscription_create perform_cleanup")
guard("rbuscore.c:g_directCliMutex", "rbuscore.c:gListOfClientDirectDMLs")
guard("rbuscore.c:g_directServMutex", "rbuscore.c:gListOfServerDirectDMLs")
guard("_rbusHandle.handle_eventSubsMutex", "_rbusHandle.eventSubs")
guard("_rbusHandle.handle_eventSubsMutex", "_rbusEventSubscriptionInternal.dirty")
guard("_rbusHandle.handle_subsMutex", "_rbusHandle.subscriptions")
guard("_rbusHandle.handle_subsMutex", "_rbusSubscriptions.subList", "rbusSubscriptions_create")
guard("rbus.c:gMutex", "rbus_handle.c:gHandleList rbus.c:sRetained rbus.c:sLastComponentId")
guard("rbus_message.c:gMutex", "_rbusHandle.messageCallbacks")
guard("ValueChangeDetector_t.mutex", "ValueChangeDetector_t.params ValueChangeDetector_t.running", "rbusValueChange_Init rbusValueChange_CloseHandle")
guard("rbus_intervalsubscription.c:gMutex", "rbus_intervalsubscription.c:gRecord")
guard("sRecord.mutex", "sRecord.running", "init_thread rbusInterval_AddSubscriptionRecord")
guard("AsyncSubscribeRetrier_t.mutexQueue", "AsyncSubscribeRetrier_t.items AsyncSubscribeRetrier_t.isRunning", "rbusAsyncSubscribeRetrier_Create rbusAsyncSubscribeRetrier_Destroy")
guard("_rtThreadPool.poolLock", "_rtThreadPool.threadCount _rtThreadPool.busyThreadCount _rtThreadPool.taskList _rtThreadPool.threadList "
      "_rtThreadPool.isRunning _rtThreadPool.isShutdown", "rtThreadPool_Create rtThreadPool_TryRealDestroy rtThreadPool_RealDestroy")
guard("_rtSemaphore.m", "_rtSemaphore.v", "rtSemaphore_Create")

# values (not containers) that may be handed to a call after the mutex was released
BYVALUE = {"_rtListener.subscription_id", "_rtListener.closure", "_rtListener.callback", "_server_event.sub_data", "_server_event.sub_callback"}
# containers already detached from their registry when handed to a call
DETACHED = {("perform_cleanup", "rbuscore.c:g_event_subscriptions_for_client")}


def run(w, res):
    L = Locks(w)
    for f in L.over:
        raise RuntimeError("path budget exceeded in " + f)
    ctx, sites, roots = contexts(w, L)
    nacc = nprop = nfresh = npriv = 0
    cells = set()
    bad = defaultdict(list)

    def names(f, i):
        return {f.dname} | {x[2] for x in (i.loc or ())}

    for (fn, *rest), (i, k, held, fresh) in sorted(L.acc.items(), key=lambda x: (x[0][0], x[0][1])):
        f = w.m.funcs[fn]
        if k not in G or f.inlinedAway:
            continue
        mutex, private = G[k]
        cells.add(k)
        nacc += 1
        if mutex in held:
            continue
        if fresh:
            nfresh += 1
            continue
        if names(f, i) & private:
            npriv += 1
            continue
        if i.op == "call" and (k in BYVALUE or (f.dname, k) in DETACHED):
            continue
        # every caller chain has to hold it
        ok = {}

        def safe(n):
            if n in ok:
                return ok[n]
            ok[n] = True          # recursion: decided by the other callers
            g = w.m.funcs[n]
            if g.dname in private:
                return True
            if n in roots:
                ok[n] = False
                return False
            r = True
            for c, h in sites[n]:
                if mutex in h:
                    continue
                if not safe(c):
                    r = False
                    break
            ok[n] = r
            return r
        if safe(fn):
            nprop += 1
            continue
        bad[(f.dname, k)].append((i, held))
    for (fn, k), l in sorted(bad.items()):
        i, held = l[0]
        wr = any(x.op != "load" for x, _ in l)
        res.add("C03.guard", fn, k, i.where(),
                "%s uses %s at %d place(s) without %s held on every path (lines %s)" % (fn, k, len(l), G[k][0], ", ".join(str(x.line) for x, _ in l[:8])))
    res.count("guarded_cells", len(cells), int(len(G) * 0.85))
    res.count("accesses", nacc, 350)
    res.count("guarded_by_callers", nprop)
    res.count("private_accesses", nfresh + npriv)
    res.rule("C03.guard: at every load, store and hand-over of a listed cell its mutex is in the lock set of the path (intersection over all paths), or of every "
             "chain of callers up to API, thread and callback entry points, or the owning object is still (or again) private to its creator or destroyer")
    res.assume("the cell-to-mutex table in sa/rules/c03.py states the intended guard; objects are told apart by type and field, not by instance")
