#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, stmt, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Every mutex taken is released on every path, exactly once",
 "Whatever way an operation of the library, the broker daemon or the session manager ends - success, bad argument, time-out, transport or allocation failure - the calling thread holds, on return, exactly the mutexes it held on entry. No path unlocks a mutex the thread does not hold, and no path locks again a non-recursive mutex the thread already holds.",
 ["inputs", "fault_sequences", "programs"], "every function, every path through it (all error exits included), every calling context the call graph allows",
 "A leaked or doubly released lock shows only on the error exit that has it; the tests drive the success exits and a few failures, never allocation or transport failures inside a critical section.",
 ["src/core/rbuscore.c", "src/rtmessage/rtConnection.c", "src/rbus/rbus.c", "src/rbus/rbus_asyncsubscribe.c", "src/rbus/rbus_valuechange.c", "src/rbus/rbus_intervalsubscription.c", "src/rbus/rbus_handle.c", "src/rbus/rbus_element.c"],
 [("lock()/unlock(), directServerLock()/directServerUnlock(), directClientLock()/directClientUnlock()", "src/core/rbuscore.c"), ("LOCK()/UNLOCK() macros and HANDLE_*_MUTEX_LOCK", "src/rbus"), ("ELM_PRIVATE_LOCK/UNLOCK", "src/rbus/rbus_element.h")])

prop("C02", "Locks are always nested in one global order, so threads cannot deadlock",
 "There is one partial order over the library's mutexes such that no thread ever waits for a mutex while holding one that comes later in that order. In particular no two code paths, however they interleave, can each hold a mutex the other is waiting for.",
 ["schedules", "programs"], "every pair of lock acquisitions reachable on one thread, through any chain of calls, thread roots and registered handlers included",
 "A lock-order inversion needs two threads to hit two windows at once; tests run the paths one at a time.",
 ["src/core/rbuscore.c", "src/rtmessage/rtConnection.c", "src/rbus/rbus.c", "src/rbus/rbus_element.c", "src/rbus/rbus_valuechange.c", "src/rbus/rbus_intervalsubscription.c", "src/rbus/rbus_asyncsubscribe.c", "src/rbus/rbus_handle.c"],
 [("pthread_mutex_lock nesting", "src/core, src/rbus, src/rtmessage")])

prop("C03", "Shared registries are read and written only under their mutex",
 "Each piece of state that several threads share - the connection's pending-request, listener and callback queues, the server-object and client-subscription registries, the direct-connection tables, the handle table, the element tree's lookup, the per-handle subscription lists, the value-change, interval and retry queues - is accessed only while the mutex that guards it is held, except while it is private to the thread creating or destroying it.",
 ["schedules", "histories"], "every load and store of the listed state, on every path, under every calling context",
 "A data race needs a particular interleaving; the tests neither schedule nor detect one.",
 ["src/rtmessage/rtConnection.c", "src/core/rbuscore.c", "src/rbus/rbus.c", "src/rbus/rbus_handle.c", "src/rbus/rbus_message.c", "src/rbus/rbus_valuechange.c", "src/rbus/rbus_intervalsubscription.c", "src/rbus/rbus_asyncsubscribe.c", "src/rtmessage/rtThreadPool.c"],
 [("mutex to state association", "the struct or file that declares both")])

prop("C04", "Condition waits re-check their condition and no wake-up is lost",
 "A thread that waits for work, for a reply or for shutdown re-evaluates the awaited condition after every return from the wait before acting on it, so a spurious wake-up never makes it proceed. Every change of such a condition is made under the mutex the waiter sleeps with and is followed by a wake-up, so no waiter sleeps through the change it waits for.",
 ["schedules"], "every condition-variable wait and every write to the data it waits for, on every path",
 "Spurious and lost wake-ups depend on the scheduler; no test provokes either.",
 ["src/rtmessage/rtConnection.c", "src/rtmessage/rtSemaphore.c", "src/rtmessage/rtThreadPool.c", "src/rbus/rbus_asyncsubscribe.c", "src/rbus/rbus_valuechange.c", "src/rbus/rbus_intervalsubscription.c"],
 [("pthread_cond_wait/timedwait in a loop, predicate written under the mutex, pthread_cond_signal after", "listed files")])

prop("C05", "Shared objects are destroyed by exactly one releasing thread",
 "When several threads drop their references to one message, value, property, object, filter, connection or subscription, exactly one of them - the one whose own decrement took the count to zero - destroys it, and only then. Every change of such a count is a single atomic step and the decision to destroy uses the result of that very step, not a later read.",
 ["schedules"], "every place that changes or tests a reference count",
 "A double destroy needs two releases to interleave between the decrement and the test.",
 ["src/rtmessage/rtRetainable.h", "src/rtmessage/rtRetainable.c", "src/rtmessage/rtAtomic.h", "src/rtmessage/rtMessage.c", "src/rbus/rbus_value.c", "src/rbus/rbus_property.c", "src/rbus/rbus_object.c", "src/rbus/rbus_filter.c", "src/core/rbuscore_message.c"],
 [("atomic fetch-and-subtract deciding destruction", "rtRetainable_releaseInternal, rtMessage_Release")])

prop("C06", "Every reference to a bus object is released exactly once",
 "A reference an operation obtains to a message, value, property, object, filter or buffer is, on every path, either released once, or handed over once to a caller, container or queue that will release it. It is never released twice, never used after its last release, and an object kept beyond the call that received it as a loan is retained first.",
 ["inputs", "fault_sequences", "programs"], "every creation, retain and hand-over site, along every path to every exit of the function",
 "The leaking or double-releasing path is an error exit or a rare input shape; tests run mostly success paths and do not count references.",
 ["src/rbus/rbus.c", "src/rbus/rbus_message.c", "src/rbus/rbus_subscriptions.c", "src/rbus/rbus_valuechange.c", "src/rbus/rbus_asyncsubscribe.c", "src/rbus/rbus_intervalsubscription.c", "src/rbus/rbus_property.c", "src/rbus/rbus_object.c", "src/rbus/rbus_filter.c", "src/core/rbuscore.c", "src/rtmessage/rtConnection.c", "src/rtmessage/rtrouted.c"],
 [("*_Init/*_Retain/*_Release pairs", "include/rbus_*.h, src/rtmessage/rtMessage.h, src/core/rbuscore_message.h")])

prop("C07", "Every request is answered exactly once",
 "For each request message it accepts, the provider side of the bus and the broker send exactly one response - with an error code when the request cannot be decoded, names nothing, or has no handler - so a caller never waits out its time-out on a request that was received, and never gets two answers to one request. A request marked as not expecting an answer gets none.",
 ["inputs", "fault_sequences"], "every request kind the provider and the broker handle, every path through its handler, malformed payloads included",
 "Missing or double responses appear only on malformed or rare requests; tests send well-formed ones.",
 ["src/core/rbuscore.c", "src/rbus/rbus.c", "src/rtmessage/rtrouted.c", "src/rtmessage/rtrouteBase.c"],
 [("dispatch_method_call and the callback handlers' response out-parameter", "src/core/rbuscore.c, src/rbus/rbus.c"), ("rtRouted_On* handlers and rtRouter_SendMessage", "src/rtmessage/rtrouted.c")])

prop("C08", "A provider is entered only for elements and operations it registered",
 "Every call into a provider's get, set, table, event or method handler is made on an element found in the registry, of the kind the operation needs, after checking that this very handler was registered; otherwise the caller gets an error and nothing is called. Such a call never happens through a null handler, and a handler's calls for one element are serialised by that element's own mutex.",
 ["inputs", "programs", "schedules"], "every indirect call through a registered handler, on every path reaching it",
 "It must hold for every combination of registered and missing handlers, nested wildcard expansion and concurrent requests.",
 ["src/rbus/rbus.c", "src/rbus/rbus_element.c", "src/rbus/rbus_subscriptions.c", "src/rbus/rbus_valuechange.c", "src/rbus/rbus_intervalsubscription.c"],
 [("null checks of cbTable entries and ELM_PRIVATE_LOCK around the calls", "src/rbus/rbus.c, src/rbus/rbus_valuechange.c, src/rbus/rbus_element.c")])

prop("C09", "Sender and receiver agree on the layout of every message",
 "For each kind of request, response and event, the sequence of fields a sender appends is one the receiver's reading sequence accepts: same order, same type for each field, and the same condition for each optional or repeated field. This holds for properties, objects, values, filters and event data nested inside them.",
 ["inputs", "programs"], "every message kind, every path of its writer against every path of its reader",
 "Round trips are tested for a few shapes; optional parts, empty lists, null parts and error responses are not.",
 ["src/rbus/rbus.c", "src/rbus/rbus_message.c", "src/core/rbuscore.c", "src/rbus/rbus_subscriptions.c"],
 [("rbusMessage_Set*/Get* sequences", "src/rbus/rbus.c, src/core/rbuscore.c"), ("*_appendToMessage / *_initFromMessage", "src/rbus/rbus.c")])

prop("C10", "Each value type is written, read and accessed as that one type everywhere",
 "For every value type the bus defines, the code that stores, copies, compares, serialises, deserialises and returns a value of that type uses the same representation and the same width in all of these places, and byte order on the wire is the same in both directions. A typed read of a value succeeds only if the value holds exactly that type (text and bytes, which share one representation, may be read as either), and an unknown type tag is refused rather than interpreted.",
 ["inputs", "programs"], "every value type in every per-type switch and every typed accessor",
 "The tests round-trip one or two numbers per type on one host; a wrong width or a missing type shows only at extreme values or for that type.",
 ["src/rbus/rbus_value.c", "src/rbus/rbus_buffer.c", "src/rbus/rbus.c", "src/rbus/rbus_filter.c"],
 [("per-type switches and accessors", "src/rbus/rbus_value.c, src/rbus/rbus_buffer.c")])

prop("C11", "Frame headers are decoded exactly as they are encoded",
 "Every header field a sender writes is read back by the receiver at the same position, with the same width and byte order, into the same field, and both sides account for exactly the same number of bytes, so the payload starts where the sender put it. A header that is not well-formed is rejected.",
 ["inputs"], "every header field, both directions, optional fields included",
 "Tests exchange well-formed headers between identical builds; a symmetric-looking slip in an optional or large field stays hidden.",
 ["src/rtmessage/rtMessageHeader.c", "src/rtmessage/rtEncoder.c", "src/rtmessage/rtMessageHeader.h"],
 [("rtMessageHeader_Encode / rtMessageHeader_Decode", "src/rtmessage/rtMessageHeader.c")])

prop("C12", "Nothing received is used before it was actually received",
 "A value read from a message or a persisted file is used only after the read reported success or after it was given a definite default; a field that is missing, of another type or cut off is never used, neither as garbage from the stack nor as a null text or message. A read reports success only if an item of the type asked for was really there and everything asked for was set; a text it hands out ends within the message.",
 ["inputs", "fault_sequences"], "every field read from the wire or from a cache file, truncated and malformed messages included",
 "Tests send complete messages; a truncated one makes the reader use what was on the stack.",
 ["src/rbus/rbus.c", "src/core/rbuscore.c", "src/core/rbuscore_message.c", "src/rtmessage/rtMessage.c", "src/rtmessage/rtConnection.c", "src/rtmessage/rtrouted.c", "src/rtmessage/rtrouteBase.c", "src/rbus/rbus_filter.c", "src/rbus/rbus_value.c", "src/rbus/rbus_subscriptions.c"],
 [("results of rbusMessage_Get*, rtMessage_Get* and rbusBuffer_Read*", "listed files")])

prop("C13", "Fixed-size buffers are never written past their end",
 "No name, path, topic, number or text, whatever its length, makes an operation write beyond a fixed-size buffer or array; longer input is truncated, rejected or handled by a larger buffer. Truncated text is still terminated.",
 ["inputs"], "every write to a fixed-size array whose amount or index is not a constant",
 "Overflow needs over-long names or counts that the tests never use.",
 ["src/rbus/rbus.c", "src/core/rbuscore.c", "src/rtmessage/rtConnection.c", "src/rtmessage/rtMessage.c", "src/rtmessage/rtRoutingTree.c", "src/rtmessage/rtrouted.c", "src/rtmessage/rtSocket.c", "src/rbus/rbus_handle.c", "src/rbus/rbus_value.c", "src/rbus/rbus_element.c"],
 [("snprintf/strncpy/index bounds", "listed files")])

prop("C14", "Public operations refuse null handles and arguments instead of crashing",
 "Calling a public bus operation (opening, registering, discovering, getting, setting, tables, events, methods, sessions, logging) with a null handle, or with null for an argument it cannot do without, returns an error without dereferencing it, before any message is sent because of that call. Null given for any other pointer argument never crashes it. The accessors of the plain data types (values, properties, objects, filters) are outside this property.",
 ["inputs"], "every public operation that takes a handle or acts on the bus, and every one of its pointer parameters",
 "Each combination of function and argument would need its own test; the suite covers a fraction.",
 ["src/rbus/rbus.c", "src/rbus/rbus_handle.c", "src/rbus/rbus_log.c", "include/rbus.h"],
 [("VERIFY_NULL / VERIFY_HANDLE / VERIFY_ZERO", "src/rbus")])

prop("C15", "A failed step is never reported as success",
 "When a step an operation depends on fails - opening, registering, subscribing, sending, or any call whose outcome decides whether the operation took place - the operation's own result is an error, on every path. The result of an operation is never left undefined.",
 ["fault_sequences", "inputs"], "every status-returning operation and every failure of a step it depends on",
 "The failures have to be injected; the tests cannot make sends, allocations or nested registrations fail at will.",
 ["src/rbus/rbus.c", "src/core/rbuscore.c", "src/rtmessage/rtConnection.c", "src/rbus/rbus_message.c"],
 [("status returned from each failing call", "listed files")])

prop("C16", "Memory, sockets and files are given back on every path",
 "Every block of memory, file, socket, list or table an operation acquires is freed, closed or handed over before the operation ends, whichever way it ends, and never freed or used after it was freed.",
 ["fault_sequences", "inputs"], "every allocation and open, along every path to every exit",
 "Leaks and double frees on error exits need the error; tests do not inject allocation or I/O failures.",
 ["src/rbus/rbus.c", "src/core/rbuscore.c", "src/core/rbuscore_message.c", "src/rtmessage/rtConnection.c", "src/rtmessage/rtrouted.c", "src/rtmessage/rtRoutingTree.c", "src/rtmessage/rtMessage.c", "src/rbus/rbus_subscriptions.c", "src/rbus/rbus_element.c", "src/rbus/rbus_tokenchain.c"],
 [("free/close/rtList_Destroy/rtVector_Destroy on each exit", "listed files")])

prop("C17", "Closing or unregistering undoes everything that was set up",
 "When a handle is closed, an element unregistered, a subscription removed or a client disconnects, everything set up for it is undone: its elements, routes, subscriptions, listeners, timers, threads, sockets and table entries no longer exist afterwards, and nothing retained refers to the freed parts.",
 ["histories", "fault_sequences"], "every teardown operation and every resource its set-up counterpart establishes",
 "Residue of a teardown shows only in what happens later (a stale route, a callback on a freed record); tests end soon after the teardown.",
 ["src/rbus/rbus.c", "src/rbus/rbus_element.c", "src/rbus/rbus_subscriptions.c", "src/rbus/rbus_valuechange.c", "src/rbus/rbus_intervalsubscription.c", "src/rbus/rbus_asyncsubscribe.c", "src/core/rbuscore.c", "src/rtmessage/rtConnection.c", "src/rtmessage/rtrouted.c", "src/rtmessage/rtRoutingTree.c"],
 [("destroy and close paths", "listed files")])

prop("C18", "Persisted subscriptions always match memory and reload as they were saved",
 "After every change to a provider's set of subscriptions, the file that persists them is rewritten before the operation returns, so a provider that crashes right after and restarts serves the same subscribers. What is saved is read back field by field in the same order, type and width, and a file that does not parse is discarded without half-built subscriptions remaining.",
 ["crash_points", "histories", "inputs"], "every mutation of the subscription set; every saved field; every malformed file",
 "It needs a crash after each kind of mutation and a reload; tests restart at best once.",
 ["src/rbus/rbus_subscriptions.c", "src/rbus/rbus_buffer.c"],
 [("rbusSubscriptions_saveCache after mutation, rbusSubscriptions_loadCache", "src/rbus/rbus_subscriptions.c")])

prop("C19", "Walking a registry stays valid while entries are removed, and always ends",
 "Code that walks a list, tree, queue or table never steps from an entry that the same step removed or freed, and never skips or repeats entries because of a removal. Memory that was freed is neither used nor freed again. Every such walk makes progress on each iteration, so it ends.",
 ["histories", "inputs"], "every loop over a container in which entries are removed or freed, and every retry or drain loop",
 "It takes a particular membership (adjacent removals, last element, empty container) to expose a bad step.",
 ["src/rtmessage/rtRoutingTree.c", "src/rtmessage/rtrouted.c", "src/rtmessage/rtList.c", "src/rtmessage/rtVector.c", "src/rbus/rbus_subscriptions.c", "src/rbus/rbus_element.c", "src/rbus/rbus.c", "src/core/rbuscore.c"],
 [("successor fetched before removal", "listed files")])

prop("C20", "Every internal status maps to a public error, and only success maps to success",
 "Translating a status between the layers of the bus (transport, core, provider, public API) sends success to success and every failure to a failure, for every status value that exists; statuses with a public counterpart keep their meaning. Every public error code has a text of its own.",
 ["inputs"], "every enumerator of every status type",
 "It quantifies over all status values, most of which the tests never produce.",
 ["src/rbus/rbus.c", "src/core/rbuscore.c", "src/rtmessage/rtError.c", "src/core/rbuscore_types.h", "include/rbus.h"],
 [("CONVERT/translate functions and error text tables", "src/rbus/rbus.c, src/core/rbuscore.c, src/rtmessage/rtError.c")])

prop("C21", "A call that takes a time-out cannot block without one",
 "An operation the caller gave a time-out (or that promises a default one) never waits for another process or thread without a bound on the way to its result: every wait for a reply uses the time-out that was passed in, unchanged in unit, and no unbounded wait is reachable from it.",
 ["schedules", "fault_sequences"], "every blocking primitive reachable from a bounded operation",
 "It needs a peer that never answers at every possible waiting point.",
 ["src/rtmessage/rtConnection.c", "src/rtmessage/rtSemaphore.c", "src/core/rbuscore.c", "src/rbus/rbus.c"],
 [("rtSemaphore_TimedWait with the caller's milliseconds", "src/rtmessage/rtConnection.c")])

prop("C22", "A reply reaches only the request it answers",
 "A response is handed to a waiting caller only if it carries the sequence number and request kind of that caller's pending request; each request uses a number no other pending request of the connection has. A late, duplicate or unsolicited response is dropped and reaches no caller, and a request that was given up can no longer be completed.",
 ["schedules", "histories"], "every path from reading a response frame to waking a caller; every path that ends a pending request",
 "Mix-ups need concurrent callers and late replies; tests issue one request at a time.",
 ["src/rtmessage/rtConnection.c", "src/core/rbuscore.c", "src/rtmessage/rtrouted.c", "src/rtmessage/rtrouteBase.c"],
 [("pending-request list and sequence numbers", "src/rtmessage/rtConnection.c"), ("reply topic and sequence number copied from the request header", "src/core/rbuscore.c, src/rtmessage/rtrouted.c")])

prop("C23", "User callbacks run without any library-wide mutex held",
 "When the library calls back into the application - for an event, an asynchronous reply, a subscription outcome, a method or a get/set - the calling thread holds no mutex that another library operation on the same or another handle needs, so the callback may itself call the library.",
 ["schedules", "programs"], "every call through an application-supplied function pointer, in every calling context",
 "It takes a callback that re-enters the particular operation while another thread is active; tests' callbacks mostly record and return.",
 ["src/rbus/rbus.c", "src/rbus/rbus_asyncsubscribe.c", "src/rbus/rbus_valuechange.c", "src/rbus/rbus_element.c", "src/core/rbuscore.c", "src/rtmessage/rtConnection.c"],
 [("unlock before invoking the stored callback", "listed files")])

prop("C24", "The broker delivers by registered routes, and only their owner changes them",
 "The broker forwards a message to every client, and only to clients, whose registered topic matches it (or, for a reply, to the one client that asked), with the contents it was sent with; a request nobody takes is returned to the one who asked, marked undeliverable; the broker's own answers go to the one who asked. It removes or re-assigns a route only at the request of the client that owns it or because that client is gone, removes all routes of a client that is gone and none of another, and refuses to register an element name another live client already owns.",
 ["histories", "inputs"], "every path on which the broker adds, removes or follows a route",
 "Ownership conflicts need several clients acting on one name in a particular order.",
 ["src/rtmessage/rtrouted.c", "src/rtmessage/rtRoutingTree.c", "src/rtmessage/rtrouteBase.c"],
 [("route lookup and client comparison", "src/rtmessage/rtrouted.c, src/rtmessage/rtRoutingTree.c")])

prop("C25", "An event goes only to its own subscribers, and each matching one gets it",
 "A published event is sent to a subscriber only if the subscription is for that event, the subscription's filter (if any) accepts it, and the subscription is of the kind this publication serves; no subscription is passed over for another's sake - the failure or filtering of one does not stop the rest. What a subscriber is sent is made for it (its event name, listener, filter, interval, duration, component and subscription id). On the consumer's side an event is handed to the handler of the subscription it belongs to and to no other. A subscription is in force at exactly the elements its name names - existing ones and those created later -, a value that is polled is published as changed exactly when it differs from the one published last, and looking up a subscription or component finds the one with all the keys asked for.",
 ["inputs", "histories"], "every subscription examined by every publication, every path around the send",
 "It takes several subscriptions of mixed kind on one element with one failing; tests have one or two of one kind.",
 ["src/rbus/rbus.c", "src/rbus/rbus_subscriptions.c", "src/rbus/rbus_valuechange.c", "src/rbus/rbus_intervalsubscription.c", "src/core/rbuscore.c"],
 [("subscription loop of event publication", "src/rbus/rbus.c")])

prop("C26", "A background thread stops before what it uses is destroyed",
 "Every thread the library starts is either joined before the state it uses is destroyed or owns that state itself and is detached; every mutex and condition variable is initialised before its first use and never destroyed while a thread can still use it. A failure to start the thread is noticed.",
 ["schedules", "fault_sequences"], "every thread creation and every destruction of state its thread function reaches",
 "A use-after-destroy at shutdown needs the thread to be at the wrong point.",
 ["src/rtmessage/rtConnection.c", "src/rtmessage/rtThreadPool.c", "src/rbus/rbus_asyncsubscribe.c", "src/rbus/rbus_valuechange.c", "src/rbus/rbus_intervalsubscription.c", "src/rbus/rbus.c", "src/core/rbuscore.c"],
 [("pthread_create / pthread_join pairs", "listed files")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
