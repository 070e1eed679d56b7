claim("C02", "lock-order graph over the resolved call graph (LLVM IR)",
      "Acquired-while-held edges through every call chain and thread joins; cycles reported. Locks of one struct field are one class.")
claim("C03", "guarded-by (lockset) analysis on LLVM IR",
      "Every access to 40+ listed shared cells against the intersection lockset of its paths and caller chains.")
claim("C05", "path-sensitive reference-count analysis on LLVM IR (atomic steps, decision on the step's own result, destructor types)",
      "Every change and read of a reference count, every release call and destructor in the program.")
claim("C23", "interprocedural lockset x call-graph reachability of application callbacks on LLVM IR",
      "Every call made with a mutex held against every application callback reachable from it.")
claim("C04", "path-sensitive typestate on condition waits and condition changes (LLVM IR), with branch-dependence slices",
      "All condition waits and all changes of the awaited cells; the cells each condition variable stands for are a frozen table.")
claim("C26", "path-sensitive thread/mutex lifetime typestate on LLVM IR with interprocedural must-join summaries",
      "Every thread start, join, detach, mutex/condition initialisation and destruction; what each thread uses is a frozen table.")
claim("C14", "interprocedural null-argument dataflow on LLVM IR (one run per operation and argument, callee summaries)",
      "63 operations, 149 pointer arguments, one at a time null; which arguments are required is a frozen table; data type accessors are outside.")
claim("C11", "abstract interpretation of the header codec on LLVM IR (symbolic wire layout, width and byte order per field, both directions compared)",
      "Encoder, decoder and both readers of the connection and the broker; all paths, field positions as linear forms.")
claim("C13", "interprocedural bounds dataflow on LLVM IR (capacities of arrays against ranges, text lengths and loop-counter bounds)",
      "Every sized, formatted, text or indexed write into a fixed array; sizes demanded of callers' buffers and texts are followed up to the public API. Descriptor sets (FD_SET) and buffers on the heap are outside.")
claim("C20", "exhaustive concrete evaluation of the status mapping functions on LLVM IR",
      "Every mapping function and error text, for every value of the source enumeration.")
claim("C10", "per-type abstract evaluation of every type switch on LLVM IR (type fixed, all paths; tags, widths, conversions and accessors compared between writer and reader)",
      "18 value types in accessors, raw data, stored form, message form, comparison, copy, destruction, text, and the property/object wrappers. Lengths over 65535 in the stored form are outside.")
claim("C22", "path-sensitive typestate on LLVM IR (pending requests, response delivery, provenance of reply headers)",
      "Response delivery, the life of a pending request, and every header made from another one (client, broker, direct connections); values carry the field they were read from.")
claim("C08", "path-sensitive typestate on LLVM IR (registered handlers, element lookup, element mutex), obligations passed to callers and record writers",
      "Every indirect call through a handler of an element, event, method or object; registration of the handlers.")
claim("C18", "path-sensitive typestate on LLVM IR (list changed/saved, record layout written vs. read, partial reads), per-operator comparison of filter codecs, role inference of parameters",
      "Every change of a subscription list up to the outside caller, the saving and loading functions, the filter codec, and every call that passes a subscription's fields on. Crashes in the middle of a write are outside.")
claim("C24", "path-sensitive typestate on LLVM IR (route ownership, delivery walks, provenance of forwarded headers, shape of the topic tree)",
      "Every function of the broker that adds, removes or follows a route, and the topic tree's look-up, registration and removal; broker-side diagnostics commands are trusted operators.")
claim("C19", "path-sensitive typestate on LLVM IR (entries removed, memory freed, lists unlocked), loop-progress dependence analysis, index linear forms, link-state analysis of the list operations",
      "Every loop of the program, every function that walks a list or frees memory, every removal during a walk by index, the linked list's operations. Aliases through heap cells across calls are outside.")
claim("C25", "path-sensitive typestate on LLVM IR over subscription walks, keyed look-ups, name matching, polling and event dispatch (values carry the field they were read from)",
      "Every function that publishes, sends to a subscriber, polls, receives events, enters subscriptions at elements or looks an entry up by key in the client library. Delivery by the transport is C22/C24.")
claim("C07", "path-sensitive typestate on LLVM IR (answers per request header, request flag known, response out-parameter made once with a status, late answers)",
      "Every message handler of the broker, the direct-connection router and the client library's dispatch, and every callback that makes a response, on every path, with the functions they call. Whether a forwarded request is answered is the receiving client's part.")
claim("C12", "path-sensitive typestate on LLVM IR (places left unset or null by failed reads, with per-function outcome summaries)",
      "Every function that reads a field of a message, JSON message or stored buffer, directly or through helpers, and the reading functions themselves.")
