"""Registry: properties, the harness entries that decide them, their bounds."""
CRATES = {
    "client": dict(dir="harness/client", lib="vclient", repo=["crates/vertigo", "crates/vertigo-macro", "Cargo.toml"], force=["vertigo", "vertigo-macro", "vclient"]),
    "server": dict(dir="harness/server", lib="vserver", repo=["crates/vertigo", "crates/vertigo-macro", "crates/vertigo-cli", "Cargo.toml"], force=["vertigo", "vertigo-macro", "vserver", "world", "stdx", "tokio", "axum", "axum-macros", "reqwest", "tower-http", "wasmtime", "clap", "log-stand-in", "poem", "poem-derive", "notify", "futures", "tokio-retry", "include_dir"], also=["harness/client/src"]),
}
HOOKS = None
COMMON_ASSUMPTIONS = [
    "rustc 1.81-nightly's lowering to LLVM IR for wasm32-unknown-unknown (release semantics, wrapping arithmetic) is the program that is checked",
    "rsym (engine/) interprets LLVM IR correctly; a sample of explored paths is replayed in the compiled wasm module on every run",
    "HashMap iteration order is the one of the fixed SipHash keys the wasm target uses",
    "z3 answers are trusted",
    "one thread (as in WebAssembly)",
]
G = "crates/vertigo/src/computed/"
def R(entry, *args, reach=(), bounds="", **k): return dict(crate=k.pop("crate", "client"), entry=entry, args=list(args), reach=list(reach), bounds=bounds, **k)
PROPS = []
NOT_APPLICABLE = []
def P(**k): PROPS.append(k)
def NA(**k): NOT_APPLICABLE.append(k)
def by_id(i): return next(p for p in PROPS if p["id"] == i)
NOTE = "Bounded: within the stated bounds every value of the symbolic inputs and every choice of operations is decided by the solver; nothing is claimed beyond them. Trusts the executor (replay-validated), z3, rustc's IR and the harness's model of the host."

P(id="G01", title="Derived values always equal a fresh computation over the current sources",
  statement="Whenever a derived value is read, inside or outside a transaction, observed or not, it equals what its function returns for the values its sources hold at that moment, including writes made so far in the running transaction. This holds after any history of writes, reads, subscriptions, unsubscriptions and dependency switches (a function may read different sources on each run). A source always holds the last value written to it.",
  over=["histories", "inputs"], quant="every history of writes, transactional writes, reads, subscriptions and unsubscriptions over 3 sources and 6 derived values (chains, diamonds, conditional dependencies), with every 32-bit value written",
  why="The tests run a few fixed graphs with fixed values and fixed orders; staleness needs a particular order of reads, switches of dependencies and unsubscriptions.",
  files=[G + "computed_box.rs", G + "graph_id.rs", G + "graph_value.rs", G + "dependencies/mod.rs", G + "dependencies/graph_one_to_many.rs", G + "value.rs"],
  mech=[("dirty marking and dependency edges", G + "graph_value.rs"), ("edge bookkeeping", G + "dependencies/graph.rs")],
  bounds="3 sources of symbolic u32, 6 derived values; quick: histories of 3 steps over 3 derived values and 2 steps over all 6; thorough: 3 steps over all 6, 4 steps over 2", outside="longer histories, larger graphs, non-integer value types, HashMap orders other than the wasm one",
  runs=dict(quick=[R("h_graph_fresh", 2, 6, reach=["end", "read", "sub", "unsub"]), R("h_graph_script", 4, 2, 3, reach=["end", "nested", "read", "sub-inside", "tx", "unsub"]), R("h_graph_script", 3, 0, 3, reach=["end"])],
            thorough=[R("h_graph_script", 5, 2, 3, timeout=900), R("h_graph_fresh", 3, 3), R("h_graph_fresh", 3, 6, reach=["end"], timeout=900), R("h_graph_fresh", 4, 2, reach=["end"], timeout=900)]), note=NOTE)
P(id="G02", title="Subscribers see exactly the sequence of changed committed values",
  statement="A subscriber is called once when it subscribes, and afterwards exactly once per outermost transaction that leaves its value different from the one it saw last, with the committed value; transactions that leave the value equal do not call it. After unsubscribing it is never called again. A subscription created inside a callback lives until that callback's next call and is never called with values from outside its own lifetime.",
  over=["histories", "inputs"], quant="every history of writes (three kinds), multi-write transactions, subscriptions and unsubscriptions of any derived value, every 32-bit value",
  why="Tests subscribe to one or two values and write constants; duplicate, missing or stale calls depend on equalities between written values and on the order of operations.",
  files=[G + "computed_box.rs", G + "graph_value.rs", G + "value.rs", "crates/vertigo/src/computed/drop_resource.rs"], mech=[("refresh after the transaction, comparison with the last value", G + "computed_box.rs")],
  bounds="3 sources, 6 derived values, up to 2 (thorough 3) operations after the first subscription, every u32; nested subscriptions: 2 (3) operations", outside="longer histories",
  runs=dict(quick=[R("h_graph_script", 4, 2, 3, reach=["end", "nested", "read", "sub-inside", "tx", "unsub"]), R("h_graph_script", 3, 0, 3, reach=["end"]), R("h_graph_notify", 2, 3, reach=["changed", "unchanged", "tx", "dropped"]), R("h_graph_nested", 3, reach=["both"])],
            thorough=[R("h_graph_script", 5, 2, 3, timeout=900), R("h_graph_notify", 2, 6, reach=["changed", "unchanged", "tx", "dropped"], timeout=900), R("h_graph_notify", 3, 2, timeout=900), R("h_graph_nested", 4, timeout=600)]), note=NOTE)
P(id="G03", title="Transactions nest; effects appear once, after the outermost one",
  statement="Writes made in a transaction, at any nesting depth, become visible to subscribers only after the outermost transaction ends, and then at once. End-of-transaction hooks run exactly once per outermost transaction. A transaction returns what its body returns.",
  over=["histories", "inputs"], quant="every body of nested transactions up to the bound, every 32-bit value written",
  why="Tests nest once with fixed values; premature notification depends on where in the nesting the write happens.",
  files=[G + "dependencies/mod.rs", G + "dependencies/transaction_state.rs", "crates/vertigo/src/driver_module/driver.rs"], mech=[("nesting counter and refresh at level zero", G + "dependencies/transaction_state.rs")],
  bounds="nesting depth 2 with 1 operation per level, depth 1 with 2 operations (thorough)", outside="deeper nesting",
  runs=dict(quick=[R("h_graph_script", 4, 2, 3, reach=["end", "nested", "read", "sub-inside", "tx", "unsub"]), R("h_graph_script", 3, 0, 3, reach=["end"]), R("h_graph_tx", 2, 1, reach=["nested", "changed", "same"]), R("h_graph_tx", 0, 2, reach=["changed", "same"])], thorough=[R("h_graph_script", 5, 2, 3, timeout=900), R("h_graph_tx", 1, 2, reach=["nested", "changed", "same"], timeout=900), R("h_graph_tx", 4, 1, timeout=600)]), note=NOTE)
P(id="G04", title="Derived values are computed on demand, at most once per transaction",
  statement="A derived value's function does not run before anyone asks for it, runs at most once per outermost transaction however many of its sources changed, and does not run when none of the sources it last read changed or when the value was just read. Values nobody observes are not recomputed on writes; after the last unsubscription nothing runs.",
  over=["histories", "inputs"], quant="every choice of two observed values among six, every write of every 32-bit value",
  why="Tests count runs for a couple of fixed graphs; redundant recomputation depends on the graph shape and on which values are observed.",
  files=[G + "graph_value.rs", G + "computed_box.rs", G + "dependencies/graph.rs"], mech=[("lazy recomputation, topological refresh", G + "graph_value.rs")],
  bounds="any two of six derived values observed; 1 (thorough 2) further transactions", outside="more observers",
  runs=dict(quick=[R("h_graph_work", 1, reach=["end"])], thorough=[R("h_graph_work", 2, reach=["end"], timeout=900)]), note=NOTE)
P(id="G05", title="External connections are open exactly while something observes the value",
  statement="A value with an external connection has exactly one open connection while at least one subscriber depends on it (directly or through derived values, also when dependencies switch), and none before the first subscriber or reader comes or after the last subscriber left; it is opened and closed alternately. (A derived value that is read without a subscriber may keep the connection open as long as that derived value lives or until it is subscribed and released.) Values pushed by the connection reach all observers. Subscribing and unsubscribing leaves no bookkeeping behind: all memory is returned.",
  over=["histories", "inputs"], quant="every history of subscriptions, unsubscriptions, dependency switches and pushes up to the bound",
  why="Leaks and connections that stay open appear only in particular orders of unsubscription and dependency switching; tests try one order.",
  files=[G + "graph_id.rs", G + "dependencies/graph.rs", G + "dependencies/external_connections.rs", G + "value.rs", G + "auto_map.rs"], mech=[("connection opened on first parent, closed on last", G + "dependencies/external_connections.rs")],
  bounds="one connected source, three derived values (two switching), 4 (thorough 5) operations; release: 2 (3) rounds of 4 orders", outside="several connected sources, longer histories",
  runs=dict(quick=[R("h_graph_connect", 4, 1, reach=["end", "unsub", "pushed"]), R("h_graph_release", 2, reach=["end"])], thorough=[R("h_graph_connect", 6, 0, reach=["end"], timeout=900), R("h_graph_connect", 5, 1, reach=["end"], timeout=900), R("h_graph_release", 3, timeout=900)]), note=NOTE)
P(id="G06", title="A keyed store builds each entry once and always hands out the same one",
  statement="For each key, a keyed auto-creating store calls its builder exactly once, on first access through any clone, and returns the same entry with its current state ever after.",
  over=["histories", "inputs"], quant="every sequence of accesses over three keys through two clones with writes in between",
  why="Tests access one key twice.", files=[G + "auto_map.rs"], mech=[("map shared by clones", G + "auto_map.rs")],
  bounds="4 (thorough 6) accesses, 3 keys, 2 clones", outside="other key types", runs=dict(quick=[R("h_automap", 4, reach=["end"])], thorough=[R("h_automap", 6, reach=["end"])]), note=NOTE)
D = "crates/vertigo/src/driver_module/"
P(id="G07", title="Hooks and release actions run exactly once while registered, never after removal",
  statement="Every end-of-transaction hook that is registered runs exactly once per outermost transaction, in order of registration, and never after it was removed, whatever was registered or removed in between, also by another hook while hooks run. A release action runs exactly once, when its handle is dropped or switched off, and not before.",
  over=["histories"], quant="every sequence of registrations, removals and transactions up to the bound", why="Tests register one hook.",
  files=[G + "drop_resource.rs", G + "dependencies/hook.rs", D + "event_emitter.rs"], mech=[("listener table keyed by a counter", D + "event_emitter.rs")],
  bounds="5 (thorough 6) operations", outside="longer sequences", runs=dict(quick=[R("h_emitter", 5, reach=["end", "fired"])], thorough=[R("h_emitter", 6, reach=["end"])]), note=NOTE)
P(id="G08", title="A value is released once, after it was replaced, and may use the graph then",
  statement="A value that is replaced in a source, or whose place in a derived value becomes outdated, is released exactly once. Code that runs as it is released (outside of the refreshing of subscribers) finds the new value in place and may read and write sources, also the one it was in, and derived values: what it reads is current, what it writes counts as written after the replacing value, and derived values and subscribers follow.",
  over=["histories", "inputs"], quant="every history of writes, transactions, subscriptions up to the bound in which every released value reads or writes the graph",
  why="Tests hold plain data; memory is misused only when a released value reaches the cell it is just leaving.",
  files=[G + "struct_mut/value_mut.rs", G + "value.rs", G + "graph_value.rs", G + "dependencies/refresh.rs", G + "dependencies/mod.rs"], mech=[("replacement of the content of a cell", G + "struct_mut/value_mut.rs")],
  bounds="one source of guarded values, one of numbers, one derived guarded value; 2 steps with 2 acting releases each, 3 steps with 1 (thorough 3 with 2)", outside="values released while subscribers are refreshed (writing panics then), derived values that depend on ones created later",
  runs=dict(quick=[R("h_graph_release_values", 2, 2, reach=["end", "look", "other", "self", "sub"]), R("h_graph_release_values", 3, 1, reach=["end"])], thorough=[R("h_graph_release_values", 3, 2, reach=["end"], timeout=600)]), note=NOTE)
P(id="B01", title="Values cross the boundary to the host unchanged, in both directions",
  statement="Every value the application passes to the host (integers of either sign and width, doubles including NaN and infinities, text, bytes, lists, objects, JSON) arrives there as the same value, and every value the host answers arrives in the application as the same value. This holds at any nesting and for lengths that need every byte of the length field.",
  over=["inputs"], quant="every value up to the stated nesting and width, every bit pattern of every number, every UTF-8 text and byte string up to the length bound, plus lengths around 2^8 and 2^16",
  why="Tests encode and decode a few constants; byte order, sign, length and nesting errors show only for particular bits.",
  files=[D + "js_value/js_value_struct.rs", D + "js_value/js_json_struct.rs", D + "js_value/memory_block_read.rs", D + "js_value/memory_block_write.rs", D + "js_value/memory_block.rs", D + "api/api_dom_access.rs"], mech=[("encoder and decoder of the tagged format", D + "js_value/js_value_struct.rs")],
  bounds="nesting 1 with up to 2 members and nesting 2 with 1 member (thorough: nesting 2 with 2 members), texts of up to 2 characters of any UTF-8 width, all 64-bit patterns; lengths 255, 256, 300, 65535, 65536, 70000 (objects up to 300 entries)", outside="objects of more than 65535 entries (the format has a 16-bit count); deeper nesting",
  assumptions=["the host's codec is the harness's own implementation of the format of src_js/jsvalue.ts"],
  runs=dict(quick=[R("h_wire_out", 1, 2, 2, reach=["object", "list", "json", "string", "plain"]), R("h_wire_in", 1, 2, 2, reach=["object", "list", "json", "string", "plain"]), R("h_wire_out", 2, 1, 1, reach=["object"]), R("h_wire_in", 2, 1, 1, reach=["object"]), R("h_wire_echo", 1, 1, 2, reach=["text"]), R("h_wire_long", 0, reach=["end"])],
            thorough=[R("h_wire_out", 2, 2, 1, reach=["object"], timeout=600), R("h_wire_in", 2, 2, 1, reach=["object"], timeout=600), R("h_wire_out", 1, 2, 3), R("h_wire_in", 1, 2, 3), R("h_wire_echo", 2, 2, 2), R("h_wire_long", 0, reach=["end"])]), note=NOTE)
P(id="B02", title="JSON values compare by content, and equal values hash equally",
  statement="Two JSON values are equal exactly when they have the same content: same kind, same text, same number bit for bit, same list elements in order, same object entries in any order. Equality is symmetric, a clone equals its original, and equal values always hash equally.",
  over=["inputs"], quant="every pair of JSON values up to the bound, objects built in any order", why="Tests compare a few constants; hash inconsistencies depend on map iteration order.",
  files=[D + "js_value/js_json_struct.rs"], mech=[("hand-written equality and hash", D + "js_value/js_json_struct.rs")],
  bounds="nesting 1: up to 2 members with texts, up to 3 members without; nesting 2 with 1 member (thorough: with texts)", outside="larger values",
  runs=dict(quick=[R("h_json_eq", 1, 2, 1, reach=["equal", "different"]), R("h_json_eq", 1, 3, 0, reach=["equal", "different"]), R("h_json_eq", 2, 1, 0, reach=["equal", "different"])], thorough=[R("h_json_eq", 1, 2, 2, reach=["equal"], timeout=900), R("h_json_eq", 2, 1, 1, reach=["equal"], timeout=900)]), note=NOTE)
P(id="B03", title="Application data survives conversion to JSON and back",
  statement="For every supported type (integers up to 2^53 in magnitude, booleans, text, unit, options, lists, string-keyed maps, dates and times, derived structs, newtypes, tuples and enums), reading back a value's JSON yields the same value. Derived types use the documented layout: one property per field, unit variants as text, other variants as a one-entry object; a missing field is an error that names it unless the field declares a default.",
  over=["inputs"], quant="every value of every listed type up to the bound", why="Tests convert a handful of constants.",
  files=[D + "js_value/serialize.rs", "crates/vertigo-macro/src/jsjson/structs.rs", "crates/vertigo-macro/src/jsjson/enums.rs", "crates/vertigo-macro/src/jsjson/newtypes.rs", "crates/vertigo-macro/src/jsjson/tuple_fields.rs", D + "js_value/serialize_chrono.rs"], mech=[("conversion traits and derive macro", D + "js_value/serialize.rs")],
  bounds="all 32-bit integers, integers up to 2^53, texts up to 2 bytes, collections up to 3 entries, a 7-field struct with a 6-variant enum", outside="64-bit integers beyond 2^53 (a double cannot hold them), dates outside the sampled days",
  runs=dict(quick=[R("h_json_round", 0, reach=["end"]), R("h_json_derive", 0, reach=["end"])]), note=NOTE)
P(id="B04", title="Malformed or mistyped data is refused, never misread",
  statement="A JSON value offered to a type is accepted exactly when it is of that type, and then means the same; otherwise the result is an error that starts at the root. (A field that declares a default takes it when it is missing or cannot be read.) Boundary messages with unknown type prefixes, invalid UTF-8 or of an unexpected type never reach the application as a value and are reported; a truncated message never yields a value.",
  over=["inputs"], quant="every JSON value up to the bound against twelve types; every byte string up to the bound as a message", why="Tests try two wrong types.",
  files=[D + "js_value/serialize.rs", D + "js_value/js_value_struct.rs", D + "js_value/memory_block_read.rs", D + "js_value/js_value_list_decoder.rs", D + "api/api_import.rs"], mech=[("decoders return errors", D + "js_value/serialize.rs")],
  bounds="JSON: nesting 1 with 2 members, nesting 2 with 1 member; messages of up to 6 (thorough 8) bytes", outside="numbers outside the integer range (they saturate by design)",
  runs=dict(quick=[R("h_json_offer", 1, 2, reach=["accepted", "refused"]), R("h_json_offer", 2, 1, reach=["accepted", "refused"]), R("h_json_mutate", 0, reach=["accepted", "end", "refused"]), R("h_wire_bad", 6, reach=["accepted", "rejected"]), R("h_wire_bad", 1, reach=["accepted", "rejected"])], thorough=[R("h_json_offer", 2, 2, timeout=600), R("h_wire_bad", 8, timeout=900), R("h_wire_bad", 3)]), note=NOTE)
P(id="B05", title="Host callbacks reach exactly the callback they name; argument memory is recycled",
  statement="A call from the host runs the live callback with that identity exactly once with the argument passed, and no other; calls to released or unknown callbacks run nothing and are reported. Identities are never shared, and a callback may release itself or others while running. Argument blocks of live calls never overlap, keep their contents, are consumed once and are all returned.",
  over=["histories", "inputs"], quant="every sequence of registrations, releases and host calls up to the bound; every order of using and freeing blocks", why="Tests never drive the callback gateway from the host side.",
  files=[D + "api/callbacks.rs", D + "api/arguments.rs", "crates/vertigo/src/lib.rs", D + "js_value/memory_block.rs"], mech=[("callback table", D + "api/callbacks.rs"), ("block table", D + "api/arguments.rs")],
  bounds="3 (thorough 4) operations over 2 to 5 callbacks; 3 (4) argument blocks of three sizes", outside="longer histories",
  runs=dict(quick=[R("h_callbacks", 3, 0, reach=["called", "dead", "dropped"]), R("h_callbacks", 3, 1, reach=["called", "self-drop"]), R("h_blocks", 3, reach=["end", "used"])], thorough=[R("h_callbacks", 4, 0, timeout=600), R("h_callbacks", 4, 1, timeout=600), R("h_blocks", 4, timeout=600)]), note=NOTE)
P(id="B06", title="Spawned tasks and timers: nothing lost, nothing twice, nothing after cancelling",
  statement="Whatever the order in which timers fire and results are published, before or after they are awaited, every spawned task whose awaited results have all happened runs to completion exactly once with the published values, without stale wakeups causing harm, and then releases its memory. Timers are registered with the requested duration; an interval runs on every tick until it is cancelled and never afterwards, and cancelling one leaves the others alone.",
  over=["schedules", "inputs"], quant="every interleaving of timer firings and publications up to the bound, for tasks that await results, sleeps, joins, nested tasks and their own wakeups", why="The repository has no executable test of the executor; lost wakeups need a particular order of publication and polling.",
  files=[D + "utils/futures_spawn.rs", "crates/vertigo/src/future_box.rs", D + "api/api_import.rs", D + "driver.rs"], mech=[("zero-delay timer per wakeup", D + "utils/futures_spawn.rs"), ("waker kept with the result slot", "crates/vertigo/src/future_box.rs")],
  bounds="one task: 4 host steps; two tasks of six kinds: 2 host steps and a varied drain; timers: 3 (4) operations", outside="more tasks",
  runs=dict(quick=[R("h_tasks", 1, 4, reach=["end", "timer"]), R("h_tasks", 2, 1, reach=["end"]), R("h_task_release", 0, reach=["end"]), R("h_timers", 3, reach=["end", "late", "cancelled"])], thorough=[R("h_tasks", 1, 6, timeout=600), R("h_tasks", 2, 2, timeout=900), R("h_tasks", 2, 3, timeout=900), R("h_task_release", 0), R("h_timers", 4)]), note=NOTE)
P(id="B07", title="Host services are asked for what was requested and their answers are returned",
  statement="Cookies, environment variables, random numbers, clock, time zone, address and history calls pass exactly the requested names, values and ranges to the host and return its answer. Elapsed time and deadlines are exact for a clock that does not go backwards. Plain responses and suppressed cookie writes happen on the server only.",
  over=["inputs"], quant="every name, value, range and clock reading up to the bound", why="None of these services runs in the existing tests.",
  files=[D + "api/api_import.rs", D + "driver.rs", "crates/vertigo/src/instant.rs"], mech=[("one host call per service", D + "api/api_import.rs")],
  bounds="2-byte names and values, all 32-bit ranges, 42-bit clocks, 53-bit times", outside="clocks that go backwards",
  runs=dict(quick=[R("h_services", 0, reach=["end"])]), note=NOTE)
M = "crates/vertigo/src/"
DOMF = [M + "driver_module/dom.rs", M + "driver_module/dom_command.rs"]
P(id="D01", title="The document always shows the view of the current values",
  statement="After mounting and after every transaction, applying the emitted commands yields exactly the document that the view describes for the current values: elements, attributes, texts and nesting, in order. Parts rendered from values, derived values, options and nested views are included. No command refers to a node that does not exist, no node is created twice, and nothing but visible nodes exists.",
  over=["histories", "inputs"], quant="every history of writes to the values a view with nested dynamic parts depends on, every text shown",
  why="The tests render a few views once; misplaced, stale or leaked nodes need particular histories of nested switches.",
  files=[M + "dom/dom_element.rs", M + "dom/dom_node.rs", M + "dom/dom_text.rs", M + "dom/dom_comment.rs", M + "render/dom_value.rs"] + DOMF, mech=[("dynamic parts re-rendered behind a marker node", M + "render/dom_value.rs"), ("commands batched per transaction", M + "driver_module/dom.rs")],
  bounds="a view with two dynamic texts, two dynamic parts (one nested in the other), 3 (thorough 4) updates; texts of symbolic ASCII; a static view with every text of up to 4 bytes; attributes given twice in every form", outside="larger views, longer histories",
  assumptions=["the browser applies commands the way dom.ts does (the harness's document model, which refuses whatever dom.ts refuses)"],
  runs=dict(quick=[R("h_dom_view", 3, 0, reach=["both", "end"]), R("h_dom_view", 3, 1, reach=["both", "end"]), R("h_dom_static", 0, reach=["end"]), R("h_dom_attr_once", 2, reach=["end", "gone"])], thorough=[R("h_dom_view", 4, 0, timeout=900), R("h_dom_view", 4, 1, timeout=900), R("h_dom_static", 0)]), note=NOTE)
P(id="D02", title="Lists show one item per entry, in order, and keep items whose entry stays",
  statement="A rendered list shows, after every change of its collection, the items of the current entries in their order, whether an item is an element, a text, a fragment or a dynamic part. An entry whose key stays keeps its node and its internal state and is not rendered again; an entry that leaves is removed once. Entries with equal keys do not disturb each other.",
  over=["histories", "inputs"], quant="every sequence of collections up to the bound (any permutation, insertion, removal, repetition), with values that change in place",
  why="Tests reorder a few lists; wrong order or lost items need particular moves, and items made of several nodes were never covered.",
  files=[M + "render/dom_list.rs", M + "dom/dom_node.rs", M + "dom/dom_element.rs", M + "dom/dom_comment.rs"] + DOMF, mech=[("pairing of old and new items from both ends, keyed middle", M + "render/dom_list.rs")],
  bounds="collections of up to 4 of 4 keys for one change from any start, 3 of 3 for two changes, with repeated keys 3 of 2; items that are elements, fragments, dynamic parts, comments or nested lists: 2 entries, 2 changes", outside="larger collections",
  assumptions=["the document model of D01"],
  runs=dict(quick=[R("h_dom_list", 3, 3, 1, 0, 0, reach=["end", "kept"]), R("h_dom_list", 3, 2, 1, 0, 1, reach=["end"]), R("h_dom_list", 3, 3, 2, 0, 0, reach=["end", "kept"]), R("h_dom_list", 4, 4, 1, 0, 0, reach=["end", "kept"])] + [R("h_dom_list", 2, 2, 2, k, 0, reach=["end"]) for k in (1, 2, 3, 4)] + [R("h_dom_list", 2, 5, 1, 5, 0, reach=["end"]), R("h_dom_list", 3, 3, 1, 4, 0, reach=["end"])],
            thorough=[R("h_dom_list", 3, 2, 2, 0, 1), R("h_dom_list", 4, 4, 2, 0, 0, timeout=900), R("h_dom_list", 5, 5, 1, 0, 0, timeout=900), R("h_dom_list", 3, 3, 2, 2, 0, timeout=900), R("h_dom_list", 3, 3, 2, 3, 0, timeout=900), R("h_dom_list", 4, 3, 1, 0, 1, timeout=900)]), note=NOTE)
P(id="D03", title="Attributes, classes and styles follow the current values",
  statement="An element's attributes always carry the latest value, static or derived; an absent optional attribute is removed, an attribute given several times (also within a group) has the value given last. Without a class and a style the class attribute is absent or empty. The class attribute joins the explicit class with the class of the current style. Each generated class stands for exactly the declared style, equal styles share one class, and every rule is inserted once.",
  over=["histories", "inputs"], quant="every history of writes to the values behind static, dynamic, optional and grouped attributes, classes and styles, with symbolic texts",
  why="Tests render attributes once; stale or stuck values depend on the order of writes.",
  files=[M + "dom/attr_value.rs", M + "dom/dom_element_class.rs", M + "dom/dom_element.rs", M + "css/css_manager.rs", M + "driver_module/dom.rs"], mech=[("class merging", M + "dom/dom_element_class.rs")],
  bounds="one element with ten attributes, three style blocks, 4 (thorough 5) updates; two (thorough three) entries of every form for three names with and without styles, one update", outside="longer histories",
  assumptions=["the document model of D01"],
  runs=dict(quick=[R("h_dom_attr", 3, reach=["absent", "end"]), R("h_dom_attr", 4, reach=["absent", "end"]), R("h_dom_attr_once", 2, reach=["end", "gone"])], thorough=[R("h_dom_attr", 5, timeout=900), R("h_dom_attr_once", 3, reach=["end", "gone"], timeout=900)]), note=NOTE)
P(id="D04", title="Events reach their current handler with their data, and only while mounted",
  statement="Each event listener is attached once under its event's name. An event runs the current handler exactly once with the data of the event (text, key with modifiers, dropped files), and the host receives the handler's answer. Replacing a handler keeps the listener. Malformed event data is reported and never reaches a handler. When the element is unmounted the listener is removed and its handler never runs again.",
  over=["inputs", "histories"], quant="every event kind, every event payload up to the bound, static and replaced handlers, every malformed shape",
  why="No test delivers an event.",
  files=[M + "dom/dom_element.rs", M + "dom/callback.rs", M + "driver_module/dom.rs", M + "driver_module/api/callbacks.rs"], mech=[("handler installed behind a callback identity", M + "dom/callback.rs")],
  bounds="12 event kinds, 2 events, texts of 2 characters, 0 to 2 dropped files; malformed: eight values of other kinds, and one missing or replaced part anywhere in the data", outside="more events",
  assumptions=["the document model of D01"],
  runs=dict(quick=[R("h_dom_events", 0, reach=["bad", "end"]), R("h_dom_events", 1, reach=["bad", "end"])]), note=NOTE)
P(id="D05", title="Unmounted parts of the view leave nothing behind",
  statement="When a part of the view is unmounted, all its nodes, listeners, subscriptions and memory are released, however it was built (attributes, events, lists, nested dynamic parts, fragments, loading layers) and whether or not its values changed while it was mounted. Mounting and unmounting repeatedly does not grow memory.",
  over=["histories"], quant="seven kinds of parts, four rounds of mounting, optional change and unmounting",
  why="Tests do not measure what remains after unmounting.",
  files=[M + "dom/dom_element.rs", M + "dom/dom_comment.rs", M + "dom/dom_text.rs", M + "dom/dom_element_class.rs", M + "render/dom_value.rs", M + "driver_module/dom.rs", M + "driver_module/dom_suspense/dom_connection.rs"], mech=[("drop of the element removes node and subscriptions", M + "dom/dom_element.rs")],
  bounds="4 rounds, 7 kinds, every choice of changing the values in each round; allocation balance of the last round is exactly zero", outside="other view shapes",
  assumptions=["the document model of D01", "the allocator model counts live allocations exactly"],
  runs=dict(quick=[R("h_dom_release", 0, reach=["end"])]), note=NOTE)
P(id="D06", title="Loading layers show exactly while something beside them is loading",
  statement="An element with a loading layer has its loading style exactly while a loading marker exists anywhere below the layer's parent, through any sequence of markers appearing, moving, and disappearing, and of layers being mounted and unmounted, at any nesting.",
  over=["histories"], quant="every history of loading states, mounts, unmounts and list reorders up to the bound over two nested layers",
  why="Tests cover the path bookkeeping alone; wrong layers need particular orders of attachment and removal.",
  files=[M + "driver_module/dom_suspense/dom_suspense_mod.rs", M + "driver_module/dom_suspense/dom_connection.rs", M + "driver_module/dom_suspense/node_paths.rs", M + "dom/dom_element_class.rs"], mech=[("paths of markers and layers to the root", M + "driver_module/dom_suspense/dom_suspense_mod.rs")],
  bounds="two nested layers and one mounted later, three slots of three states, 4 (thorough 5) updates", outside="more layers",
  assumptions=["the document model of D01"],
  runs=dict(quick=[R("h_dom_suspense", 3, reach=["end", "inner", "late"]), R("h_dom_suspense", 4, reach=["end", "inner", "late"])], thorough=[R("h_dom_suspense", 5, timeout=900)]), note=NOTE)
FE = M + "fetch/"
P(id="F01", title="A cached request is sent exactly when it is due; all readers see its result",
  statement="A lazy cached request is sent on a read or an observed change only if it has no result or its time to live has elapsed (reading a value derived from it that is up to date is no read of the request), and never while it is already being sent. Its readers see Loading until the first result, then the latest result (value, or error with its message); an expired result stays visible while the refresh runs. forget() drops the result; a forced update always sends (unless one is running) and shows Loading if asked to. Subscribers are called exactly on changes of the state. All clones share one state.",
  over=["histories", "inputs"], quant="every history of reads, subscriptions, answers (6 kinds, symbolic bodies), forget, forced and lazy updates, and symbolic advances of the clock, for four times to live",
  why="No test reads a LazyCache twice; double sending and stale results need particular orders of reads, answers and clock values.",
  files=[FE + "lazy_cache.rs", FE + "request_builder.rs", FE + "resource.rs", M + "instant.rs", M + "driver_module/utils/futures_spawn.rs"], mech=[("needs_update and the queued lock", FE + "lazy_cache.rs"), ("is_expire", M + "instant.rs")],
  bounds="4 (thorough 5) operations after creation, 3 (4) after each of three prepared situations (a refresh of an expired result is running; a subscriber has a result; a forced refresh is running); clock advances of 0 to 200 s in total per step, every millisecond; one-character bodies", outside="longer histories; time to live overflow",
  assumptions=["the host answers each request at most once and reports milliseconds"],
  runs=dict(quick=[R("h_lazy", 4, 0, reach=["answered", "clock", "end", "force", "forget", "get", "sub", "update"])] + [R("h_lazy", 3, k, reach=["answered", "clock", "end", "force", "forget", "get", "sub"]) for k in (1, 2, 3)], thorough=[R("h_lazy", 5, 0, reach=["end"], timeout=900)] + [R("h_lazy", 4, k, reach=["end"], timeout=600) for k in (1, 2, 3)]), note=NOTE)
P(id="F02", title="Requests are sent as built; each is answered once with its own answer",
  statement="Calling a request sends exactly one request to the host with the built method, address, headers and body (text, JSON or binary). Its caller is completed exactly once, with the status and body the host answered to this very request, in whatever order answers arrive; failures, unreadable answers and answers rejected by the caller's conversion become errors; an error message carries the status. A second answer changes nothing and is reported.",
  over=["inputs", "histories"], quant="every method, header and body form with symbolic contents; every order of answers to up to two requests, every kind of answer, 16-bit status and malformed shape",
  why="The tests never send a request; mixed-up answers need two pending requests answered in another order.",
  files=[FE + "request_builder.rs", FE + "mod.rs", M + "driver_module/api/api_import.rs", M + "driver_module/api/callbacks.rs", M + "driver_module/js_value/js_value_struct.rs"], mech=[("request and its answer callback", M + "driver_module/api/api_import.rs")],
  bounds="1 or 2 requests, one-character texts", outside="more concurrent requests, longer texts",
  assumptions=["the model of the host's request interface (harness/client/src/host.rs)"],
  runs=dict(quick=[R("h_fetch", 1, 0, reach=["answered", "end"]), R("h_fetch", 2, 0, reach=["answered", "end"]), R("h_fetch", 1, 1, reach=["answered", "end", "failed", "malformed"])], thorough=[R("h_fetch", 2, 1, reach=["answered", "end", "failed", "malformed"], timeout=600)]), note=NOTE)
P(id="F03", title="The first document update waits for the requests of the initial view",
  statement="While requests started by the initial view (or started before the last of these was answered) are unanswered, nothing is sent to the document; when the last one has been answered (well, with an error, or not decodable) everything held back is sent, in order, and the document shows the current state. With nothing to wait for, the document is filled right away. Afterwards each change of the state is one document update, and later requests hold nothing back.",
  over=["histories"], quant="0 to 2 initial requests plus requests that depend on them, every order and kind of answers, changes of the state before and after",
  why="No test runs the hold-back; losing or duplicating updates needs answers in particular orders.",
  files=[M + "driver_module/dom.rs", M + "driver_module/api/api_import.rs", M + "driver_module/driver.rs", FE + "lazy_cache.rs", M + "driver_module/event_emitter.rs"], mech=[("counting of started and finished requests, held commands", M + "driver_module/dom.rs")],
  bounds="(1 request, 4 steps), (2, 4), (0, 2)", outside="requests which start only after the last answer, more requests",
  assumptions=["the document model of D01"],
  runs=dict(quick=[R("h_fetch_hold", 1, 4, reach=["end", "held", "released"]), R("h_fetch_hold", 2, 4, reach=["dependent", "end", "held", "later", "released"]), R("h_fetch_hold", 0, 2, reach=["end"])], thorough=[R("h_fetch_hold", 2, 5, timeout=600), R("h_fetch_hold", 2, 6, timeout=900)]), note=NOTE)
P(id="F04", title="Resource and request helpers keep state, value and error apart",
  statement="Mapping a resource keeps Loading and Error as they are and applies the function to the ready value; the question-mark operator stops at the first resource that is not ready and returns exactly that state; equality is by state and content. A request body converts to a type only if it is JSON of that type. A time to live given in seconds, minutes, hours or days is that span.",
  over=["inputs"], quant="every pair of resource states with 32-bit values and symbolic errors; every ttl value below 65536",
  why="Tests check single values.",
  files=[FE + "resource.rs", FE + "request_builder.rs"], mech=[("Try implementation", FE + "resource.rs")],
  bounds="u32 values, one-character errors", outside="other types",
  runs=dict(quick=[R("h_resource", 0, reach=["end", "first", "ready"])]), note=NOTE)
CS = M + "css/"
P(id="C01", title="A css block becomes one class and exactly the rules it describes",
  statement="The style sheet receives for a css block: its declarations under its generated class, each nested selector rule under class plus selector, each media query with its declarations and nested rules under the class, and keyframes for an animation with frames under a fresh name that replaces the frames in the animation value; nothing else, nothing missing, whatever the white space, the order, a missing last semicolon, and whatever characters (also of several bytes) the values contain. The element gets that class.",
  over=["inputs"], quant="every sequence of up to 2 (thorough 3) items out of 14 forms with one arbitrary character (1 to 4 bytes, other than ; { }) inside each value, three spacings, static and dynamic blocks",
  why="Tests hold a few ASCII blocks; splitting errors depend on the characters and on which forms are neighbours.",
  files=[CS + "transform_css/mod.rs", CS + "transform_css/splits.rs", CS + "css_manager.rs", CS + "get_selector.rs", CS + "next_id.rs"], mech=[("row splitting state machine", CS + "transform_css/splits.rs"), ("rule generation", CS + "transform_css/mod.rs")],
  bounds="1 item with characters up to 2 bytes, 2 items with 1 byte; thorough: 1 item up to 4 bytes, 3 items", outside="values containing ; { }, nested selectors starting with a class, CssGroup::CssMedia (nothing constructs it)",
  assumptions=["constant hash: maps with symbolic keys are executed with all keys in one probe group (counterexamples and samples are replayed with the real hash)"],
  runs=dict(quick=[R("h_css_rules", 1, 2, const_hash=True, reach=["end"]), R("h_css_rules", 2, 1, const_hash=True, reach=["end"])], thorough=[R("h_css_rules", 1, 4, const_hash=True, timeout=600), R("h_css_rules", 2, 2, const_hash=True, timeout=900)]), note=NOTE)
P(id="C02", title="Equal styles share one class and one rule; different styles never do",
  statement="Elements with the same style text (written statically, or built dynamically) get the same class, and its rules are inserted once in the lifetime of the page; different texts get different classes. (A static and a dynamic style of the same text may have one class each.) A style composed of several blocks gets their classes in order, after the class given as attribute.",
  over=["inputs", "histories"], quant="every assignment of 1 or 2 of 4 blocks (two texts, static and dynamic) with symbolic texts to 2 (thorough 3) elements",
  why="Tests compare two fixed styles.",
  files=[CS + "css_manager.rs", CS + "css_structs.rs", M + "dom/dom_element_class.rs"], mech=[("class lookup by text", CS + "css_manager.rs")],
  bounds="2 (3) elements, 1 or 2 blocks each, one symbolic character per text", outside="more blocks",
  assumptions=["constant hash as in C01"],
  runs=dict(quick=[R("h_css_share", 2, const_hash=True, reach=["end"])], thorough=[R("h_css_share", 3, const_hash=True, timeout=840)]), note=NOTE)
P(id="C03", title="The css! macro keeps what is written and fills in the expressions",
  statement="The text of a css! block is the written one (white space aside) with every expression in braces replaced by its value in place, whether it is the whole value, part of one, directly followed by a unit, inside url(), nested rules, media queries or keyframes; blocks without expressions are kept literally.",
  over=["inputs"], quant="seventeen blocks covering each grammar form, repeated and similar expressions, with symbolic expression values",
  why="Tests cover whole-value expressions only.",
  files=["crates/vertigo-macro/src/css_parser.rs", "crates/vertigo-macro/src/css.pest", CS + "css_structs.rs"], mech=[("parser and generator of the macro", "crates/vertigo-macro/src/css_parser.rs")],
  bounds="seventeen fixed blocks; values of one character out of six, numbers 1 to 9", outside="other blocks (the macro runs at compile time: each block is one program), braces inside quoted strings of blocks with expressions",
  runs=dict(quick=[R("h_css_macro", 0, reach=["end"])]), note=NOTE)
P(id="R01", title="A router's value is the route of the current location",
  statement="A router's value is the route parsed from its kind of location (path or hash) at creation and after every navigation, by the browser or by the program, observed or not; it never follows the other kind. Setting or changing a route pushes exactly one location, the text of the route. Subscribers see the changes in order, only changes, once each. While a router lives it listens once; afterwards not at all. Clones are equal and share the value.",
  over=["histories", "inputs"], quant="every history of set, change, browser navigation, subscription and read up to the bound, both kinds, symbolic locations (also ones no route prints)",
  why="No test navigates; missed or doubled navigations depend on who observes the router when.",
  files=[M + "router.rs", M + "driver_module/api/api_import.rs", G + "value.rs"], mech=[("listener of the location", M + "router.rs")],
  bounds="2 and 3 (thorough 4) operations, locations of one symbolic character, subscriber direct or through a derived value", outside="longer histories",
  assumptions=["the host announces every change of location to all listeners (harness/client/src/host.rs), pushing an equal location announces nothing"],
  runs=dict(quick=[R("h_router", 2, reach=["browser", "change", "end", "read", "set", "sub", "unsub"]), R("h_router", 3, reach=["end"])], thorough=[R("h_router", 4, timeout=840)]), note=NOTE)
P(id="W01", title="A web socket delivers its own events, in order, until it is dropped",
  statement="Opening a web socket asks the host for exactly that address. Its handler gets the connection when it opens, every text message unchanged and in order, and the closing, each exactly once and only its own; other data is reported. Messages sent through a connection reach the host unchanged through that socket. After the socket is dropped the host is told to close it (and no other), and its handler never runs again. Changes made by a handler are one transaction.",
  over=["histories", "inputs"], quant="every history of events of two sockets up to the bound, symbolic texts",
  why="No test opens a web socket.",
  files=[M + "websocket.rs", M + "driver_module/api/api_import.rs", M + "driver_module/api/callbacks.rs", M + "driver_module/driver.rs"], mech=[("callback with its own identity", M + "driver_module/api/callbacks.rs")],
  bounds="two sockets, 2 and 3 (thorough 4) events, one-character texts", outside="the browser's reconnecting (TypeScript)",
  runs=dict(quick=[R("h_ws", 2, reach=["close", "dropped", "end", "message", "odd", "open", "sent"]), R("h_ws", 3, reach=["end"])], thorough=[R("h_ws", 4, timeout=600)]), note=NOTE)
P(id="M01", title="The document holds exactly what the markup says",
  statement="A dom! or dom_element! block builds exactly the elements it writes, once each, at their place and in order, with exactly the attributes it writes: literal, computed and shorthand attributes, names with dashes; optional attributes only while present. Embedded texts, values, computed values, nodes, optional values and spread lists appear where they are written and follow their values. A component gets exactly the properties written (defaults for the others) and its content stands where it is named. An event attribute attaches its handler to the event of its name and to no other.",
  over=["inputs", "histories"], quant="every form of attribute, child and component of the macros, with symbolic texts, present or absent options and later changes; every event attribute",
  why="The tests build a few blocks and mostly check that they compile; a lost, doubled or misplaced part needs a particular form with particular values.",
  files=["crates/vertigo-macro/src/html_parser.rs", "crates/vertigo-macro/src/component.rs", M + "dom_macro/dom.rs", M + "dom/attr_value.rs", M + "dom/dom_element.rs"],
  mech=[("translation of markup into element building calls", "crates/vertigo-macro/src/html_parser.rs"), ("components as structs with a mount function", "crates/vertigo-macro/src/component.rs")],
  bounds="the forms written in harness/client/src/markup.rs (the macro's output is what is executed), texts of one character, one change of every value", outside="other combinations of forms in one block",
  runs=dict(quick=[R("h_markup", k, reach=["end"] if k == 4 else ["empty", "end"]) for k in range(5)] + [R("h_markup_events", 0, reach=["end"])]), note=NOTE)
P(id="M02", title="Closures and combined values see what their names stood for",
  statement="A closure made with bind!, bind_rc! or bind_spawn! sees, every time it runs, the values its names had when it was made; a spawned one runs its task to the end for each call. Values combined as tuples, mapped, or taken through a generic interface always equal the combination of their sources' current values, subscribers of them are called exactly when it changed, and what a subscriber returned is held until the next call has returned or the subscription ends, and then released, once.",
  over=["inputs", "histories"], quant="every form of the macros; every history of writes up to the bound over tuples, maps and generic values",
  why="Tests only compile these forms.",
  files=["crates/vertigo-macro/src/bind.rs", G + "mod.rs", G + "computed_box.rs", G + "value.rs", G + "reactive.rs"], mech=[("clones of the named values before the closure", "crates/vertigo-macro/src/bind.rs")],
  bounds="2 and 3 writes with symbolic values", outside="longer histories",
  runs=dict(quick=[R("h_bind", 0, reach=["end"]), R("h_tuple", 2, reach=["changed", "end"]), R("h_tuple", 3, reach=["end"])]), note=NOTE)
P(id="B08", title="Direct calls into the host are made as written; logs and panics are reported",
  statement="A chain of steps on a host object (api, root, get, set, call, get_props; window!, document!; element references) reaches the host as exactly those steps, in order, with exactly those names and arguments; the host's answer comes back unchanged, and nothing else is asked. A log record of level debug and above reaches the host's console as its level with file, line and text, lower ones do not; a panic is reported to the host with its message.",
  over=["inputs"], quant="every chain of steps up to the bound with symbolic names, arguments and answers; every log level",
  why="No test has a host to call.",
  files=[D + "api/api_dom_access.rs", D + "api/api_import.rs", "crates/vertigo-macro/src/api_access.rs", M + "lib.rs", D + "init_env.rs"], mech=[("builder of steps", D + "api/api_dom_access.rs")],
  bounds="chains of up to 3 steps with plain arguments, 1 step with nested arguments", outside="longer chains; evaluation of the steps in the browser (TypeScript)",
  assumptions=["maps whose keys are symbolic are executed with all keys in one probe group (counterexamples and samples are replayed with the real hash)"],
  runs=dict(quick=[R("h_access", 1, 1, const_hash=True, reach=["call", "end", "exec", "set"]), R("h_access", 2, 0, const_hash=True, reach=["end"]), R("h_access", 3, 0, const_hash=True, reach=["end"]), R("h_access_macro", 0, reach=["end", "raw", "ref"]), R("h_log", 0, reach=["end", "panic", "trace"])]), note=NOTE)
P(id="I01", title="The document recreated for inspection is the document that was built",
  statement="What vertigo::inspect recreates from the commands since its log was started is the document those commands built: every element, text, attribute, event and list in its place, classes made by css shown as the styles they stand for, nothing of what was removed or replaced in the meantime. Taking the log empties it.",
  over=["histories", "inputs"], quant="every history of changes up to the bound of texts, attributes, classes, styles, alternatives and lists",
  why="Tests inspect a document right after it was built, never after a change.",
  files=[M + "inspect.rs", M + "css/css_manager.rs", M + "driver_module/dom.rs", M + "driver_module/dom_command.rs"], mech=[("replay of logged commands", M + "inspect.rs")],
  bounds="2 (thorough 3) changes of 6 values, texts of one character", outside="comments (markers of lists) and empty classes in the output",
  runs=dict(quick=[R("h_inspect", 1, reach=["class", "end", "style"]), R("h_inspect", 2, reach=["end"])], thorough=[R("h_inspect", 3, reach=["end"], timeout=600)]), note=NOTE)
SV = "crates/vertigo-cli/src/serve/"
SVA = ["the network, file system, clock, task scheduler, HTTP router and WebAssembly runtime around the server are the stand-ins of harness/server/shims (tokio, axum, reqwest, tower-http, wasmtime, std::fs, std::time); the server's own code, vertigo's codec, serde_json and html-escape are executed as they are"]
CH = "maps whose keys are symbolic are executed with all keys in one probe group (counterexamples and samples are replayed with the real hash)"
def S(entry, *args, **k): return R(entry, *args, crate="server", **k)
P(id="S01", title="A rendered page shows every text and value, whatever characters it has",
  statement="For every text, attribute value (also in void elements), style and setting of the server's environment, with any characters, the page sent by the server is HTML in which a browser reads back exactly that text or value at that place: nothing ends early, nothing becomes markup, nothing is escaped twice, and nothing is lost (white space at the ends of a text beside elements aside).",
  over=["inputs"], quant="every text of up to 3 characters of 1 to 4 bytes in seven places",
  why="Tests render a few harmless constants; wrong escaping shows only for particular characters at particular places.",
  files=[SV + "html/html_element.rs", SV + "html/element.rs", SV + "html/html_response.rs"], mech=[("writer of elements, attributes and text", SV + "html/html_element.rs")],
  bounds="one place at a time, texts up to 2 characters of up to 3 bytes (thorough: 3 characters)", outside="contents of script elements, styles with '<', control characters NUL and CR, longer texts",
  assumptions=SVA + ["the page is read by the harness's own HTML reader"],
  runs=dict(quick=[S("h_escape", 1, 1, 7, reach=["attr", "end", "env", "mixed", "style", "text", "two", "void"]), S("h_escape", 2, 3, 7, reach=["end"])], thorough=[S("h_escape", 1, 4, 7), S("h_escape", 3, 3, 7, timeout=600)]), note=NOTE)
P(id="S02", title="The rendered page is the document the application built",
  statement="After any history of document commands (creating, inserting, moving, removing, changing texts, setting and removing attributes, attaching and detaching events), split over messages in any way, the page the server sends is exactly the resulting document: every node once, at its place, in order, with its current attributes and texts; removed nodes with everything below them are absent.",
  over=["histories", "inputs"], quant="every legal history of commands up to the bound, at any position, split over messages anywhere",
  why="Tests apply one or two fixed command lists; lost or misplaced nodes need particular moves and removals.",
  files=[SV + "html/element.rs", SV + "html/element_children.rs", SV + "html/dom_command.rs", SV + "html/html_element.rs", SV + "wasm/decode_commands.rs"], mech=[("tree of ids with ordered children", SV + "html/element_children.rs")],
  bounds="2 prepared children and 2 commands, 0 prepared and 3 commands (thorough: 2 and 3)", outside="longer histories, illegal commands (unknown parents, cycles)",
  assumptions=SVA, runs=dict(quick=[S("h_tree", 2, 2, 0, reach=["attr", "batch", "end", "move", "remove", "update"]), S("h_tree", 2, 3, 1, reach=["end"]), S("h_tree", 1, 4, 1, reach=["end"]), S("h_tree", 3, 0, 0, reach=["end"])], thorough=[S("h_tree", 3, 2, 0, reach=["attr", "batch", "end", "move", "remove", "rmattr", "update"], timeout=840), S("h_tree", 2, 3, 1, timeout=600), S("h_tree", 2, 4, 1, timeout=840), S("h_tree", 4, 0, 0, timeout=600)]), note=NOTE)
P(id="S03", title="Every answer of the server is the right kind: page, plain text or error",
  statement="A page has status 200, content type text/html, starts with the doctype, and holds the application's document plus all its styles in order at the start of the body, each setting as a data-env attribute of the html element, and the start script, with the addresses of the run script and the program, at the end of the body. A plain response is sent as it is as text/plain. A program that mounts no usable document, or panics at any time while its page is rendered, is answered with status 500 and the reason as text. No answer may be cached.",
  over=["inputs"], quant="eleven kinds of programs, every combination of up to 2 styles and 2 settings with symbolic contents",
  why="Tests cover only the tree writer.",
  files=[SV + "html/html_response.rs", SV + "response_state.rs", SV + "wasm/wasm_instance.rs", SV + "server_state.rs", SV + "wasm/message.rs", SV + "wasm/data_context.rs"], mech=[("awaiting the end of rendering and building the document", SV + "html/html_response.rs"), ("panic reporting", SV + "server_state.rs")],
  bounds="2 styles, 2 settings, plain texts of 2 characters", outside="applications whose html element has unusual children",
  assumptions=SVA, runs=dict(quick=[S("h_document", 2, 2, reach=["end", "error", "page", "panic", "plain"])]), note=NOTE)
P(id="S04", title="The server waits for the page's requests, sends equal ones once",
  statement="While a page is rendered, every distinct request of the application (method, address, headers in whatever order, body) is sent exactly once; each asker, also one that asks for the same again later, is told the answer to its own request, exactly once. The page is sent when every request (also those made from answers and delayed tasks of zero delay) has been answered, or after ten seconds with what is there; what the answers changed is in the page. Timers with a positive delay, however short, do not run on the server.",
  over=["histories", "inputs"], quant="up to 3 requests with symbolic parts plus one that follows from an answer, every order and kind of answers, or the time limit at any point",
  why="Tests do not render applications that fetch; a lost or doubled request needs equal requests answered in particular orders.",
  files=[SV + "html/html_response.rs", SV + "request_state.rs", SV + "html/mod.rs", SV + "wasm/data_context.rs", SV + "wasm/message.rs", SV + "html/send_request.rs", SV + "wasm/wasm_instance.rs"], mech=[("table of waiting requests", SV + "html/html_response.rs")],
  bounds="2 requests with one follower; 3 requests; 2 requests with four headers in different orders", outside="more requests; applications that request again for ever",
  assumptions=SVA + [CH],
  runs=dict(quick=[S("h_requests", 2, 1, 0, 1, const_hash=True, reach=["again", "complete", "end", "follow", "neterror", "timeout", "zero"]), S("h_requests", 2, 0, 1, 0, reach=["complete", "end"]), S("h_requests", 3, 0, 0, 0, const_hash=True, reach=["complete", "end", "timeout"])],
            thorough=[S("h_requests", 2, 1, 0, 1, const_hash=True), S("h_requests", 3, 0, 0, 1, const_hash=True, timeout=600), S("h_requests", 3, 1, 0, 0, const_hash=True, timeout=840), S("h_requests", 3, 0, 1, 0, timeout=600)]), note=NOTE)
P(id="S05", title="Requests and answers are translated faithfully between program and HTTP",
  statement="A request sent by the server for the application has the built method (any method), address, headers and body; a text body is sent as it is as text/plain, binary bytes as they are, a JSON body as JSON text meaning the same value (numbers as JSON.stringify writes them), each with the matching content type unless the application set one. An answer reaches the application with its status and its body as JSON, text or bytes, according to its content type; an answer that cannot be read as that is a failure.",
  over=["inputs"], quant="every body form with symbolic contents, six sizes up to 70,000 bytes, seven methods, ten content types, every 16-bit status, every kind of failure",
  why="Tests do not send requests from the server.",
  files=[SV + "html/send_request.rs", SV + "html/mod.rs", SV + "request_state.rs", SV + "wasm/message.rs"], mech=[("building of the request and decoding of the answer", SV + "html/send_request.rs")],
  bounds="texts and bodies of 1 or 2 characters, JSON of depth 0 (thorough 1), ten numbers", outside="numbers other than the ten (text of floats is the library's), longer bodies",
  assumptions=SVA + [CH],
  runs=dict(quick=[S("h_send", 1, 0, const_hash=True, reach=["end", "json", "none", "notnumber", "raw"]), S("h_send", 0, 1, const_hash=True, reach=["end", "list", "object"]), S("h_answer", 1, const_hash=True, reach=["binary", "end", "failed", "json", "text"]), S("h_long", 6, const_hash=True, reach=["end"])],
            thorough=[S("h_send", 2, 1, const_hash=True, timeout=600), S("h_answer", 2, const_hash=True, timeout=600)]), note=NOTE)
P(id="S06", title="The program is told the truth about its surroundings on the server",
  statement="On the server the program sees the address that was asked for with its query, exactly the configured settings (null for others), the server's clock, and that it does not run in a browser. Browser-only services (cookies, web sockets, recurring timers, navigation) do nothing and answer nothing. Its log records appear in the server's log, errors as warnings. No well-formed message of the program, whatever its shape, stops the server or changes the page of others.",
  over=["inputs"], quant="every address tail, setting name and value up to the bound, every clock value in a range; every call shape over 6 services, 6 functions and 5 argument kinds",
  why="Tests do not run a program on the server.",
  files=[SV + "wasm/wasm_instance.rs", SV + "request_state.rs", SV + "wasm/get_now.rs", SV + "wasm/js_value_match.rs", SV + "wasm/message.rs", SV + "wasm/decode_commands.rs", SV + "wasm/data_context.rs"], mech=[("matching of the program's calls", SV + "wasm/wasm_instance.rs")],
  bounds="address tails of 2 characters, settings of 1 character of up to 3 bytes, calls with up to 2 arguments", outside="messages that are not encoded values (only the program's own encoder writes them)",
  assumptions=SVA + [CH],
  runs=dict(quick=[S("h_surroundings", 2, const_hash=True, reach=["end", "set", "unset"]), S("h_garbage", 1, 1, reach=["end"])], thorough=[S("h_surroundings", 3, const_hash=True, timeout=600), S("h_garbage", 2, 1, timeout=600)]), note=NOTE)
P(id="S07", title="Each url is answered by the page, the static files or the right proxy",
  statement="Addresses under the public path are answered by the static files with a cache time of one day (whatever the answer is), addresses under a configured proxy path by asking the configured target for the rest of the address (with query), everything else by rendering the page. A proxy passes on method, rest of the address, the posted JSON and headers, and answers with the status, headers and body it got (also when that came in chunks), or with 500. In watch mode the reload script of the right port is added once to pages, and to nothing else.",
  over=["inputs"], quant="ten prefixes with symbolic tails, every kind and 16-bit status of answers, symbolic bodies, three ports",
  why="Tests do not start the server.",
  files=[SV + "serve_run.rs", SV + "server_state.rs", SV + "response_state.rs", SV + "mount_path.rs"], mech=[("installation of proxies and static files", SV + "serve_run.rs"), ("reload script", SV + "response_state.rs")],
  bounds="tails of 1 (thorough 2) characters, two proxies, posted objects of three shapes", outside="several proxies with overlapping paths, path normalisation done by the HTTP library",
  assumptions=SVA, runs=dict(quick=[S("h_routes", 1, reach=["end", "page", "proxied", "proxyerror", "static"]), S("h_proxy_post", reach=["end", "proxied"]), S("h_watch", 1, reach=["end", "error", "page", "plain"])],
            thorough=[S("h_routes", 2, reach=["end", "page", "proxied", "proxyerror", "static"]), S("h_proxy_post", reach=["end", "proxied"]), S("h_watch", 2, reach=["end"])]), note=NOTE)
P(id="S08", title="A program served as a page shows the view of its values and answers",
  statement="The page the server sends for a program written with vertigo is the view of the program's current values: texts, attributes, styles with their classes, lists, the route of the address, settings, and what the program does on the server (is_browser is false). Requests the view needs, also those that depend on other answers, are each sent once, and the page shows their results or failures; tasks started by the program run before the page is sent. A plain response handler that returns text for the address replaces the page by that text. A program made for another version of the server says so in the log, and nothing is reported as an error otherwise.",
  over=["inputs", "histories"], quant="four addresses with symbolic tails, symbolic texts, styles and settings; every kind and order of answers to two dependent requests; tasks",
  why="No test runs a program on the server.",
  files=["crates/vertigo-macro/src/main_wrap.rs", M + "lib.rs", M + "driver_module/driver.rs", M + "driver_module/dom.rs", M + "driver_module/api/api_import.rs", SV + "wasm/wasm_instance.rs", SV + "html/html_response.rs", SV + "wasm/decode_commands.rs"], mech=[("entry point and message exchange of program and server", SV + "wasm/wasm_instance.rs"), ("plain responses", M + "driver_module/driver.rs")],
  bounds="one program in three variants, one-character texts of up to 3 bytes", outside="a page whose first requests take longer than ten seconds (nothing of the view has been sent then); several pages of one instance",
  assumptions=SVA + ["program and server share one linear memory, addresses of the program are shifted by a constant"],
  runs=dict(quick=[S("h_whole", 0, 1, reach=["end", "plain", "setting"]), S("h_whole", 1, 0, reach=["dependent", "end", "error", "list"]), S("h_whole", 2, 0, reach=["end", "task", "version"]), S("h_long", 6, const_hash=True, reach=["end"])], thorough=[S("h_whole", 0, 2, reach=["end", "plain", "setting"], timeout=600), S("h_whole", 1, 1, reach=["dependent", "end", "error", "list"], timeout=600), S("h_whole", 2, 0, reach=["end", "task"])]), note=NOTE)
CLA = SVA + ["cargo, rustup and wasm-opt behave as their stand-ins: cargo compiles a package anew when its rlib is missing or its source changed, and only then writes the files it includes; the file system is a flat table of files and directories"]
CL = "crates/vertigo-cli/src/"
P(id="T01", title="vertigo build leaves exactly one servable build of the right package",
  statement="`vertigo build` builds the named package, or else the first workspace member that is a cdylib, for release and for wasm (installing the target if it is missing), with the public path in its environment; from any directory of the workspace. Afterwards the destination holds exactly: vertigo's run script and the program, under names made of their name and a hash of their content (equal contents have equal names, different contents different ones), index.json naming both under the public path, every file the program includes (also if the program itself did not change since the last build), and, if asked, the source map naming the hashed run script; nothing that was there before. The program is the optimised one if optimisation is on and the optimiser succeeds, the built one if it is off, missing or fails. If cargo fails, or there is no package to build, the build is an error and leaves nothing that can be served. What a build leaves can be served: the page names the files and they are served with their content.",
  over=["inputs", "faults"], quant="three project layouts and working directories, named, inferred and missing packages, both orders of packages, options, public paths and destinations, an absent, failing or working optimiser, a failing cargo, a missing target; a second build of a changed or unchanged program; programs of symbolic bytes for the names",
  why="The repository has no test of building; it is tried by hand with one project.",
  files=[CL + "build/build_run.rs", CL + "build/build_opts.rs", CL + "build/cargo_build.rs", CL + "build/cargo_workspace.rs", CL + "build/check_env.rs", CL + "build/find_target.rs", CL + "build/wasm_opt.rs", CL + "build/wasm_path.rs", CL + "commons/command.rs", CL + "serve/mount_path.rs"], mech=[("destination of a build", CL + "build/build_run.rs"), ("choice of the package", CL + "build/cargo_workspace.rs"), ("names by content", CL + "build/wasm_path.rs")],
  bounds="two builds in sequence; up to two included files; programs that differ in their last bytes for the names: up to 2 (thorough 3) bytes with four values each", outside="an empty public path or one that ends in a slash; CARGO_TARGET_DIR (the include_static macro and cargo metadata disagree on it); an optimiser that fails after writing its output; hash collisions of larger contents (contents that differ only in leading zero bytes share a name: no program or script starts with two)",
  assumptions=CLA,
  runs=dict(quick=[S("h_build", const_hash=True, reach=["changed", "failed", "first cdylib", "nothing to build", "optimised", "served"]), S("h_names", 1, 1, const_hash=True, reach=["end"]), S("h_names", 2, 1, const_hash=True, reach=["end"])], thorough=[S("h_build", const_hash=True, reach=["changed", "failed", "first cdylib", "nothing to build", "optimised", "served"]), S("h_names", 2, 2, const_hash=True, reach=["end"], timeout=300), S("h_names", 3, 2, const_hash=True, reach=["end"], timeout=600)]), note=NOTE)
P(id="T02", title="vertigo watch builds every change and shows browsers the last version",
  statement="`vertigo watch` builds and serves the package and then watches its directory and the directories added to it. Every change there leads to a build that starts after it (also a change while a build runs); changes below the target directory of the workspace or below the destination do not, so builds do not cause builds. Browsers connect to the configured port, the one the served page names, and are told Building, Errors or Version = n whenever that changes, never the same twice in a row, with growing versions; a version is told only when the program built last is served. When nothing changes any more every browser, whenever it connected, has been told the same: the version of the last build, and its page is served, or Errors if it failed. A package that does not exist is refused.",
  over=["histories", "faults", "inputs"], quant="every sequence of good and bad edits (also during a build and in an added directory), other changes and connecting browsers, at every timer; layouts, ports, destinations",
  why="The repository has no test of watching; races of edits, builds and browsers show only in particular orders.",
  files=[CL + "watch/watch_run.rs", CL + "watch/sse.rs", CL + "watch/watch_opts.rs", CL + "watch/is_http_server_listening.rs", CL + "commons/spawn.rs", CL + "build/build_run.rs", CL + "build/cargo_workspace.rs", SV + "serve_run.rs", SV + "response_state.rs"], mech=[("the watch loop", CL + "watch/watch_run.rs"), ("events to browsers", CL + "watch/sse.rs")],
  bounds="2 events in the workspace layouts with other ports and destinations, 3 in the plain one (thorough 3 and 4)", outside="true parallelism (a build that is replaced while it runs on another thread); what the page does with the events (javascript); relative added directories; destinations with `..`",
  assumptions=CLA + ["tasks run one at a time until they wait; edits are noticed at once; the server answers as soon as it is bound"],
  runs=dict(quick=[S("h_watch_loop", 0, 3, 0, const_hash=True, reach=["browser", "edit during a build", "end", "errors", "noise", "rebuilt", "version"]), S("h_watch_loop", 1, 2, 1, const_hash=True, reach=["browser", "edit during a build", "end", "errors", "more", "noise", "rebuilt", "version"]), S("h_watch_loop", 2, 2, 1, const_hash=True, reach=["browser", "end", "errors", "more", "noise", "rebuilt", "version"]), S("h_watch_refused", const_hash=True, reach=["end"])], thorough=[S("h_watch_loop", 0, 4, 0, const_hash=True, reach=["end"], timeout=400), S("h_watch_loop", 1, 3, 1, const_hash=True, reach=["end"], timeout=400), S("h_watch_loop", 2, 3, 1, const_hash=True, reach=["end"], timeout=400), S("h_watch_refused", const_hash=True, reach=["end"])]), note=NOTE)
P(id="T03", title="vertigo new creates the package under its name and overwrites nothing",
  statement="`vertigo new` creates the template in a directory named after the package, with that name in its Cargo.toml, and nothing else. If that directory exists and holds anything, or cannot be written, the command is an error and no file changes. Files elsewhere never change.",
  over=["inputs", "faults"], quant="every package name of the given length over four characters, three places, five kinds of what is there already",
  why="The repository has no test of it.",
  files=[CL + "new/mod.rs"], mech=[("creation of a package", CL + "new/mod.rs")],
  bounds="names of up to 3 (thorough 6) characters", outside="the content of the template; names that are paths; a write that fails halfway",
  assumptions=CLA,
  runs=dict(quick=[S("h_new", 1, reach=["created", "occupied", "read only"]), S("h_new", 3, reach=["created", "occupied", "read only"])], thorough=[S("h_new", 6, reach=["created", "occupied", "read only"])]), note=NOTE)
P(id="T04", title="An included file is served at the address the program got for it",
  statement="Every use of include_static! becomes an address below the public path, and after `vertigo build` the destination holds the included file's current content under that address's name (its stem, a hash and its extension), and nothing that is included no more; served, the address answers with that content. Equal files have equal addresses, a file's address changes exactly when its content does. This holds wherever cargo's target directory is and from wherever the build is started. A file that does not exist is a compile error that names it.",
  over=["inputs"], quant="three project layouts, three target directories, two destinations, two uses of the macro in three arrangements (same name elsewhere, another extension, the same file twice), contents of symbolic bytes, a second build after a change of a file, of the program, or of nothing",
  why="The macro has no test; it writes while the program is compiled, which tests do not do for release.",
  files=["crates/vertigo-macro/src/include_static.rs", "crates/vertigo-macro/src/wasm_path.rs", CL + "build/build_run.rs", CL + "build/cargo_build.rs"], mech=[("copy of the file and its address", "crates/vertigo-macro/src/include_static.rs"), ("collection into the destination", CL + "build/build_run.rs")],
  bounds="two uses, contents of a letter and 1 or 2 (thorough 3) bytes with four values each", outside="files without an extension (a compile error), contents that differ only in zero bytes at their start (the CRC does not see them), builds that are not for release (no address is produced), an address under a public path that ends in a slash",
  assumptions=CLA + ["rustc runs the macro in the workspace's directory with cargo's environment; vertigo's build script empties the directory of included files before the program is compiled anew"],
  runs=dict(quick=[S("h_include", 1, const_hash=True, reach=["changed", "equal", "missing", "served"]), S("h_include", 2, const_hash=True, reach=["changed", "missing", "served"])], thorough=[S("h_include", 3, const_hash=True, reach=["changed", "missing", "served"], timeout=600)]), note=NOTE)

