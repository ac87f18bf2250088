#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Store state is the in-order fold of the reducer over dispatched actions",
 "Once the event loop is idle, the value a store exposes is exactly the initial model folded through the reducer over all dispatched actions, each applied once and in the order in which they were dispatched, whether they were dispatched from outside, from a watcher or from an effect. The reducer only ever sees the result of the previous action, never a stale or partially updated model.",
 ["inputs","histories","configurations"],
 "every initial model, every reducer (uninterpreted), every action value and every dispatch history, including nested dispatches, over manual and queued loops, automatic and transactional stores",
 "test/store.cpp and examples dispatch one or two fixed actions on the manual loop; nested dispatch orders and arbitrary reducers are never explored.",
 ["lager/store.hpp","lager/effect.hpp","lager/context.hpp","lager/event_loop/manual.hpp","lager/event_loop/queue.hpp"],
 [("store dispatch posts reducer step","lager/store.hpp store_node::dispatch"),("reducer invocation","lager/effect.hpp invoke_reducer"),("loop FIFO","lager/event_loop/manual.hpp post")],
 ["store.get()","reducer invocations"])

prop("C02", "Effects run exactly once, after the world reflects their action",
 "For every dispatched action whose reducer returns a non-empty effect, that effect is executed exactly once, in dispatch order, and in an automatic store it runs only after the model produced by its action is readable and the watchers have been told about it. The context given to the effect can dispatch further actions and gives access to the dependencies and loop of the store.",
 ["inputs","histories"],
 "every sequence of actions, every choice of which actions return effects and whether the effects dispatch more actions, automatic and transactional stores",
 "test/store.cpp runs a single effect with a flag; ordering between several actions, effects and notifications is not sampled.",
 ["lager/store.hpp","lager/effect.hpp"],
 [("effect posting after reducer","lager/store.hpp store_node::dispatch effect handler"),("effect invocation","lager/effect.hpp invoke_reducer")])

prop("C03", "Dispatch futures complete exactly once, after reducer and effects",
 "With futures enabled, the continuation attached to the future returned by dispatch runs exactly once, in the event loop, after the action has been reduced (and, in an automatic store, made visible) and after all effects of that action, including the futures those effects return, have completed. Without futures enabled the returned future is empty and continuations run immediately.",
 ["inputs","histories","configurations"],
 "every action history with and without effects, effects returning void, empty futures or dispatch futures, continuation attached before or after completion, automatic and transactional, manual and queue loops",
 "Existing tests check a handful of fixed chains on one loop.",
 ["lager/store.hpp","lager/future.hpp","lager/effect.hpp"],
 [("promise threading through posts","lager/store.hpp store_node::dispatch"),("future chaining","lager/future.hpp future::then")])

prop("C04", "A continuation is posted exactly once under every thread interleaving",
 "When one thread fulfils a promise while another attaches a continuation to its future, the continuation is posted to the promise's event loop exactly once, whatever the interleaving, and there is no data race or use of freed state. Chained (`then`) and joined (`also`) futures complete only after every part has completed.",
 ["schedules","inputs"],
 "all interleavings of promise fulfilment and continuation attachment on two threads, all chain shapes up to the bound",
 "No test uses two threads with futures; a test run samples one interleaving.",
 ["lager/future.hpp"],
 [("mutex protected done/callback hand-over","lager/future.hpp promise::operator(), future::then")])

prop("C05", "Manual event loop runs posted work in order, to completion, never nested",
 "Work posted to a manual event loop runs exactly once in posting order; work posted while other work is running starts only after the running one has returned, and the outermost post returns only when nothing is left. If a task throws, the exception reaches the outermost caller, tasks that already started (including the throwing one) are not run again, and the tasks not yet started run, in order, on the next post.",
 ["inputs","histories","fault_sequences"],
 "every nesting tree of posts up to the bound and every choice of throwing tasks",
 "test/event_loop.cpp covers two fixed throwing scenarios.",
 ["lager/event_loop/manual.hpp"],
 [("queue with cursor","lager/event_loop/manual.hpp post")])

prop("C06", "Queue event loops run exactly the queued work, in order, when stepped",
 "Posting to a queue event loop (plain or thread-safe, from its own thread) runs nothing; a step runs everything queued, including work posted during the step, exactly once and in order. If a task throws, the exception leaves step, the tasks already started are dropped and every other task is kept, in order, for the next step.",
 ["inputs","histories","fault_sequences"],
 "every tree of posts, every choice of throwing tasks, any number of steps up to the bound",
 "test/event_loop.cpp samples one throw position per loop type.",
 ["lager/event_loop/queue.hpp","lager/event_loop/safe_queue.hpp"],
 [("step loop with exception erase","lager/event_loop/queue.hpp step"),("local queue run","lager/event_loop/safe_queue.hpp run_local_queue_")])

prop("C07", "Thread-safe queue loses and duplicates nothing across threads",
 "Functions posted to the thread-safe queue loop from any thread, while the owner thread is stepping, each run exactly once, on the owner thread, in the order in which each single thread posted them, with no data race. After the posting threads have finished, one step leaves nothing behind.",
 ["schedules","histories"],
 "all interleavings of two posting threads and a stepping owner up to the bound, including a task that throws",
 "test/event_loop.cpp runs one real-thread smoke test whose scheduling is not controlled.",
 ["lager/event_loop/safe_queue.hpp"],
 [("mutex protected shared queue and swap","lager/event_loop/safe_queue.hpp post, swap_queues_, step")])

prop("C08", "Transactional values change visibly only on commit, and completely",
 "Writing to a transactional state, or to any cursor derived from it, or dispatching to a transactional store, changes no value observable through any reader that exists at that time and calls no watcher until commit is called on the root. After commit every reader derived from the root shows exactly its function of the last values written.",
 ["inputs","histories"],
 "every sequence of writes and commits through roots and derived cursors with arbitrary values",
 "Tests assert a few fixed set/commit pairs.",
 ["lager/state.hpp","lager/commit.hpp","lager/detail/nodes.hpp","lager/store.hpp"],
 [("current/last double value","lager/detail/nodes.hpp reader_node"),("commit","lager/commit.hpp commit")])

prop("C09", "Automatic states and stores publish every write before returning",
 "A write to an automatic state, directly or through any derived cursor, is observable through every reader derived from that state, and has been notified to the watchers of changed values, by the time the write returns. Reads never show a value that was not written.",
 ["inputs","histories"],
 "every sequence of writes through every derived cursor with arbitrary values",
 "Tests check single writes only.",
 ["lager/state.hpp","lager/detail/nodes.hpp"],
 [("send_down + notify on write","lager/state.hpp state_node::send_up")])

prop("C10", "Watchers always see a consistent world",
 "Whenever a watcher runs during a commit, every reader whose value is derived from the committed roots (through any mapping, merging or lens, over any shape of dependency graph, and over several roots committed together) shows the value computed from the new root values. No combination of old and new values is ever observable, and the argument passed to the watcher equals the value its reader shows.",
 ["inputs","configurations","histories"],
 "all mapping functions (uninterpreted), all root values, all dependency graphs up to the bounded number of derived readers, one or two roots",
 "Tests use one fixed diamond with concrete functions.",
 ["lager/commit.hpp","lager/detail/nodes.hpp","lager/detail/merge_nodes.hpp","lager/detail/xform_nodes.hpp"],
 [("two-phase send_down/notify","lager/commit.hpp commit, lager/detail/nodes.hpp")])

prop("C11", "Each watcher is called exactly once per commit that changes its value",
 "For readers whose value derives from the roots along a single path of mappings and lenses, a commit calls each watcher exactly once if the reader's value differs from the previously published one, with the new value, and does not call it otherwise. With several dependency paths a changed value is still reported exactly once.",
 ["inputs","configurations","histories"],
 "all mapping functions (uninterpreted), all values, all bounded derivation graphs, repeated commits",
 "Tests count notifications for a few fixed values.",
 ["lager/detail/nodes.hpp","lager/detail/signal.hpp","lager/watch.hpp"],
 [("needs_send_down/needs_notify flags","lager/detail/nodes.hpp reader_node"),("signal fan-out","lager/detail/signal.hpp")],
 state=[("needs_send_down_","value changed since last publication","lager/detail/nodes.hpp"),("needs_notify_","published but watchers not yet told","lager/detail/nodes.hpp")])

prop("C12", "Writing an equal value notifies nobody",
 "If a write leaves the value of a reader equal to what it was, no watcher of that reader, nor of any reader derived only from it, is called, on automatic and transactional roots alike. Values whose type has no equality are always treated as changed.",
 ["inputs","histories"],
 "all values and all writes through roots, attribute cursors and mapped readers",
 "Tests compare a couple of concrete equal values.",
 ["lager/detail/nodes.hpp","lager/state.hpp"],
 [("has_changed","lager/detail/nodes.hpp has_changed, push_down")])

prop("C13", "Writing through a cursor edits exactly its focus in the root",
 "Setting a cursor derived from a root by any composition of lenses (attributes, elements, keys, optionals, custom getters/setters) has exactly the effect of setting those composed lenses on the root's current value. Writes made in the same transaction through other cursors are preserved where they do not overlap, and the last write wins where they do.",
 ["inputs","histories","configurations"],
 "all values, all sequences of writes through all bounded cursor trees",
 "Tests perform single writes on fixed structures.",
 ["lager/detail/lens_nodes.hpp","lager/with.hpp","lager/cursor.hpp","lager/writer.hpp"],
 [("refresh before write","lager/detail/lens_nodes.hpp send_up"),("lens composition","lager/with.hpp with_lens_expr::zoom")])

prop("C14", "update() applies its function to the value as written so far",
 "Updating a cursor or state with a function applies the function to the value including every write and update made earlier in the same transaction, through this or any other cursor of the same root. Hence after n updates and a commit the focus is the n-fold application to the starting value.",
 ["inputs","histories"],
 "all functions (uninterpreted), all interleavings of sets and updates through root and derived cursors up to the bound, automatic and transactional",
 "No test performs two updates in one transaction through a derived cursor.",
 ["lager/writer.hpp","lager/detail/nodes.hpp"],
 [("update reads the node's current value","lager/writer.hpp writer_mixin::update")])

prop("C15", "Merged cursors read and write all their parents",
 "A cursor or reader combining several readers shows the tuple of their current values after every commit. Writing a tuple through the combined cursor writes each component to the corresponding parent, leaving the others with their own components, in particular when the parents are themselves derived from the same root.",
 ["inputs","histories","configurations"],
 "all values; parents that are independent roots, or disjoint parts of a common root; reads, writes and commits in any order",
 "Tests use fixed values on two parents.",
 ["lager/detail/merge_nodes.hpp","lager/with.hpp","lager/detail/nodes.hpp"],
 [("push_up per parent","lager/detail/nodes.hpp inner_node::push_up"),("merge","lager/detail/merge_nodes.hpp")])

prop("C16", "Mapped and filtered readers track their source",
 "A reader obtained by map shows the mapping of the source after every publication; one obtained by filter keeps the last value that satisfied the predicate (or the default if none did); compositions behave as the composition of both. Writing through a cursor built with a reverse transformation writes the reverse image, computed from the parents' current values when it is an updating transformation.",
 ["inputs","histories"],
 "all functions and predicates (uninterpreted), all value histories up to the bound",
 "Tests use one or two concrete functions and values.",
 ["lager/detail/xform_nodes.hpp","lager/with.hpp"],
 [("transducer step per recompute","lager/detail/xform_nodes.hpp recompute"),("reverse transducer","lager/detail/xform_nodes.hpp xform_cursor_node::send_up"),("update transducer","lager/with.hpp update")])

prop("C17", "Total lenses obey the lens laws",
 "For every total lens the library provides (attributes, tuple elements, pair members, box contents, zip and fan of lenses, getter/setter pairs, value-or-default on engaged optionals) and every composition of them, viewing after setting gives the set value, setting the viewed value changes nothing, and setting twice equals setting the last. Parts outside the focus are untouched and the result does not depend on whether the whole is passed as an lvalue, a const or a temporary, nor on whether the lens was stored in a type-erased lens object.",
 ["inputs","configurations"],
 "all wholes and parts of the bounded types, all bounded compositions, all value categories",
 "test/lenses.cpp checks concrete values per lens.",
 ["lager/lenses.hpp","lager/lens.hpp","lager/lenses/attr.hpp","lager/lenses/tuple.hpp","lager/lenses/unbox.hpp","lager/lenses/optional.hpp"],
 [("view/set/over functors","lager/lenses.hpp"),("type erasure","lager/lens.hpp")])

prop("C18", "Partial lenses focus when present and never invent or destroy data",
 "For lenses into possibly absent parts (container element at a key or index, at with default, variant alternative, lenses lifted to optionals), viewing yields the part exactly when it is present (else nothing, or the given default); setting a present focus replaces exactly it, while setting an absent focus, or setting nothing, leaves the whole unchanged. This holds for present and absent keys, empty containers, all alternatives and both lvalue and temporary wholes.",
 ["inputs","configurations"],
 "all container contents and sizes up to the bound, all keys, all alternatives, all value categories, bounded compositions",
 "Tests use concrete containers with lvalue wholes.",
 ["lager/lenses/at.hpp","lager/lenses/at_or.hpp","lager/lenses/variant.hpp","lager/lenses/optional.hpp"],
 [("at setter variants","lager/lenses/at.hpp at_setter_impl"),("optional lifting","lager/lenses/optional.hpp opt_impl"),("alternative","lager/lenses/variant.hpp alternative_t")])

prop("C19", "Watches follow the reader object they were made on",
 "A callback registered with watch or bind is called for exactly the changes that happen while its reader or cursor object is alive and bound: bind also calls it at once with the present value, nudge calls all callbacks once with the present value, unbind and destruction stop all callbacks, copies and moved-to objects carry no callbacks, and assigning another source to the object makes its callbacks follow the new source only.",
 ["histories","inputs"],
 "all sequences of watch, bind, unbind, nudge, copy, move, assign, destroy and value changes up to the bound",
 "test/watchers.cpp samples individual operations.",
 ["lager/watch.hpp","lager/detail/signal.hpp"],
 [("forwarder link/unlink","lager/watch.hpp watchable_base"),("intrusive auto-unlink list","lager/detail/signal.hpp")])

prop("C20", "Readers, cursors and roots may be created and destroyed in any order",
 "No sequence of creating, copying, moving and destroying roots, readers, cursors and watches, including creating or dropping derived readers from inside a watcher, or from inside a mapping function, while a change is being propagated, accesses freed memory or leaks, and a derived reader keeps working after the objects it was derived from are gone. Readers created during a notification show the current value and are notified from the next change on.",
 ["histories","inputs"],
 "all creation/destruction/notification histories up to the bound",
 "Tests sample one regression scenario (PR 212).",
 ["lager/detail/nodes.hpp","lager/watch.hpp","lager/detail/signal.hpp"],
 [("weak children, strong parents","lager/detail/nodes.hpp link, collect"),("index loop in notify","lager/detail/nodes.hpp notify")])

prop("C21", "Writing from inside a watcher is safe and converges",
 "A watcher may write to the state being notified, or to another one, and (for transactional roots) commit again: when the outermost write or commit returns and no watcher writes any more, all readers show the final values, every watcher's last call received its reader's final value, and nothing recursed without a write.",
 ["histories","inputs"],
 "all values and conditions for re-entrant writes in watchers of roots, mapped readers and lens cursors, automatic and transactional, up to the bound",
 "Tests contain one re-entrant scenario.",
 ["lager/detail/nodes.hpp","lager/state.hpp","lager/commit.hpp"],
 [("notifying guard and flags","lager/detail/nodes.hpp notify")])

prop("C22", "Sensors are sampled on commit; constants never change",
 "A sensor shows the value its function returned at construction until commit is called on it, then exactly the value the function returns at that commit, notifying watchers if and only if it changed. A constant always shows its initial value and never notifies.",
 ["inputs","histories"],
 "every sequence of sensor outputs and commits",
 "Tests increment one counter.",
 ["lager/sensor.hpp","lager/constant.hpp"],
 [("recompute calls the sensor","lager/sensor.hpp sensor_node::recompute"),("constant node","lager/constant.hpp")])

prop("C23", "Setter cursors forward every write to the setter exactly once",
 "Writing a value through a cursor made with a custom setter, directly or via a lens derived from it, calls the setter exactly once with exactly the whole value to be written, and the cursor otherwise shows its source: after the source is changed and committed it shows the source's value. In automatic mode the written value is also visible and notified through the cursor at once, in transactional mode only after a commit.",
 ["inputs","histories"],
 "all values, all histories of writes through the setter cursor, of writes to the source and of commits, both modes, sources that are states and stores",
 "test/setter.cpp samples single writes.",
 ["lager/setter.hpp","lager/reader.hpp"],
 [("setter node","lager/setter.hpp setter_node")])

prop("C24", "Debugger replays exactly the undebugged history and supports time travel",
 "With the linear debugger installed, dispatching ordinary actions gives the same models as without it, and the history records every action with the model it produced; undo, redo and goto show exactly the recorded model at that position (out-of-range requests change nothing); a new action after going back discards the abandoned future. While paused actions are only queued, and resuming applies them in order and runs all their effects, in order, on a loop that has been resumed. Positions that were not recorded cannot be looked up.",
 ["histories","inputs"],
 "all sequences of actions and debugger commands up to the bound, reducer uninterpreted",
 "test/debug samples a fixed scenario.",
 ["lager/debug/debugger.hpp"],
 [("debugger update","lager/debug/debugger.hpp update")])

prop("C25", "Tree debugger keeps every branch of history",
 "With the tree debugger, the current model always equals the fold of the reducer along the path leading to the present position; undo moves to the previous position, goto moves to any existing recorded position and ignores non-existing ones; a new action at the end of a branch extends it, one after going back adds a new branch and makes it current without altering any previously recorded position. The summary of the history has exactly the steps and branches recorded. While paused actions are only queued, and resuming applies them in order and runs their effects on a loop that has been resumed.",
 ["histories","inputs"],
 "all sequences of actions, undo, goto, pause and resume up to the bound, reducer uninterpreted",
 "One fixed scenario is tested; branching twice from one inner position is not.",
 ["lager/debug/tree_debugger.hpp"],
 [("append / do_append","lager/debug/tree_debugger.hpp"),("lookup","lager/debug/tree_debugger.hpp do_lookup")])

prop("C26", "Dependency bags deliver exactly what was put in",
 "Whatever conversion, subsetting, merging, keying, optional or function indirection a bag of dependencies went through, looking up a key yields the value (or the very same referenced object) supplied for that key, the right-hand side winning in a merge. An optional dependency reports present if and only if it was supplied, and asking for a missing one throws the missing-dependency error.",
 ["inputs","configurations"],
 "all values, presence combinations and bounded conversion chains",
 "Tests check individual conversions with concrete values.",
 ["lager/deps.hpp"],
 [("extract and union","lager/deps.hpp make_storage_from_, merge")])

prop("C27", "Contexts route every action unchanged to the owning store",
 "Dispatching through a context narrowed to fewer actions or dependencies, or through one with an action converter, delivers exactly one action to the store, equal to the (converted) action given, holding the right alternative, and loop operations through any such context act on the store's own loop.",
 ["inputs","configurations"],
 "all action values and alternatives, bounded chains of narrowing and conversion",
 "test/context checks one value per conversion.",
 ["lager/context.hpp"],
 [("dispatcher conversions","lager/context.hpp dispatcher"),("event loop interface","lager/context.hpp event_loop_impl")])

prop("C28", "Effect composition preserves order and emptiness",
 "A sequence of effects runs each non-empty effect exactly once in order, the next only after the future of the previous has completed; empty or no-op effects, whether default, converted from another action or dependency type, or part of a sequence, are recognised as empty, run nothing and never fail. Results and effects convert to wider action sets and larger dependency bags without changing what they do.",
 ["inputs","configurations","histories"],
 "all combinations of empty, no-op and real effects in sequences and conversions up to the bound, synchronous and pending futures",
 "Tests never return a null effect nor query emptiness of effect objects.",
 ["lager/effect.hpp"],
 [("is_empty_effect","lager/effect.hpp"),("sequence","lager/effect.hpp sequence"),("effect conversion","lager/effect.hpp effect")])

prop("C29", "Enum names round-trip and reject everything else",
 "For an enumeration declared with the library's macro, converting any declared enumerator to text and back gives the same enumerator, distinct enumerators have distinct texts, text is accepted if and only if it is exactly the name of an enumerator, and undeclared values or texts raise an error instead of producing a value.",
 ["inputs"],
 "all underlying integer values and all strings up to the bounded length",
 "Tests use the declared names only.",
 ["lager/extra/enum.hpp","lager/extra/cereal/enum.hpp"],
 [("macro-generated conversions","lager/extra/enum.hpp")])

prop("C30", "Derived equality, hashing and introspection cover every member",
 "Equality derived for a struct (plain, nested or templated) holds if and only if every listed member is equal and inequality is its negation; equal values have equal derived hashes; and introspection visits every listed member exactly once, in order, with its own name and value.",
 ["inputs"],
 "all member values (symbolic) of the bounded set of struct shapes",
 "Tests compare a few concrete values.",
 ["lager/extra/derive/eq.hpp","lager/extra/derive/hash.hpp","lager/extra/derive/hana.hpp","lager/extra/struct.hpp","lager/extra/derive.hpp"],
 [("member-wise expansion","lager/extra/derive/eq.hpp"),("hash combine","lager/extra/derive/hash.hpp"),("hana accessors","lager/extra/derive/hana.hpp")])

prop("C31", "Saving then loading reproduces the value, whatever the target held",
 "For every supported value (immutable vectors, flexible vectors, arrays, boxes, maps, sets, tuples, named variants, enums, derived structs and their nestings), saving it and loading the bytes back gives an equal value, regardless of what the target object contained before loading. Loading data that repeats a key of a map or set, or names an unknown enumerator or alternative, raises an error instead of producing a value; a member of a derived struct that is missing from named data, where the archive can tell, keeps the value it had (in an element of a container, its default).",
 ["inputs"],
 "all contents, sizes up to the bound (including empty), all previous contents of the target",
 "Tests load into fresh objects only and never load maps or sets.",
 ["lager/extra/cereal/immer_vector.hpp","lager/extra/cereal/immer_flex_vector.hpp","lager/extra/cereal/immer_array.hpp","lager/extra/cereal/immer_box.hpp","lager/extra/cereal/immer_map.hpp","lager/extra/cereal/immer_set.hpp","lager/extra/cereal/tuple.hpp","lager/extra/cereal/struct.hpp","lager/extra/cereal/variant_with_name.hpp","lager/extra/derive/cereal.hpp"],
 [("size tag and elements","lager/extra/cereal/*.hpp"),("derived serialize","lager/extra/derive/cereal.hpp")])

prop("C32", "match() calls exactly the visitor of the active alternatives",
 "Matching one or several variants (or types derived from variants, as lvalues, consts or temporaries) invokes exactly one handler, the one for the active alternatives, with exactly the stored values, and returns its result.",
 ["inputs","configurations"],
 "all alternatives and stored values for one, two and three variants, all value categories",
 "Tests match one alternative per case.",
 ["lager/util.hpp"],
 [("matcher/visitor","lager/util.hpp match")])

prop("C33", "Thunks run once, in order, with a working context",
 "In a store enhanced for thunks, dispatching a thunk leaves the model unchanged and runs the thunk exactly once, in order with the other dispatched actions, with a context whose dispatched actions reach the same store (other thunks are dispatched through the store); ordinary actions behave as if thunks were not enabled, including their effects, and with futures enabled a dispatch completes after the thunk and what it returned have completed.",
 ["histories","inputs"],
 "all sequences of actions and thunks up to the bound, thunks nesting dispatches",
 "One or two fixed thunks are tested.",
 ["lager/extra/thunk.hpp"],
 [("thunk reducer","lager/extra/thunk.hpp with_thunk")])

prop("C34", "Exceptions from user code leave the system consistent and usable",
 "If a reducer, an effect, a mapping, a setter or a watcher throws, the exception reaches the caller that triggered it (through the event loop), the model is either the one before or the one after the action and never something else, actions already queued are not lost or repeated, and later writes, dispatches and commits work normally: once nothing throws any more, the next commit or automatic write of the root brings every reader derived from it up to date.",
 ["fault_sequences","histories","inputs"],
 "every choice of throwing callbacks and every later history up to the bound",
 "test/errors.cpp samples one throw each in reducer and effect.",
 ["lager/store.hpp","lager/event_loop/manual.hpp","lager/event_loop/queue.hpp","lager/detail/nodes.hpp"],
 [("loop exception handling","lager/event_loop/manual.hpp post"),("flag handling in propagation","lager/detail/nodes.hpp send_down, notify")])

prop("C35", "SDL loop runs posted work once and honours finish and pause",
 "With the SDL event loop, every posted function runs exactly once, in posting order, on the loop, and is released; ordinary events go to the handler (not while paused when ticking); the loop ends when the handler or tick asks for it or after finish; ticks happen once per iteration while not paused, no faster than the frame rate, and frame time steps never exceed the configured maximum.",
 ["histories","inputs"],
 "all sequences of queued events, posts, finish, pause and resume up to the bound, with SDL's queue and clock replaced by a symbolic stand-in",
 "No test runs the SDL loop at all.",
 ["lager/event_loop/sdl.hpp"],
 [("run loops","lager/event_loop/sdl.hpp run"),("post","lager/event_loop/sdl.hpp post")])

prop("C36", "Indexing a cursor builds the same cursor as zooming the matching lens",
 "Indexing a cursor or reader with a member pointer, a key or index, or a lens, on plain values and lifted through optionals, chained in one expression or through intermediate cursors, gives a cursor that reads and writes exactly like the explicitly composed lens on the root.",
 ["inputs","configurations"],
 "all values, container contents up to the bound and writes, for each kind of index and chain",
 "Tests check individual index kinds with concrete values.",
 ["lager/detail/smart_lens.hpp","lager/with.hpp","lager/reader.hpp","lager/writer.hpp"],
 [("smart lens selection","lager/detail/smart_lens.hpp"),("expression composition","lager/with.hpp with_expr_base")])

prop("C37", "Lenses behave identically when built without exceptions",
 "In a build without exception support, looking up and setting by key or index in vectors, maps and immutable containers gives the same results as in a normal build, for present and absent keys (including negative and too large indices), and never terminates the program.",
 ["inputs","configurations"],
 "all contents and keys up to the bound, exception-less build",
 "The exception-less build is not covered by the test suite.",
 ["lager/lenses/at.hpp","lager/lenses/at_or.hpp","lager/config.hpp"],
 [("maybe_has_key","lager/lenses/at.hpp")])

prop("C38", "Using an uninitialised reader or cursor is always diagnosed",
 "Reading, writing, updating or deriving through a default-constructed, not yet assigned reader, writer or cursor raises an error; watching one is allowed and takes effect when a source is assigned.",
 ["inputs","histories"],
 "all operations on uninitialised handles, then assigned ones, with arbitrary values",
 "Only reading one uninitialised reader is tested.",
 ["lager/reader.hpp","lager/writer.hpp","lager/watch.hpp"],
 [("node check","lager/reader.hpp reader_mixin::node_, lager/writer.hpp writer_mixin::node_")])

prop("C39", "Boost.Asio loop posts to its executor exactly once, in order",
 "With the Boost.Asio event loop, every function posted or dispatched action reaches the given executor exactly once and in order, finish invokes the given stop function, and work started with async keeps the executor busy until it returns.",
 ["histories","schedules"],
 "all posting histories up to the bound",
 "Only example programs use it.",
 ["lager/event_loop/boost_asio.hpp"],
 [("post/async/finish","lager/event_loop/boost_asio.hpp")])

prop("C40", "Qt and QML integration runs posted work once, in order, on the Qt thread",
 "With the Qt and the QML event loops, everything posted (from any thread) runs exactly once, in posting order, on the thread of the given object and never inside of post; stores on these loops behave as on any other. Asynchronous work of the Qt loop runs exactly once in the given thread pool (the global one by default) and the loop waits for it when it is destroyed; finish ends the application's loop. Work posted to a quick item has run after its next frames or timer tick, whether or not it is painted. Properties declared with the LAGER_QT macros show the value of their reader or cursor, signal exactly its changes with the new value, and setting one writes its cursor. Operations that a loop does not support raise an error.",
 ["histories","schedules","inputs"],
 "all histories of posts (nested, from pool threads), event deliveries, polish and paint phases and timer ticks up to the bound; all interleavings with one other thread; all values written to properties",
 "The tests of the Qt loop wait 100 ms for one task; the QML loop and the property macros are not run by any test.",
 ["lager/event_loop/qt.hpp","lager/event_loop/qml.hpp","lager/extra/qt.hpp"],
 [("queued invocation and thread pool","lager/event_loop/qt.hpp with_qt_event_loop"),("polish/paint driven queue","lager/event_loop/qml.hpp event_loop_quick_item"),("property macros","lager/extra/qt.hpp LAGER_QT_READER, LAGER_QT_CURSOR")])

prop("C41", "HTTP debugger server exposes the recorded history faithfully",
 "From the moment a store with an http_debug_server is made, GET /api shows the program with its arguments, the number of recorded steps, the position in the history and whether the application is paused, all as of one point in time, and GET /api/step/N shows the action and the model of step N exactly as they were recorded (N = 0: the initial model, without an action). POST to /api/goto/N, undo, redo, pause and resume does to the store what dispatching that debugger action once does. A step that does not exist or a number that is too large is answered with an error, everything else with not found, and neither changes anything. Every request on every connection is answered exactly once, in order, with what was there when it was made, whatever happens on other connections; a connection that fails is shut down. Any other GET is answered with the file of the graphical interface of that name, as it is and with its type, and never with any other file. All of this holds while the application goes on in its own thread.",
 ["inputs","histories","schedules"],
 "all request targets and methods; all histories of actions and of requests up to the bound, on any number of steps; all failures of reading, writing and accepting; all interleavings of the server's thread with the application's",
 "No test runs the HTTP server.",
 ["lager/debug/http_server.hpp","lager/debug/debugger.hpp"],
 [("routes and handlers","lager/debug/http_server.hpp http_debug_server_impl::init, detail::http::router"),("connections","lager/debug/http_server.hpp detail::http::session, listener, server"),("snapshot shared with the server's thread","lager/debug/http_server.hpp http_debug_server_impl::model_")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
