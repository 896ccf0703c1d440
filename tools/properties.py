EXPL = ("Randomised exploration with a fixed seed under AddressSanitizer and "
        "UndefinedBehaviorSanitizer; shows presence, not absence, of defects. ")

prop("C01", "Fixed-capacity strings hold exactly the truncated text they were given",
     "A fixed-capacity string always holds the NUL-terminated text that results from the assignments, appends, removals, element writes and swaps applied to it, truncated to its capacity, with size, emptiness, iteration and element access agreeing with that text. Bounds-checked access throws exactly for positions outside the current text, and removing more characters than there are empties the string. No operation, also one whose argument is part of the string itself or a string of another capacity, reads or writes outside the storage of the string and its argument.",
     ["histories", "inputs"],
     "all operation histories on strings of any capacity (including 0 and 1), all argument texts including ones at, just over and far over the capacity and ones containing NUL or high bytes",
     "StringTest.cpp tries a handful of fixed short texts on one capacity; truncation at each boundary, aliasing and interleavings of operations are unbounded",
     ["include/Xsmp/String.h"],
     [("assign/append/remove/push_back/swap", "include/Xsmp/String.h")],
     EXPL + "Model: std::string cut to capacity and first NUL. Capacities 0..300 instantiated.")

prop("C02", "Fixed-capacity string comparison, search, hash and I/O match plain text",
     "Comparing, ordering, hashing, searching, taking substrings of, concatenating, writing and reading fixed-capacity strings gives the same result as the same operation on the plain text they hold, for every overload and mix of capacities, string views and C strings. Bytes left over after the end of the text never influence a result, and equal strings have equal hashes. Reading from a stream takes the next token truncated to the capacity and leaves the stream as reading plain text does.",
     ["inputs"],
     "all pairs of texts (equal, prefix, differing in one byte, high bytes), all capacities, positions and counts, all operator overloads",
     "the tests compare a few literals; sign conventions, prefix ties, position edge cases and the dozens of overload combinations are not enumerated",
     ["include/Xsmp/String.h"],
     [("comparison operators", "include/Xsmp/String.h"), ("find family", "include/Xsmp/String.h"), ("std::hash", "include/Xsmp/String.h")],
     EXPL + "Oracle: std::string.",
     technique="property-based testing (differential against std::string)")

prop("C03", "Owned C strings keep a private copy of their text",
     "An owned C string holds its own NUL-terminated copy of the text it was given, independent of the source and of every other string, and keeps it unchanged until it is itself assigned, moved from or destroyed. Copies and moves carry the text, assignment works from any source including its own text and itself, and moved-from strings can be assigned, copied and destroyed. Every block allocated along the way is released exactly once.",
     ["histories"],
     "all histories of construction, copy, move, assignment, self-assignment, swap and destruction over several strings and all texts",
     "cstringTest.cpp has one constructor test; ownership defects show only in particular sequences",
     ["include/Xsmp/cstring.h", "src/Xsmp/cstring.cpp"],
     [("copy/move/assign", "src/Xsmp/cstring.cpp")],
     EXPL + "Allocation balance measured through the sanitizer runtime.")

prop("C04", "Fixed-size arrays behave as the standard array of the same size",
     "Filling, swapping, copying, iterating, indexing and comparing fixed-size arrays gives the results of the standard array with the same elements, for every element type and size including zero. Bounds-checked access returns the addressed element or throws an out-of-range error, and the array occupies exactly the storage of its elements. Comparison is element-wise lexicographic and its six operators are mutually consistent.",
     ["histories", "inputs"],
     "all histories of writes, fill, swap and copy on arrays of sizes 0 to 17 of several element types, all index values",
     "ArrayTest.cpp uses one or two fixed arrays; ties, single differing elements and the size-zero specialisation are sampled at best",
     ["include/Xsmp/Array.h"],
     [("element access and comparison", "include/Xsmp/Array.h")],
     EXPL + "Oracle: std::array.",
     technique="property-based testing (stateful, differential against std::array)")

prop("C05", "Integer comparison and range tests are exact for all type pairs",
     "Comparing two integers of any two integer types gives the mathematical answer, whatever their widths and signedness, and the range test holds exactly when the value is representable in the target type. Every numeric conversion and range check of the library is built on these.",
     ["inputs"],
     "all values of all pairs of the standard signed and unsigned integer types of 8 to 64 bits",
     "no test covers these helpers directly; wrong answers appear only at sign and width boundaries of particular type pairs",
     ["src/Smp/utility.h"],
     [("cmp_* and in_range", "src/Smp/utility.h")],
     EXPL + "Oracle: 128-bit arithmetic; 8-bit pairs exhaustively, other types sampled with boundary bias.",
     technique="property-based testing (boundary-biased generation, exact arithmetic oracle)")

prop("C06", "Guarded data is shared by readers or owned by one writer, never both",
     "At any time guarded data is either held by any number of readers or by exactly one writer; a blocking request waits until that is possible and then completes. A non-blocking request succeeds exactly when the data can be granted at once, and never waits. Values written under the write lock are seen whole by every later reader, also after a lock was released and re-acquired.",
     ["schedules"],
     "all schedules of read, write, non-blocking, unlock, relock and release requests of several threads",
     "there is no test of this class; exclusion is a statement about all interleavings",
     ["src/Xsmp/ThreadSafeData.h"],
     [("ReadLock/WriteLock", "src/Xsmp/ThreadSafeData.h")],
     "Harness-owned schedules of three threads checked against a reader-writer model, plus free-running threads, both under ThreadSanitizer. Interleavings inside the standard mutex are not explored.",
     technique="property-based testing (generated schedules, reader-writer model, ThreadSanitizer)")

prop("C07", "Dynamic libraries are loaded, resolved and released by reference count",
     "Loading a library by its plain name yields a usable handle or null, with unresolvable libraries rejected at load time; the library stays loaded, with its state, until it has been closed as often as it was loaded, and its symbols stay private to its handle. Looking up a symbol yields that library's own symbol or null. The last-error text describes the latest failure, is empty if there was none or it has been read, and null arguments are answered with null.",
     ["histories", "fault_sequences"],
     "all histories of load, look-up, close and last-error calls over several libraries, including missing and broken ones",
     "no test exercises the helper by itself; reference counts and stale errors depend on the history",
     ["src/Xsmp/LibraryHelper.cpp", "include/Xsmp/LibraryHelper.h"],
     [("LoadLibrary/GetSymbol/CloseLibrary/GetLastError", "src/Xsmp/LibraryHelper.cpp")],
     EXPL + "Real shared objects and the system loader; Linux only.")

prop("C08", "Packages initialise once per simulator and finalise in reverse order",
     "Initialising the services package adds each of the six standard services to a simulator exactly once, however often and in whatever order packages are initialised, and the standard service getters then return them; a null simulator or type registry is refused. Loading a library into the simulator initialises it once and reports missing, unloadable or failing libraries with the matching exception, leaving the simulator usable. When the simulator is destroyed its loaded packages are finalised in the reverse of their loading order.",
     ["histories", "fault_sequences"],
     "all histories of package initialisation, finalisation and library loading over several simulators, with valid, broken, failing and missing libraries",
     "the tests load one package in one fixed way",
     ["src/xsmp_services.pkg.cpp", "src/xsmp_services.cpp", "src/Xsmp/Simulator.cpp"],
     [("Initialise/Finalise", "src/xsmp_services.pkg.cpp"), ("LoadLibrary", "src/Xsmp/Simulator.cpp")],
     EXPL + "Real shared objects built for the check; SMP interfaces are stand-ins.")

SMPNOTE = "The ECSS SMP interfaces are the stand-in headers in /verif/smp. "

prop("C09", "Generic values convert exactly or are rejected",
     "Storing a number of any primitive type as any kind keeps the exact number, or throws the invalid-type exception when the kind cannot represent it or is not numeric; a rejected store leaves the kind unchanged. Reading a stored value as any primitive type gives exactly that value or throws the same exception. Booleans, characters and texts are only stored as their own kind.",
     ["inputs"],
     "all 13 source types, 16 kinds and 13 target types, all values, with emphasis on the limits of each type",
     "AnySimpleTest.cpp checks the minimum and maximum of the types; the several hundred hand-written conversions in between, and numbers near float precision, are not sampled",
     ["src/Smp/AnySimple.cpp"],
     [("SetValue overloads and conversion operators", "src/Smp/AnySimple.cpp")],
     EXPL + SMPNOTE + "Oracle: 128-bit integer arithmetic.",
     technique="property-based testing (boundary-biased generation, exact arithmetic oracle)")

prop("C10", "Generic values own their content; equality and text follow it",
     "A generic value keeps its own copy of a text, independent of the source and of other values, through copies, moves, self-assignment, assignment from its own text and MoveString, and frees it exactly once. Values of one kind are equal exactly when their contents are (floating point within one epsilon), integers of different kinds when the numbers are, and nothing but None equals None. Printing a value gives its kind-specific text and leaves the stream usable.",
     ["histories", "inputs"],
     "all histories of stores, copies, moves and text hand-overs over several values; all pairs of values",
     "the tests copy and move one string value; aliasing and release order depend on the history",
     ["src/Smp/AnySimple.cpp", "src/Smp/StreamOperators.cpp"],
     [("copy/move/SetValue/MoveString", "src/Smp/AnySimple.cpp"), ("operator==", "src/Smp/AnySimple.cpp"), ("operator<<", "src/Smp/StreamOperators.cpp")],
     EXPL + SMPNOTE)

prop("C11", "UUID text round-trips, malformed text is rejected, order is total",
     "Every UUID text of the standard form (hexadecimal digits of either case) parses to the numbers it spells and prints back in lower case; every other text, of any length or null, is rejected with an exception and never read past its end. Equality, ordering and hashing agree with each other and order UUIDs by their numbers, so UUIDs work as keys of ordered and hashed containers.",
     ["inputs"],
     "all UUIDs and pairs of UUIDs, all texts of any length including null",
     "the tests parse a few literals; a missed separator or digit position, or an ordering slip in one field, needs a particular input",
     ["src/Smp/Uuid.cpp", "src/Smp/StreamOperators.cpp"],
     [("parse, operator<, hash", "src/Smp/Uuid.cpp"), ("operator<<", "src/Smp/StreamOperators.cpp")],
     EXPL + SMPNOTE,
     technique="property-based testing (round-trip, mutation of well-formed text, reference order)")

prop("C12", "Durations and dates are exact nanosecond counts",
     "Arithmetic, comparison, literals and conversion of durations and dates from and to the standard chrono types are exact on the nanosecond count. Formatting prints hours, minutes, seconds and nanoseconds of a duration, and the Gregorian calendar date and time of a date counted from 2000-01-01 12:00; reading that text back gives the same value. Reading unreadable text gives a defined value.",
     ["inputs", "histories"],
     "all durations and dates within the nanosecond range, all operation sequences, arbitrary text for reading",
     "the tests use a handful of round values; calendar boundaries, negative values and mixed units are not enumerated",
     ["include/Xsmp/Duration.h", "include/Xsmp/DateTime.h", "src/Xsmp/Duration.cpp", "src/Xsmp/DateTime.cpp"],
     [("operators", "include/Xsmp/Duration.h"), ("format/parse", "src/Xsmp/DateTime.cpp")],
     EXPL + "Calendar oracle counts days independently. Dates after 2262 and durations whose magnitude is no 64-bit number are outside; reading back is required for durations below 24 h.",
     technique="property-based testing (stateful, reference calendar, round-trip)")

prop("C13", "Collections behave as ordered sequences with unique names",
     "A collection holds its elements in insertion order: size, index access, look-up by name and iteration in either direction agree with that order after any history of adds and removals, look-ups outside it give null, and iterators visit every element once. A collection that refuses duplicates rejects an element whose name is present with the duplicate-name exception and stays unchanged; one that allows them returns the first. A collection that owns its elements deletes each exactly once.",
     ["histories"],
     "all histories of add, remove, clear and look-up on every kind of collection, with equal names and null elements",
     "CollectionTest.cpp adds a few distinct elements; index and order bookkeeping breaks only after particular removals",
     ["include/Xsmp/Collection.h"],
     [("Collection, AbstractDelegateCollection", "include/Xsmp/Collection.h"),
      ("ContainingCollection and delegates", "include/Xsmp/Collection.h")],
     EXPL + SMPNOTE)

prop("C14", "Containers and references keep bounds, names, types and back links",
     "Adding a component to a container or reference is refused, with the documented exception and without any change, when the type does not fit, the upper bound is reached, or (containers) the name is already used in the parent; deleting or removing is refused when the component is not held or the lower bound would be violated. Count, bounds, order and look-ups follow the history. A contained component is deleted exactly once; a component that disappears is removed from all references holding it.",
     ["histories"],
     "all histories of add, remove, delete and look-up over containers and references with arbitrary bounds, types and names",
     "tests exercise one or two adds per bound; the interplay of bounds, names and disconnection depends on the history",
     ["include/Xsmp/Container.h", "include/Xsmp/Reference.h", "src/Xsmp/Container.cpp", "src/Xsmp/Reference.cpp"],
     [("AddComponent/DeleteComponent", "src/Xsmp/Container.cpp"),
      ("AddComponent/RemoveComponent", "src/Xsmp/Reference.cpp")],
     EXPL + SMPNOTE)

prop("C15", "Object names are checked and paths resolve to the object they name",
     "Constructing a named object succeeds exactly when the name follows the SMP naming rules, otherwise the invalid-name exception is thrown. The path of every object resolves, from the simulator or any object, to that very object; relative paths with '.', '..', child, field, container, reference and array-item segments resolve to what a walk over the object tree gives, and anything else to null. Ancestor tests and type equivalence agree with the tree and the field structure.",
     ["inputs", "histories"],
     "all names, all object trees (components, containers, fields, structures, arrays, references) and all paths over them",
     "tests resolve a few fixed paths in one fixed tree",
     ["src/Xsmp/Helper.cpp", "include/Xsmp/Helper.h", "src/Xsmp/Object.cpp"],
     [("checkName, GetPath, Resolve, AreEquivalent", "src/Xsmp/Helper.cpp")],
     EXPL + SMPNOTE + "The parser of dotted component names follows the tree walk; malformed paths such as a..b are outside.",
     technique="property-based testing (generated object trees, tree-walk oracle, round-trip)")

prop("C16", "Events reach exactly the current subscribers, once, with the right value",
     "Subscribing or unsubscribing a sink is refused, with the matching exception and no change, when the sink is already or not subscribed or its argument type differs. An emission notifies every subscribed sink exactly once, with the emitted sender and value; a sink that changes subscriptions, or emits again, while being notified does not disturb the others. A notification whose value has another type is rejected.",
     ["histories"],
     "all histories of subscribe, unsubscribe and emit over several sources and sinks of all argument types, including re-entrant changes",
     "tests subscribe one sink and emit once; re-entrancy needs a particular nesting",
     ["include/Xsmp/EventSource.h", "src/Xsmp/EventSource.cpp", "include/Xsmp/EventSink.h", "src/Xsmp/EventSink.cpp"],
     [("Subscribe/Unsubscribe/Emit", "src/Xsmp/EventSource.cpp"), ("Notify", "include/Xsmp/EventSink.h")],
     EXPL + SMPNOTE)

prop("C17", "Component lifecycle steps run once, in order, and failures count",
     "A component publishes, configures, connects and disconnects only from the matching state, running its own hook exactly once per step whichever hook signatures it declares, and any other call is refused with the invalid-state exception that names the present and expected states and changes nothing. After publishing and configuring, the simulator the component belongs to is known. A hook that throws leaves the exception to the caller. A fallible model is failed exactly while one of its failures is failed.",
     ["histories", "faults"],
     "all histories of publish, configure, connect, disconnect, fail and unfail calls on all combinations of hook signatures, with hooks that throw",
     "tests run one regular publish-configure-connect sequence of one component with one choice of hook signatures",
     ["include/Xsmp/ComponentHelper.h", "src/Xsmp/Component.cpp", "src/Xsmp/FallibleModel.cpp"],
     [("Publish/Configure/Connect/Disconnect helpers", "include/Xsmp/ComponentHelper.h"),
      ("IsFailed", "src/Xsmp/FallibleModel.cpp")],
     EXPL + SMPNOTE)

prop("C18", "Links are counted per pair and removed completely on request",
     "The link registry counts every link added and removed between a source and a target, lists as sources of a target exactly the components with a positive count, says that links can be removed exactly when every source supports it, and on request asks every such source once, also when sources change the registry meanwhile or threads use it concurrently. A component asked to remove its links to a target afterwards has no reference, event subscription or data-flow connection to that target or its parts, and all other links are untouched.",
     ["histories", "schedules"],
     "all histories of link additions and removals, all link patterns (references, event subscriptions, data-flow of simple, array and structure fields), concurrent callers",
     "LinkRegistryTest.cpp uses one source and one target; omissions show only with several links of mixed kinds or equal names",
     ["src/Xsmp/Services/XsmpLinkRegistry.cpp", "src/Xsmp/Component.cpp", "src/Xsmp/Publication/Field.cpp"],
     [("AddLink/RemoveLink/RemoveLinks", "src/Xsmp/Services/XsmpLinkRegistry.cpp"),
      ("RemoveLinks", "src/Xsmp/Component.cpp")],
     EXPL + SMPNOTE + "Thread schedules are those the operating system produces.")

prop("C19", "Scheduled events run at their time, in order, as often as asked",
     "During a run every posted simulation, mission, epoch or immediate event is executed exactly once plus its repeats (for ever when negative), each time when simulation time equals its due time, in the order of (due time, posting), immediate events right after the current one. Moving, re-cycling, repeating or removing a pending or the current event takes effect from then on; unknown events, past times and non-positive cycles are refused with the documented exception. Hold, Hold(false), Run(duration) and Abort stop the run at the documented point and lose no event. Simulation time never decreases.",
     ["histories"],
     "all histories of post, move, remove, query, hold, abort and clock changes made in Standby, by entry points under execution and by time-change subscribers, over several runs",
     "SchedulerTest posts a few events and runs once; order, repetition and removal errors need a particular combination",
     ["src/Xsmp/Services/XsmpScheduler.cpp", "src/Xsmp/Services/XsmpTimeKeeper.cpp", "src/Xsmp/Simulator.cpp"],
     [("Add*/Set*/RemoveEvent, Execute, _EnterExecuting", "src/Xsmp/Services/XsmpScheduler.cpp"),
      ("Run/Hold/Abort", "src/Xsmp/Simulator.cpp")],
     EXPL + SMPNOTE + "Outside: durations that overflow, mission or epoch clock changes that move pending events backwards or cyclic ones, Run called by an event that has just held the simulation.",
     technique="property-based testing (stateful, reference scheduler, shrinking)")

prop("C20", "Zulu events run at their real time, never together with another event",
     "Every zulu-time event is executed, by the scheduler's own thread, not before its real time, in time order, once plus its repeats, in Standby and Executing states, whatever operations events and other threads perform meanwhile; it is not executed after its removal and its move takes effect at once. No two entry points run at the same time. A hold by a zulu event always stops the running simulation, no simulation event is executed after it, Run returns in Standby state, and simulation time does not run faster than the target speed. There is no data race, deadlock or lost wake-up, up to and including Exit.",
     ["schedules", "histories"],
     "all plans of zulu and simulation events that post, move, remove and repeat events and hold runs, with an independent thread, at any speed and thread interleaving",
     "tests sleep around a single zulu event; races, missed wake-ups and lock-order errors need an unlucky interleaving",
     ["src/Xsmp/Services/XsmpScheduler.cpp", "src/Xsmp/Simulator.cpp", "src/Xsmp/Services/XsmpEventManager.cpp"],
     [("ExecuteZulu, InternalZuluRun, AddZuluTimeEvent, SetEventZuluTime", "src/Xsmp/Services/XsmpScheduler.cpp"),
      ("Run/Hold/Exit", "src/Xsmp/Simulator.cpp")],
     EXPL + SMPNOTE + "Thread schedules are those the operating system produces under ThreadSanitizer; events changed by an independent thread are judged by weaker rules. Outside: Exit called by a zulu event.",
     technique="property-based testing (generated concurrent plans, history checker, ThreadSanitizer)")

prop("C21", "The simulator follows its state machine, in order, and Abort is final",
     "Each simulator operation takes effect only in the states it is defined for and otherwise does nothing; a transition emits the Leave event of the old state in the old state and the Enter event of the new state in the new state, in the documented order, also when an operation is called by a subscriber of such an event or by an init entry point. Components, including those added meanwhile, are published, configured and connected once, parents before children, and disconnected by Exit, which the destructor calls. Init entry points run in order at each initialisation. Adding models, services and init entry points is refused outside the building, connecting and standby states, and on name conflicts. Once aborted the state never changes again; an exception thrown by an event subscriber aborts the simulation; a failed restore leads back to standby.",
     ["histories", "faults"],
     "all histories of simulator operations called from outside, from event subscribers, from init entry points and from component steps, with subscribers that throw and files that cannot be restored",
     "SimulatorTest follows the regular sequence of states once, without operations called by subscribers",
     ["src/Xsmp/Simulator.cpp", "include/Xsmp/Simulator.h", "src/Xsmp/Services/XsmpEventManager.cpp", "src/Xsmp/Helper.cpp"],
     [("state transitions, AddModel, AddService, AddInitEntryPoint", "src/Xsmp/Simulator.cpp"),
      ("Emit", "src/Xsmp/Services/XsmpEventManager.cpp"), ("SafeExecute", "src/Xsmp/Helper.cpp")],
     EXPL + SMPNOTE + "Component steps and init entry points do not throw; the services are visited before the models.",
     technique="property-based testing (stateful, reference state machine, shrinking)")

prop("C22", "Persisted values of every supported type are restored unchanged",
     "Whatever sequence of values of the supported types (primitives, enumerations, strings, pairs, sequences, sets, maps, arrays, atomics, object pointers, and nestings of them) is stored, with or without type marks, into memory or a state vector file, restoring the same sequence gives equal values, whatever the targets held before, and consumes exactly the stored bytes. A value restored as another type is refused with CannotRestore and left unchanged; a state vector cut at any byte gives CannotRestore; a file or directory that cannot be created or opened gives CannotStore or CannotRestore.",
     ["inputs", "faults"],
     "all sequences of values of 49 types, all truncations, wrong types, and unusable paths",
     "PersistTest.cpp stores one value per type into fresh targets; sizes, old target contents, nesting and truncation are not sampled",
     ["include/Xsmp/Persist.h", "include/Xsmp/Persist/StdVector.h", "include/Xsmp/Persist/StdString.h", "include/Xsmp/Persist/StdMap.h",
      "include/Xsmp/Persist/SmpIObject.h", "src/Xsmp/StorageReader.cpp", "src/Xsmp/StorageWriter.cpp"],
     [("Helper<T>::Store/Restore", "include/Xsmp/Persist.h"), ("Restore", "src/Xsmp/StorageReader.cpp"), ("Store", "src/Xsmp/StorageWriter.cpp")],
     EXPL + SMPNOTE + "Stored pointers designate objects that an absolute path resolves to (no containers or references).")

prop("C23", "A restored simulation shows the stored state and continues as before",
     "After Store, any further history in the same or an identically built new simulation, and Restore, every state value (fields, forced and failed states, clocks, state of persistent components) is what it was when stored and every other value is what it was just before the restore; and any further history (events of all kinds with their identifiers, cycles and repeats, subscriptions, event identifiers) then unfolds exactly as in a simulation that was stored but never disturbed. A state vector that is missing or truncated gives CannotRestore, one that cannot be written completely gives CannotStore; the simulator is then in Standby and a later valid restore gives the whole state.",
     ["histories", "faults"],
     "all histories before the store, between store and restore, and after it; all truncations; stores made by a subscriber while a run is being held; zulu events under a simulated clock",
     "SimulatorTest stores and restores one unchanged simulation; a lost event, subscription or flag shows only in what happens afterwards",
     ["src/Xsmp/Simulator.cpp", "src/Xsmp/Services/XsmpScheduler.cpp", "src/Xsmp/Services/XsmpEventManager.cpp", "src/Xsmp/Services/XsmpTimeKeeper.cpp",
      "include/Xsmp/Field.h", "src/Xsmp/Field.cpp", "src/Xsmp/Publication/Field.cpp", "src/Xsmp/StorageWriter.cpp"],
     [("Store/Restore", "src/Xsmp/Simulator.cpp"), ("Store/Restore", "src/Xsmp/Services/XsmpScheduler.cpp"),
      ("Store/Restore of fields", "include/Xsmp/Field.h"), ("Store/Restore", "src/Xsmp/Publication/Field.cpp")],
     EXPL + SMPNOTE + "Metamorphic: the reference is an undisturbed run of the same code. Outside: Restore called by a subscriber during Run(duration); data-flow connections, which are not part of the state.",
     technique="property-based testing (metamorphic and model-based histories, fault injection, shrinking)")

prop("C24", "Fields hold exactly the values written to them",
     "Whatever the history of reads and writes through the field interfaces, the typed fields (assignment, arithmetic operators, items, iterators) and the published variables, every field shows the last value written to it, converted to its kind, and no other field changes; published fields and their variables always agree. A value that cannot be converted, that is no literal of a published enumeration, an index or a length out of bounds is refused and changes nothing. A forced or frozen field keeps its value until it is unforced, also after a refused Force; a model is failed exactly while one of its failures is. Fields have the name, description, parent, view, type, size and flags they were created with.",
     ["histories"],
     "all histories of writes, forcing and failing over some 700 leaf values of typed and published fields of every kind and shape; all attributes of generated fields",
     "the field tests write one value per type; wrong kinds, neighbours, forced states and variables are not combined",
     ["include/Xsmp/Field.h", "src/Xsmp/Field.cpp", "src/Xsmp/Publication/Field.cpp", "include/Xsmp/AnySimpleConverter.h", "src/Xsmp/FallibleModel.cpp"],
     [("SimpleField, ArrayField, SimpleArrayField, StructureField", "include/Xsmp/Field.h"), ("Force/Freeze/Unforce, Fail/Unfail", "src/Xsmp/Field.cpp"),
      ("SetValue/GetValue", "src/Xsmp/Publication/Field.cpp")],
     EXPL + SMPNOTE + "Typed enumerations may accept or refuse a value that is no literal; a refused SetValues may have written the items before the refused one. Dates before 2262.",
     technique="property-based testing (stateful, reference model of all values, shrinking)")

prop("C25", "Data flows from outputs to exactly the connected inputs",
     "An output field is connected to an input field only if both have the same shape and item kinds; other targets give InvalidTarget, and a second connection of the same fields or of any of their items gives FieldAlreadyConnected, without any effect. A connection sends the current value at once; from then on every write to a typed output, and every Push of any output, gives the connected fields the same value, through chains of fields, except those that are forced, and nothing else changes. Disconnecting removes exactly that connection, items included, and the list of connected fields is always exact.",
     ["histories"],
     "all acyclic histories of connections, disconnections, writes, pushes and forcing over typed and published fields of all shapes, and over their items",
     "the field tests connect one pair; wrong shapes, chains, items and several targets are not combined",
     ["src/Xsmp/Field.cpp", "include/Xsmp/Field.h", "src/Xsmp/Publication/Field.cpp", "src/Xsmp/Helper.cpp"],
     [("FieldHelper, Connect/Disconnect/Push", "src/Xsmp/Field.cpp"), ("DataflowField", "src/Xsmp/Publication/Field.cpp"), ("AreEquivalent", "src/Xsmp/Helper.cpp")],
     EXPL + SMPNOTE + "Outside: cycles of connections, connected fields of different enumeration or string types.",
     technique="property-based testing (stateful, model of the connections, shrinking)")

prop("C26", "Emitted global events reach exactly the subscribed entry points",
     "Every event name has one identifier, the predefined names their own, and unknown names get a new one; empty names give InvalidEventName and unknown identifiers InvalidEventId. Emitting an event calls, once each and in the order of subscription, exactly the entry points subscribed when it was emitted; subscriptions and unsubscriptions made meanwhile take effect at the next emission; subscribing twice gives EntryPointAlreadySubscribed and unsubscribing what is not subscribed EntryPointNotSubscribed, without effect. An entry point that throws aborts the simulation, and the others are still called. All of it holds when several threads query, subscribe and emit at once.",
     ["histories", "threads"],
     "all histories of queries, subscriptions, unsubscriptions and nested emissions, with entry points that change subscriptions, emit or throw; and schedules of several threads",
     "the tests emit one event with one entry point; changes made during an emission, nesting, failures and races need histories and schedules",
     ["src/Xsmp/Services/XsmpEventManager.cpp", "src/Xsmp/Services/XsmpEventManager.h", "src/Xsmp/Helper.cpp"],
     [("XsmpEventManager", "src/Xsmp/Services/XsmpEventManager.cpp"), ("SafeExecute", "src/Xsmp/Helper.cpp")],
     EXPL + SMPNOTE + "Thread schedules are those that real threads with random pauses meet, under ThreadSanitizer.",
     technique="property-based testing (stateful, model of the subscriptions; threads under ThreadSanitizer)")

prop("C27", "The four clocks stay consistent and changes are announced once",
     "At any time epoch time is simulation time plus an offset, mission time is epoch time minus the mission start, and zulu time is the system clock. Setting epoch time, mission time or the mission start changes only the clocks it names, and is announced exactly once, after the change. Simulation time is changed only during the announcement of a simulation time change, within the current time and the next scheduled event, and gives InvalidSimulationTime otherwise, without effect; it never goes back, and threads reading the clocks see each value consistently.",
     ["histories", "announced", "threads"],
     "all histories of clock settings, posted events, runs and holds, settings made while a time change is announced, and threads reading meanwhile",
     "the tests set each clock once in a stopped simulation; consistency must hold after every history and for every reader",
     ["src/Xsmp/Services/XsmpTimeKeeper.cpp", "src/Xsmp/Services/XsmpTimeKeeper.h", "src/Xsmp/Services/XsmpScheduler.cpp"],
     [("XsmpTimeKeeper", "src/Xsmp/Services/XsmpTimeKeeper.cpp"), ("announcement of simulation time changes", "src/Xsmp/Services/XsmpScheduler.cpp")],
     EXPL + SMPNOTE + "Outside: values beyond 2^62 ns; subscribers to the announcement that subscribe before the time keeper is connected. Thread schedules are those that real threads meet, under ThreadSanitizer.",
     technique="property-based testing (stateful, model of the clocks; threads under ThreadSanitizer)")

prop("C28", "Invoking operations and properties carries exactly the valid values",
     "Every registered type is found by its identifier with the attributes it was registered with, and a second type of the same identifier, an unknown item or base type, or an unsuitable kind is refused. Published operations and properties are listed in their order with their attributes and parameters; publishing one again replaces it. A request is created for every operation whose types are simple and every property whose access allows it, and for nothing else; it accepts exactly the values of the kind and limits of each type (InvalidAnyType, InvalidParameterValue, InvalidReturnValue, InvalidParameterIndex, VoidOperation otherwise), keeps them, and reaches the component exactly once when it is complete and belongs to the operation invoked. Reading or writing a property passes its exact value. Structured values written to a request are read back unchanged, item by item, and missing items keep the default.",
     ["histories", "structured"],
     "all histories of type registrations, publications, requests, values at and around the limits, and invocations; values of structured types through complete and partial requests",
     "the tests use a few types and one or two values each; the boundary values of every kind and the combinations of parameters, directions, replaced operations and partial requests are not covered",
     ["src/Xsmp/Publication/Request.cpp", "src/Xsmp/Publication/Operation.cpp", "src/Xsmp/Publication/Property.cpp", "src/Xsmp/Publication/Publication.cpp", "src/Xsmp/Publication/TypeRegistry.cpp", "src/Xsmp/Publication/Type.cpp", "src/Xsmp/Request.cpp", "include/Xsmp/Request.h"],
     [("Request::isValid", "src/Xsmp/Publication/Request.cpp"), ("Operation, Property", "src/Xsmp/Publication/Operation.cpp"), ("CreateRequest", "src/Xsmp/Publication/Publication.cpp"), ("extract, inject", "src/Xsmp/Request.cpp")],
     EXPL + SMPNOTE + "Outside: NaN given to a bounded float type; requests kept after their operation or property was published again.",
     technique="property-based testing (stateful, model of the types and requests, shrinking)")

prop("C29", "Every logged message reaches the appenders that accept it, once",
     "Every message given to the logger is written exactly once, in the order given, to each configured appender whose levels and path pattern accept it, and to no other, in the text its layout defines (message, kind, path of the sender, dates, literal text, widths); everything is written when the logger is deleted. The configuration file is read whatever its spaces, comments and order; the first value of a key counts, and unknown appenders, layouts and patterns are ignored. A message kind keeps one identifier, the predefined ones their own, also after storing and restoring. All of it holds when several threads log and query kinds at once.",
     ["histories", "threads"],
     "all configuration files of the grammar with redundant and malformed entries, all histories of messages, kinds, stores and restores; and several threads logging at once",
     "the tests log a few messages to the default configuration without reading what was written; filters, layouts, malformed patterns and concurrent use are not covered",
     ["src/Xsmp/Services/XsmpLogger.cpp", "src/Xsmp/Services/XsmpLogger.h"],
     [("XsmpLogger", "src/Xsmp/Services/XsmpLogger.cpp")],
     EXPL + SMPNOTE + "Outside: null messages and kind names, two appenders on one file. Thread schedules are those that real threads meet, under ThreadSanitizer.",
     technique="property-based testing (stateful, model of the files written; threads under ThreadSanitizer)")

prop("C30", "An exception reports exactly what was wrong",
     "Whatever is refused, the exception has the type that stands for the reason, is caught as that type, as Smp::Exception and as std::exception, has the name of the type and a description, names a living sender, gives back through its getters exactly the values it was raised for (texts as its own copies, null texts as <null>), and mentions them in its message; what() is its name, description and message. A value read, written, notified or passed as another kind than its own reports both kinds, and the getters of one are not those of the other.",
     ["carried", "types", "fields", "requests", "objects"],
     "all exceptions with all values of their arguments, with texts that are gone when it is examined; all pairs of kinds of values; and the refusals of fields, requests, containers, references, types, events and services",
     "the tests raise each exception once with constant arguments and rarely check the getters of those raised by the objects themselves",
     ["src/Xsmp/Exception.cpp", "include/Xsmp/Exception.h", "src/Smp/AnySimple.cpp", "src/Xsmp/Publication/Request.cpp", "src/Xsmp/Request.cpp", "src/Xsmp/Publication/Field.cpp"],
     [("exceptions", "src/Xsmp/Exception.cpp"), ("AnySimple", "src/Smp/AnySimple.cpp"), ("GetValue", "src/Xsmp/Request.cpp"), ("getOwner", "src/Xsmp/Publication/Field.cpp")],
     EXPL + SMPNOTE + "Outside: exceptions of constructors of typed fields with another type's identifier; dates and durations that cannot be printed (C12).")

prop("C31", "Factories create what they stand for; members are owned once",
     "A registered factory is found by its identifier, its name and its position. A second factory with a registered identifier, or the same factory again, is refused with DuplicateUuid that names both, is deleted at most once and changes nothing. CreateInstance gives a component of the factory's type with the name, description, parent and simulator asked for; it gives null for an unknown identifier and InvalidObjectName for a bad name, and an instance whose identifier is not the one asked for is refused and deleted. DeleteInstance deletes its instance exactly once. Models and services are children of the simulator with unique names, listed in the order they were added and found by name; the first service of each standard interface stays the standard one. Everything is deleted exactly once, at the latest with the simulator.",
     ["histories"],
     "all histories of registrations, instance creations and deletions, models and services added, with repeated identifiers, names and objects",
     "the tests register a factory and create an instance once; what happens to refused, repeated and already owned objects over a whole history is not covered",
     ["src/Xsmp/Factory.cpp", "include/Xsmp/Factory.h", "src/Xsmp/FactoryCollection.cpp", "src/Xsmp/FactoryCollection.h", "src/Xsmp/Simulator.cpp", "include/Xsmp/Container.h"],
     [("FactoryCollection", "src/Xsmp/FactoryCollection.cpp"), ("RegisterFactory, CreateInstance, AddModel, AddService", "src/Xsmp/Simulator.cpp")],
     EXPL + SMPNOTE + "Outside: null factories, models and services; instances kept beyond the simulator.",
     technique="property-based testing (stateful, model of the owners, counted deletions, shrinking)")

prop("C32", "Published fields are listed once, as published, and found by path",
     "Every published field, by address or as a member, is listed exactly once, with the name, description, type, view, state, input, output and parent it was published with, and is found by name, by position and by its path from the publication and from the component, also inside anonymous arrays and structures. A name that a published field already has is refused with DuplicateName, an invalid name with InvalidObjectName, an unknown type with TypeNotRegistered and a path that leads nowhere with InvalidFieldName, all without effect. Unpublish removes everything published.",
     ["histories"],
     "all histories of publications of fields of every kind at several levels, with repeated and invalid names and types, lookups by generated paths, and Unpublish",
     "the tests publish a handful of distinct fields and look each up once; clashes between the kinds of fields, nesting and paths that lead nowhere are not covered",
     ["src/Xsmp/Publication/Publication.cpp", "src/Xsmp/Publication/Publication.h", "src/Xsmp/Publication/Field.cpp", "include/Xsmp/Collection.h", "src/Xsmp/Helper.cpp"],
     [("PublishField, PublishArray, PublishStructure", "src/Xsmp/Publication/Publication.cpp"), ("DelegateCollection", "include/Xsmp/Collection.h"), ("Resolve", "src/Xsmp/Helper.cpp")],
     EXPL + SMPNOTE + "Order is checked among the fields published by address and among the members. Outside: null fields and addresses.",
     technique="property-based testing (stateful, model of the tree of fields, shrinking)")

prop("C33", "A model shows one state by every route of the simulator",
     "A model written for the generated code has one state, whichever route reads or changes it: direct calls, fields, properties, dynamic operations, entry points, scheduled events, event sources and sinks, and stored states. Whatever one route does is seen by all the others at once: the counters of the example keep step with the requests, the runs of the scheduler and the events raised; operations give the result and the output parameters of the function they stand for; events reach their sinks with their value once per connection; properties read and write the member behind them within their access.",
     ["histories"],
     "all histories that mix the routes on the example models and on the models of the test suite, with stores, restores, disconnections and invalid uses in between",
     "the tests exercise each route once and mostly alone, in one scripted simulation; that the routes agree must hold after every history",
     ["src/Xsmp/Component.cpp", "include/Xsmp/Component.h", "include/Xsmp/ComponentHelper.h", "include/Xsmp/Request.h", "src/Xsmp/EntryPoint.cpp", "src/Xsmp/EntryPointPublisher.cpp", "include/Xsmp/EventSink.h", "include/Xsmp/EventSource.h", "include/Xsmp/Field.h", "src/Xsmp/Publication/Operation.cpp", "src/Xsmp/Publication/Property.cpp", "src/Xsmp/Publication/Request.cpp", "src/Xsmp/Simulator.cpp"],
     [("invocation", "include/Xsmp/Request.h"), ("entry points and events", "src/Xsmp/EntryPoint.cpp"), ("fields and properties", "src/Xsmp/Publication/Property.cpp")],
     EXPL + SMPNOTE + "The models are those of examples/project1 and of src/Xsmp/Tests with their generated code.",
     technique="property-based testing (stateful, model of the models, metamorphic between routes, shrinking)")

prop("C34", "Each Python test gets its own connected simulator, released afterwards",
     "Every test of a xsmp.unittest.TestCase runs with a simulator of its own: created for it, with the libraries, components and logger levels its class asks for, built, connected and in Standby before the test body, each step exactly once and in order. After the test the simulator is left through Exit or Abort according to its state, and released, also when the test or a hook fails, is skipped or leaves the simulator in another state; no simulator is shared with or outlives to another test. A failing step is reported as the failure of that test, with its own exception, and the other tests still run.",
     ["histories", "faults"],
     "all classes of up to four tests with overridden hooks, libraries and models, with faults of several kinds injected into any call of the simulator, of the hooks or of the test",
     "the Python tests are scripts that need the native module and rely on the class; how it behaves when a step fails is not covered",
     ["python/xsmp/unittest.py"],
     [("TestCase.setUp, tearDown", "python/xsmp/unittest.py")],
     EXPL + "The native module ecss_smp cannot be built here (pybind11 is absent): it is replaced by a stand-in that records the calls. Outside: a simulator whose Exit raises.",
     technique="property-based testing (Hypothesis, fault injection, model of the calls, shrinking)")

prop("C35", "Registered types are kept once and lay out the fields of their type",
     "The type registry gives every registered type back under its identifier, and the predefined types also under their kind, always as the same object with the name, description, attributes, kind and interfaces it was registered with. A used identifier, an invalid name, an unsuitable kind or size, an unknown item or base type, an item without a value and a used literal value are refused with the exception that says so, without effect. A field published with a type, however deeply composed, has exactly the shape, names, flags and addresses the type defines: each value lies at its offset, writing it changes its bytes only and is read back, an enumeration takes its literals only, and storing keeps exactly what is marked as state.",
     ["histories", "inputs"],
     "all histories of valid and refused registrations with identifiers that differ in one place; all types composed of arrays, simple arrays, structures, classes, strings, enumerations and primitive types, with padding and permuted members, and all sequences of writes, stores and restores of fields of these types",
     "the tests publish the generated types only, whose layout is always the natural one; refused registrations and composed types made at run time are not covered",
     ["src/Xsmp/Publication/TypeRegistry.cpp", "src/Xsmp/Publication/TypeRegistry.h", "src/Xsmp/Publication/Type.cpp", "src/Xsmp/Publication/Type.h", "src/Xsmp/Publication/Field.cpp", "src/Xsmp/Publication/Field.h"],
     [("AddType", "src/Xsmp/Publication/TypeRegistry.cpp"), ("ArrayField, SimpleArrayField, StructureField", "src/Xsmp/Publication/Field.cpp")],
     EXPL + SMPNOTE + "Outside: recursive structures, repeated field names, fields of a base class, misaligned layouts, values of enumerations of 1, 2 or 8 bytes that are no literals.",
     technique="property-based testing (stateful, model of the registry and of the memory, shrinking)")
