prop("C01", "Built-in reductions compute exactly the requested operation",
     "For every built-in element type and every built-in reduction operation, combining two arrays yields element by element the operation applied in that type, for exactly the requested number of elements, also when an input is missing or the output aliases an input. Initialising for a reduction fills every element with the neutral element of that operation in that type.",
     ["inputs"], "all element values, counts, operations and element types, aliasing of inputs and output",
     "Tests reduce a few doubles with Sum; Min, Max, And, Or, Prod and the other seven types and missing inputs are never executed with checked values.",
     ["src/type.c"], [("reduce and init callbacks of the built-in types", "src/type.c laik_*_reduce / laik_*_init")],
     ["result buffer of a reduction", "container values after initialisation for a reduction"],
     tech="specialisation of the registered callbacks per operation and scalar-evolution normal form compared with the operation's definition",
     note="Decides the result of the callbacks for every element, count and operation at the IR level; trusts clang/LLVM normalisation and IEEE semantics of the compiler.")

prop("C02", "All backends execute a reduction with the same operation and element type",
     "Whatever backend runs a program, a requested reduction is executed with the operation and element type that were requested, for all built-in operations and types. Data of a container is transferred by the message layer as elements of the container's type.",
     ["inputs", "configurations"], "all operations x element types x backends",
     "The tests use Sum over double; a wrong entry for another operation or type never executes.",
     ["src/backend-mpi.c", "src/backends/tcp/backend-tcp.c", "src/backends/tcp/minimpi.c"],
     [("mapping of operations and types to the message layer", "getMPIOp/getMPIDataType, getTcpOp..., laik_tcp_minimpi_reduce")],
     ["values of containers after a reducing switch"],
     tech="conditional constant propagation of operation/type arguments to each reduce/transfer call, specialised normal form of the own reduction",
     note="Decides the operation/type arguments at every library call and the TCP layer's own combining loops; trusts that the MPI library implements its operations.")

prop("C03", "Index range algebra is exact for every coordinate",
     "Intersection, expansion, containment, equality, emptiness and size of index ranges, and index space sizes, are exactly those of the index sets denoted, in 1 to 3 dimensions and for any 64-bit coordinates, including empty ranges; spaces are created with and changed to exactly the requested extents. An empty intersection is reported as such and never yields an inverted range.",
     ["inputs"], "all relative positions of the coordinates of up to two ranges in 1-3 dimensions",
     "Tests use a handful of non-negative ranges in fixed relative positions.",
     ["src/space.c"], [("range operations", "src/space.c laik_range_* / laik_space_*")], ["results of the range and space API"],
     tech="abstract interpretation over the finite order domain (all weak orderings of coordinates)",
     note="Exact for every coordinate value as coordinates are only compared; sizes compared as polynomials (wrap-around excluded).")

prop("C04", "Sort orders are total, overflow-free and the documented ones",
     "Every ordering used to sort ranges, borders, split keys or communication actions is a consistent order (antisymmetric and transitive) for all key values, including keys whose distance exceeds 32 bits. The sequence of actions after sorting keeps program order among equal keys and puts sends and receives of processes into phases that rule out cyclic waiting.",
     ["inputs"], "all key values and all relations of two and three elements",
     "An inconsistent comparison only misorders particular key constellations, and large keys are never used in tests.",
     ["src/space.c", "src/rangelist.c", "src/action.c", "src/core.c", "src/kvs.c"], [("comparison callbacks of the sort calls", "qsort call sites")],
     ["order of range lists, transitions and action sequences"],
     tech="abstract interpretation of comparison callbacks over the order domain",
     note="Exact for two and three elements with arbitrary keys, which implies a strict weak order for any number.")

prop("C05", "Range lists hold exactly the index sets given by a partitioner",
     "After a partitioner added its ranges in any order, every process gets exactly the indexes that were added for it, grouped by tag into mappings; merging never changes an index set and leaves no adjacent or overlapping ranges. Queries by process and by mapping, also on the own or intersecting ranges of a partitioning, return exactly these ranges, full coverage of the space is reported if and only if every index is covered, and renumbering the processes keeps each range with its process.",
     ["inputs"], "all border positions and orders of up to 4 ranges, patterns of processes and tags, 1-3 dimensions",
     "Tests use the few regular layouts of the built-in partitioners; overlaps, duplicated indexes and mixed tags are not exercised.",
     ["src/rangelist.c"], [("freeze, merge, offsets", "src/rangelist.c laik_rangelist_freeze"), ("coverage", "src/rangelist.c laik_rangelist_coversSpace"), ("renumbering", "src/rangelist.c laik_rangelist_migrate")],
     ["ranges and mappings of a process", "coverage check of a partitioning"],
     tech="abstract interpretation of range list construction and queries over the order domain",
     note="Exact for all border values of the enumerated patterns (up to 4 ranges); longer lists by the pairwise treatment of sorted ranges.")

prop("C06", "Mappings own valid memory and keep local values over switches",
     "Over every sequence of container creations, switches, reservations and prepared transitions, each mapping covers exactly the hull of its ranges, lies inside one live memory block that no other mapping uses, and index and address queries agree with it. Indexes staying local keep their values, values to be sent are intact when communication starts and initialised ranges are initialised; each block is freed exactly once, when no mapping uses it any more.",
     ["inputs", "histories", "configurations"], "all border positions of chains of up to 4 switches with up to two ranges or mappings per process, 1-3 dimensions, own, provided, user-allocated and reserved memory",
     "Tests switch between few regular partitionings and never look at addresses, reuse of larger blocks or memory that is freed too early or never.",
     ["src/data.c"], [("switch execution", "src/data.c laik_switchto_partitioning"), ("reservations", "src/data.c laik_reservation_alloc"), ("prepared transitions", "src/data.c laik_exec_transition/laik_exec_actions"), ("containers and queries", "src/data.c laik_new_data/laik_switchto_flow/laik_get_map_*")],
     ["addresses and sizes of mappings", "values of local indexes after a switch", "allocations and frees"],
     tech="abstract interpretation over the order domain with polynomial addresses and an ownership model of memory blocks",
     note="Exact for all border positions and element sizes of the enumerated chains; the backend is modelled by its contract.")

prop("C07", "Built-in partitioners give every index to the right processes",
     "Bisection, grid, block and reassign partitioners give every index of a space to exactly one process, for any space, number of processes, cycles and weights (also more processes than indexes): processes get equal shares, or shares in proportion to the weights of indexes and processes, blocks in the order of processes, never outside of the space. Reassigning keeps the indexes of remaining processes and gives those of removed ones to processes of the new group. The all, master, copy and halo partitioners give exactly the documented ranges, with halos of the wanted depth cut off at the border of the space.",
     ["inputs", "configurations"], "all borders of spaces; numbers of processes up to 10, halo depths up to 3, all outcomes of comparing accumulated weights for up to 7 indexes with weights",
     "Tests use a few sizes that divide well, with many more indexes than processes.",
     ["src/partitioner.c", "src/rangelist.c"], [("partitioner algorithms", "src/partitioner.c run*Partitioner/doBisection"), ("parameters of partitioners", "src/partitioner.c laik_new_*_partitioner/laik_set_*")],
     ["ranges of a partitioning"],
     tech="abstract interpretation over the order domain; floating-point computations as terms with monotone rounding, weight comparisons normalised over the reals",
     note="Comparisons of weights are judged over the real numbers (rounding errors ignored); number of processes and, for block partitioning, of indexes enumerated; negative weights not considered.")

prop("C08", "All processes derive matching transitions between partitionings",
     "For any two partitionings of the same space and group, the operations derived independently by the processes fit together: every send has the matching receive with the same range at the same position, every reduction is executed by exactly its members with the same inputs and outputs, and data already local is kept. Every index wanted by a process is obtained exactly from the processes holding it and nothing else is transferred; the index filter used to shorten range lists keeps exactly the ranges intersecting own ranges.",
     ["inputs", "configurations"], "all border positions of partitionings with up to 3 processes and 3 ranges each, 1-3 dimensions, with/without reduction",
     "Tests use regular block partitionings; mismatches arise from particular overlaps and multi-range or multi-dimensional layouts.",
     ["src/space.c", "src/partitioning.c", "src/rangelist.c"],
     [("transition calculation", "src/space.c laik_calc_transition"), ("index range filter", "src/partitioning.c laik_rangefilter_add_idxfilter")],
     ["operations of a transition on all processes", "messages sent and received in a switch"],
     tech="abstract interpretation of the transition calculation for all processes over the order domain",
     note="Exact for all border values of the enumerated families of partitionings (up to 3 processes, 3 ranges each); larger groups by symmetry of the pairwise calculation.")

prop("C09", "Layouts give each index its own place; pack, unpack and copy agree",
     "In a memory layout every index of a section has the offset defined by the lexicographical order of that section's extents, with section lookup, strides and counts consistent with it, also after taking over the memory of a larger old section. Packing, unpacking and copying a sub-range moves exactly its elements in lexicographical order between the right places, for any section, padding, buffer size and resume position, with the specialised as with the generic variants and for user-defined layouts.",
     ["inputs", "configurations"], "all origins, strides, paddings, sections and element sizes; sub-ranges of up to 3 indexes per dimension, all buffer sizes",
     "Tests pack contiguous ranges of single-section layouts into large buffers.",
     ["src/layout.c", "src/layout_lex.c", "src/data.c"], [("lexicographical layout", "src/layout_lex.c offset_lex/pack_lex/unpack_lex/copy_lex/reuse_lex"), ("generic layout operations", "src/layout.c laik_layout_*_gen")],
     ["messages packed from and unpacked into mappings", "copies between mappings"],
     tech="abstract interpretation with polynomial addresses (symbolic origins, strides and element size)",
     note="Addresses are decided as polynomials for arbitrary strides and paddings; extents of the transferred range bounded by 3 per dimension.")

prop("C10", "Process groups keep processes, ranges and values apart",
     "A group shrunk from another group, repeatedly and with any processes removed, and the union of two groups have exactly the right processes, each at its own location and with the number every process computes for itself. A partitioning moved to a parent, child or union group and back leaves every range with its process. Containers switched between a group and groups shrunk from it keep their values or are reduced as within one group, also for processes that leave.",
     ["inputs", "histories", "configurations"], "all removed subsets in chains of shrinking steps and unions of up to 5 processes, all orders of locations, all border positions of switches across groups with up to 4 processes",
     "Tests remove one fixed process once; unions, repeated shrinking and switching back are not exercised.",
     ["src/core.c", "src/partitioning.c", "src/rangelist.c", "src/data.c", "src/backend-mpi.c", "src/backends/tcp/backend-tcp.c"],
     [("group creation", "src/core.c laik_new_shrinked_group/laik_new_union_group"), ("moving partitionings", "src/partitioning.c laik_partitioning_migrate"), ("switching across groups", "src/data.c laik_switchto_partitioning")],
     ["size, own number and locations of groups", "ranges after moving a partitioning", "container values after a switch across groups"],
     tech="abstract interpretation with opaque locations over all removed subsets; product of all processes over a message-passing model",
     note="Switches across groups only between a group and its ancestor (others are refused by the library).")

prop("C12", "After a switch all processes hold the right values, whichever backend moves them",
     "When all processes of a group switch a container - directly, by a prepared action sequence, with or without reservation - over the MPI or the TCP backend with any of their settings (asynchronous messages, native or own reduction), each index a process then holds has the value an owner held before, or the requested reduction of exactly one value of each former holder. The processes never wait for each other in a cycle; every message sent is received with matching type and length; no buffer is accessed beyond its end or changed while a message is in flight, and temporary buffers are freed. This holds for every element type and operation.",
     ["inputs", "schedules", "configurations"], "every relative order of range borders for up to 5 processes, all element sizes below the message limits, all backend settings, any message timing",
     "Tests use messages small enough to be buffered, fixed sizes, and default settings for most cases.",
     ["src/action.c", "src/backend-mpi.c", "src/backends/tcp/backend-tcp.c", "src/data.c", "src/space.c"],
     [("action sequence transformations", "src/action.c laik_aseq_flattenPacking/combineActions/allocBuffer/splitReduce/sort_*"), ("MPI backend", "src/backend-mpi.c laik_mpi_prepare/laik_mpi_exec/laik_mpi_asyncSendRecv"), ("TCP backend", "src/backends/tcp/backend-tcp.c laik_tcp_prepare/laik_tcp_exec")],
     ["result of every switch in a parallel run", "prepared action sequences", "reductions"],
     tech="abstract interpretation over the order domain of all processes, product with a message-passing model (deadlock, matching and buffer typestate)",
     note="Message passing modelled with synchronous sends; multi-dimensional packing and sequences prepared without known mappings with small constant extents; group of all processes; the TCP2 backend is decided in C16.")

prop("C11", "Key-value stores agree in all processes after a sync",
     "In a key-value store every key has the last value set for it - any binary value, for any sequence of setting, removing, cleaning and sorting - and after a collective sync over the MPI or TCP backend all processes have the same entries: the union of the changes of all processes, with contradicting changes refused. Registered callbacks run exactly once for each change made by others; index spaces and process locations exchanged through such stores arrive unchanged.",
     ["inputs", "histories", "configurations"], "all contents of keys and values, all orders of keys, sequences of up to 4 operations per process between up to 3 syncs, up to 4 processes",
     "Only one test syncs a few string entries; removal, repeated and binary changes, growth of tables and conflicts never run.",
     ["src/kvs.c", "src/core.c", "src/space.c", "src/backend-mpi.c", "src/backends/tcp/backend-tcp.c"],
     [("key-value store", "src/kvs.c"), ("sync of backends", "laik_mpi_sync / laik_tcp_sync"), ("space and location store", "laik_spacestore_* / laik_sync_location")],
     ["entries of a store", "spaces and locations known to a process", "callbacks of a store"],
     tech="abstract interpretation with opaque key/value bytes over all operation sequences, product of all processes over a message-passing model",
     note="Bounded operation sequences with table capacities of 1; keys compared by order only; sync of the TCP2 backend is decided in C16.")

prop("C13", "TCP backend: mini-MPI delivers, combines and splits like MPI",
     "In the message layer of the TCP backend every message is received once, by the task, communicator and tag it was sent for and in order of sending, with its exact content and count; one too large for the buffer is an error. Broadcast and reductions have the root's values resp. the reduction over all tasks, for every root, count and in-place use, and no task leaves a barrier before all entered it. Communicators from splitting and duplicating, also repeatedly, have the right tasks in the order of their hints, then old ranks; undeliverable messages and invalid arguments are reported as errors in the call, and nothing is leaked.",
     ["inputs", "schedules"], "all values, hints and element types, all roots, colour patterns of up to 4 tasks and split sequences, early and late asynchronous sends, any single failing message",
     "Tests of the TCP backend run few programs that split at most once and use default settings.",
     ["src/backends/tcp/minimpi.c", "src/backends/tcp/async.c"], [("messages and collectives", "src/backends/tcp/minimpi.c laik_tcp_minimpi_*")],
     ["data received over the TCP backend", "members of groups"],
     tech="abstract interpretation of all tasks over a mailbox model, opaque values and hints over the order domain",
     note="Communicators of equal split depth sharing tasks are assumed to be used in the same order by these tasks; message layer below by its contract (decided in C14).")

prop("C14", "TCP backend: every message arrives exactly once with its content",
     "A message sent between two tasks by the TCP backend is obtained exactly once and unchanged by the task asking for it, whatever the limits of the message stores, the timing of threads, the order of requests, partial transfers, or transient failures of connections while attempts are left; a message that was never sent, or that cannot be delivered, is reported as error. Stores never exceed their limit on unrequested delivery, cached connections lead to the right task and are used by one thread at a time; the server handles each request of each accepted connection up to its connection limit, and all memory, locks, threads and connections are released.",
     ["schedules", "fault_sequences", "configurations"], "all sequences of up to 4 store operations, 6 connection uses, message patterns of up to 3 tasks with all store limits, early and late thread execution, up to 2 failing connections, every split of a transfer",
     "Tests run over reliable loopback connections with large stores; refusals, retries and partial transfers hardly happen.",
     ["src/backends/tcp/messenger.c", "src/backends/tcp/map.c", "src/backends/tcp/client.c", "src/backends/tcp/socket.c", "src/backends/tcp/server.c"],
     [("delivery", "src/backends/tcp/messenger.c laik_tcp_messenger_get/push/send"), ("message stores", "src/backends/tcp/map.c"), ("transfer", "src/backends/tcp/socket.c"), ("serving requests", "src/backends/tcp/server.c laik_tcp_server_*")],
     ["data received over the TCP backend"],
     tech="abstract interpretation with models of threads, conditions and connections; nondeterministic failures, partial transfers and timing",
     note="Threads of the pool run atomically at any point where the main thread waits or pushes; server threads interleave at blocking calls and locks, with at most 2 threads and 2 clients; the reading of configuration is not analysed.")

prop("C15", "TCP2 backend: a change of the process set ends with the same world everywhere",
     "At start and whenever all processes allow a change, the processes asked to leave and the processes which asked to join before are taken out of and into the world, and nobody else: afterwards all of them agree on members and numbering, each knows its own number, the mappings from and to the previous world, the phase and the epoch, which is incremented exactly on a change, and the locations after their synchronisation. Container values written before are found by the owners after the change, nothing blocks, and external clients or joining processes that disconnect, repeat requests or send anything else do not disturb it.",
     ["schedules", "histories", "fault_sequences"], "starts of 1-4 processes, up to 3 changes with up to 2 joining and 3 leaving processes, clients sending and closing at changes; order of processes, partial reads and readiness of connections in 7 (thorough: 23) variants",
     "Few tests change the world of real processes, with fixed timing, at most one joining group or one removal, and no misbehaving client.",
     ["src/backend-tcp2.c", "src/core.c"], [("start", "src/backend-tcp2.c laik_init_tcp2"), ("change of the world", "src/backend-tcp2.c tcp2_resize, src/core.c laik_allow_world_resize"), ("locations", "src/core.c laik_sync_location")],
     ["world group, epoch and phase after a change", "container values after a change of the world"],
     tech="abstract interpretation of all processes over a model of sockets, element bytes opaque, schedules and reads enumerated",
     note="Bounded numbers of processes and changes; a fixed set of schedules; crashes of members and lost machines are not modelled; the socket layer delivers reliably.")

prop("C16", "TCP2 backend: container elements and store entries arrive unchanged",
     "After a switch with preservation every index holds the value of an owner before the switch, and after a reducing switch the reduction of exactly the values of all holders, for any sizes of elements up to several messages and whether each process accepts binary or only text transfers. A synchronised key-value store has in every process exactly the entries of all processes with their latest values or removals, whatever bytes keys and values consist of. No sequence of switches and synchronisations blocks.",
     ["inputs", "schedules", "configurations"], "1-4 processes, up to 3 switches of block, cyclic, halo, replicated, multi-dimensional and multi-mapping partitionings, element sizes 1-2000 with every byte content, text and binary processes mixed; order of processes, partial reads and readiness in 7 (thorough: 23) variants",
     "Tests run programs with small elements and processes of equal configuration; schedules and partial reads cannot be provoked.",
     ["src/backend-tcp2.c", "src/kvs.c"], [("exchange and reduction", "src/backend-tcp2.c tcp2_exec"), ("key-value store", "src/backend-tcp2.c tcp2_sync")],
     ["container values after a switch", "entries of a key-value store after a sync"],
     tech="abstract interpretation of all processes over a model of sockets, element bytes opaque, schedules and reads enumerated",
     note="Bounded numbers of processes and indexes, a fixed set of schedules; elements or entries larger than the receive buffer of 8 KB are outside; the reduction callback is decided in C01.")

prop("C17", "Sequences of switches keep all container values",
     "After every step of a sequence of switches, flow changes, executions of calculated transitions and prepared action sequences, with and without reservations, over several containers, process groups and index spaces of 1-3 dimensions, each process finds for every index of its ranges the value last written by an owner, the initial value, or the reduction of exactly one value of each holder, and has memory for it. This holds in every backend and configuration, and no sequence blocks, leaves messages behind, or fails.",
     ["inputs", "histories", "configurations"], "hand-written and generated sequences of up to 12 steps in 1-4 processes over MPI, TCP, TCP2 and single-process backends, several settings and element types; element values opaque",
     "Tests run few programs with one or two switches between the same partitionings and compare sums only at their end.",
     ["src/data.c", "src/action.c", "src/space.c", "src/core.c", "src/rangelist.c", "src/partitioning.c", "src/layout_lex.c", "src/backend-mpi.c", "src/backends/tcp/backend-tcp.c", "src/backend-tcp2.c"],
     [("switch", "src/data.c laik_switchto_partitioning"), ("prepared sequences", "src/data.c laik_calc_actions/laik_exec_actions"), ("reservations", "src/data.c laik_reservation_alloc"), ("groups", "src/partitioning.c laik_partitioning_migrate")],
     ["container values after any step"],
     tech="abstract interpretation of all processes from initialisation to the end over message-passing models, element values opaque, reference of owned values per index",
     note="A finite family of sequences (80 generated ones in quick, 500 in thorough) with concrete ranges; reductions over some processes and initialisation only in one dimension, as offered.")

prop("C18", "Repeated work does not grow memory, and released objects stay released",
     "A program that repeats rounds of switches, of executing prepared sequences, or of creating, using and freeing containers, reservations, partitionings, transitions and action sequences has the same memory in use after each round. Every allocation is freed at most once and not used afterwards, also not by messages, statistics or later switches, and freeing an object leaves the values of the others unchanged. Names and messages stay within their buffers however large the numbers, names, or counts of mappings are.",
     ["histories", "configurations"], "3 (thorough: 4) rounds of about 50 programs of 1-3 processes over MPI, TCP, TCP2 and single-process backends, with and without messages enabled, object numbers up to 2^31",
     "Tests run a few iterations, free almost nothing, and do not look at the memory in use.",
     ["src/data.c", "src/action.c", "src/space.c", "src/partitioning.c", "src/rangelist.c", "src/core.c", "src/debug.c", "src/layout_lex.c"],
     [("release", "laik_free, laik_reservation_free, laik_free_partitioning, laik_free_transition, laik_aseq_free"), ("repeated switches", "src/data.c laik_switchto_partitioning"), ("messages", "src/debug.c")],
     ["memory in use", "container values after freeing others"],
     tech="abstract interpretation with typestate of every allocation (live, freed), comparison of the allocations in use between rounds",
     note="A finite family of programs; groups, index spaces and partitioners have no complete release operation and are created once; floating-point formatting of numbers is skipped.")

prop("C19", "Log output is complete, and only what is selected is written",
     "Every log message at or above the selected level, of a process selected by the location filter, is written completely and once, whatever its length, the number of pieces it is composed of, the lengths of its words, line ends, leading spaces and percent signs in arguments: as consecutive lines carrying the documented prefix (message counter of the phase, line number, process), broken at spaces or line ends only and continued in the next line. Nothing else is written, also not before an instance exists; level, filter and file come from the environment, a shown panic ends the program, and no write leaves a buffer.",
     ["inputs", "histories", "configurations"], "texts of all lengths around the sizes at which buffers grow and lines break, all prefix modes, levels, location filters and output files, with and without instance; 60 (thorough: 300) generated sequences of calls",
     "Tests do not look at log output; almost all their messages are short and disabled.",
     ["src/logging.c"], [("composition", "src/logging.c laik_log_begin/append/flush"), ("selection", "src/logging.c laik_log_init, laik_log_shown"), ("panic", "src/logging.c laik_panic")],
     ["lines on stderr or in the log file"],
     tech="abstract interpretation of the logging functions over concrete texts and symbolic state of streams and buffers, reference of lines per message",
     note="Texts are a finite family; the value of time stamps and the host name are only checked for their place; formatting by the C library is a model (%s %d %u %l %p %f with widths).")

prop("C20", "Measured times, program state and failures are reported as they were",
     "Total and backend time since profiling was enabled or reset are the sums of the time spent within the switching, executing and synchronising calls resp. within the message layer of the instance profiled, and the user time is what was between start and stop; disabled profiling or other instances change nothing; written profiles hold these values, name and phase, and a file which cannot be opened is no failure. Phase and iteration are reported as set. Every loaded agent, static or dynamic and up to the limit, is asked for failures and informed of phases and iterations, all failures are reported up to the given maximum, and each is closed once.",
     ["histories", "inputs"], "36 (thorough: 120) generated sequences of up to 36 steps with switches, prepared sequences, syncs, enabling, resetting and writing of profiles on 1-3 processes; combinations of agents and failures",
     "Times are not reproducible in tests, which only run the profiling calls; no agent is loaded by any of them.",
     ["src/profiling.c", "src/program.c", "src/external.c", "src/data.c", "src/kvs.c"], [("times", "src/profiling.c, src/data.c laik_exec_transition"), ("program state", "src/program.c"), ("agents", "src/external.c")],
     ["values returned by laik_get_total_time, laik_get_backend_time, laik_profile_user_*, profile files", "laik_get_failed"],
     tech="abstract interpretation of all processes with a symbolic clock advanced only by models and the program, reference sums per instance",
     note="A finite family of sequences; times are exact binary fractions, rounding of sums is not considered; entries exchanged by a sync are decided in C11.")

prop("C21", "TCP backend: the settings used are those of the configuration file",
     "Each setting of the TCP backend has the value of its key in the file named by LAIK_TCP_CONFIG, and its default if the key is missing; a file that cannot be loaded, cannot be parsed, or has invalid values is reported as error and never used in part. Changes of the file come into effect by the updating thread for later users, while settings already handed out stay unchanged and valid until given back; without a list of addresses, there is one distinct address per task of the launcher, the same in all tasks and different from those of other programs. At most one update runs at a time, and all objects are released exactly once.",
     ["configurations", "schedules", "fault_sequences"], "each setting alone with valid and invalid values, random subsets, unreadable and unparsable files at start and at updates, 40 (thorough: 200) sequences of changes, updates and uses, launchers with valid and invalid task counts",
     "Tests run with default settings and no changes of the file.",
     ["src/backends/tcp/config.c", "src/backends/tcp/errors.c"], [("settings", "src/backends/tcp/config.c laik_tcp_config"), ("updates", "src/backends/tcp/config.c laik_tcp_config_update_thread")],
     ["settings in use by the TCP backend"],
     tech="abstract interpretation over models of GLib key files, files, environment and threads; table of settings derived from the debug information of the settings structure",
     note="The updating thread runs atomically between calls of users; parsing of the key file itself is GLib's.")

prop("C22", "Statistics and memory of containers are those of what was done",
     "The statistics kept for each container and reported at the end of a program are exact: after every switch or executed transition, the messages, elements and bytes sent, received and reduced, synchronously or asynchronously, the bytes copied and initialised, and the memory in use equal what the process really did, for each backend, element type and prepared or direct execution; the reported sum is the sum over all containers, each number given under its own name. Memory for elements is only requested from and returned to the allocator set for the container, each block exactly once and for the container it was requested for; without partitioning, a container holds no memory.",
     ["inputs", "configurations", "schedules"], "about 60 programs of 1-4 processes (thorough: 210) over MPI with synchronous and asynchronous messages, mini-MPI, TCP2 and single backend; all pairs of 5 partitionings; each value of the statistics",
     "Tests never look at statistics and never set an allocator.",
     ["src/data.c", "src/action.c", "src/debug.c", "src/core.c"], [("accounting of actions", "src/action.c laik_aseq_calc_stats"), ("memory", "src/data.c laik_allocateMap / freeMap"), ("summary", "src/debug.c laik_log_SwitchStat")],
     ["statistics in the log at the end of a program", "calls of the allocator of a container"],
     tech="abstract interpretation of complete programs of several processes; counts of the message layer and allocator model as oracle",
     note="A reduction done by messages among some processes may be counted as one reduction or as its messages; TCP2 messages are not compared with the counts.")

# ---- not applicable -------------------------------------------------------
prop("C60", "Results of the example programs do not depend on the number of processes",
     "Every example program computes the same result for each number of processes, backend and partitioning option.",
     ["inputs", "configurations"], "all process counts and command line options",
     "Tests compare printed sums for a few counts.", ["examples/jac3d.c", "examples/spmv.c"], [("examples", "examples/*.c")], ["printed results of examples"],
     na="The results are floating-point sums over runtime sizes whose rounding depends on the order of summation; no static domain in reach decides their equality. The exchange of values below is decided by C12, C16 and C17.")
