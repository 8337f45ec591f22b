SIMNOTE = ("Seeded search over simulated executions of the real code; every violation repeats from its seed. "
           "Absence of a violation covers the explored seeds only. ")

prop("S01", "Every track is matched exactly once, to the same result, in any schedule",
     "Matching a set of tracks writes exactly one result for every track, and that result equals the one the track gets when it is matched alone by a single thread. "
     "Thread count, scheduling, arrival order, and other tracks (earlier, later or concurrent, including ones whose matching fails) change neither the presence nor the content of a track's result, apart from its measured duration.",
     ["schedules", "inputs", "configurations", "fault_sequences"],
     "all interleavings of reader, dispatcher, worker and writer threads; all track sets, thread counts, single/grouped output, matching models and settings; failures inside single tracks",
     "the tests call the matcher with one thread and one track at a time; lost rows, cross-track state in per-thread caches, and failures inside one task depend on the schedule and on the history of the worker",
     [f"{L}/matching/matcher.hpp", f"{L}/util/coordinator.hpp", f"{L}/geometry/cache.hpp", "src/app/include/app/match.hpp", f"{L}/io/results/match/csv_match_exporter.hpp"],
     [("work distribution", f"{L}/util/coordinator.hpp"), ("per-thread caches reset after every track", f"{L}/matching/matcher.hpp")],
     [("task queue", "tracks not matched yet", f"{L}/util/coordinator.hpp"), ("thread-local distance caches", "geometry results of the current track", f"{L}/geometry/cache.hpp")],
     ["matches.csv", "candidates.csv"],
     note=SIMNOTE + "Runs the app's matching entry point with importer, matcher, exporters on small generated networks; console and CSV reader library replaced.")

prop("S02", "Worker stage runs every accepted task once, in bounds, and always ends",
     "Every task accepted by a worker stage before it is stopped runs exactly once before joining the stage returns, whichever tasks fail. "
     "No more tasks run at once than there are workers, accepted unfinished tasks stay within a fixed multiple of the queue size, and a single-worker stage runs tasks in the order it accepted them. "
     "Once producers are done and the stage is stopped, joining it always returns.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings of producers, dispatcher, workers and the stopping thread; any mix of failing tasks; any number of workers and any queue size",
     "tests never run the stage with controlled interleavings, failing tasks or a racing stop",
     [f"{L}/util/coordinator.hpp"],
     [("bounded queue, counting semaphore, thread pool", f"{L}/util/coordinator.hpp")],
     [("queue, semaphore", "tasks accepted and not finished", f"{L}/util/coordinator.hpp")],
     ["tasks executed", "join returns"],
     note=SIMNOTE + "Task bodies are stand-ins; coordinator, Boost thread pool, queues and semaphore are real.")

prop("S03", "Results that could not be stored completely are reported",
     "When a result file cannot be opened or written, or the disk is full, the program reports the file by name and goes on with the other files and tracks. "
     "Results reach the file or the failure is reported; nothing is reported when everything was stored, and the failure of one file never damages another.",
     ["fault_sequences", "schedules", "crash_points"],
     "any open, write or close of a result file failing, at any point of a run, in any schedule",
     "no test lets a file operation fail",
     ["src/library/src/io/file_exporter.cpp", f"{L}/io/file_exporter.hpp", f"{L}/matching/matcher/matcher.hpp"],
     [("closing result files", "src/library/src/io/file_exporter.cpp")], [], ["matches.csv", "candidates.csv", "messages on standard error"],
     note=SIMNOTE)

prop("S04", "Concurrent stages never access shared memory without ordering",
     "While tracks are read, matched, written and compared by several threads, no two threads access the same memory without ordering when one of them writes. "
     "Worker threads never see each other's per-track geometry caches.",
     ["schedules", "inputs", "configurations"],
     "all interleavings of all threads of the matching and comparing pipelines",
     "tests are single threaded and no sanitizer run is part of the suite",
     [f"{L}/matching/matcher.hpp", f"{L}/geometry/cache.hpp", f"{L}/util/coordinator.hpp", f"{L}/io/results", f"{L}/compare/comparator.hpp"],
     [("thread local caches", f"{L}/geometry/cache.hpp"), ("hand-over through queues only", f"{L}/util/coordinator.hpp")],
     [], ["any memory location"],
     note=SIMNOTE + "Happens-before detection (vector clocks) over every instrumented access in the simulated schedule; library code without instrumentation is not tracked.")

prop("S05", "A time limit stops only its own track, and never loses it",
     "When a track reaches the configured matching time limit it still produces exactly one result, marked as aborted, made of whatever was matched until then; without reaching the limit no result is marked aborted. "
     "Clock jumps, slow workers and aborted neighbours change no other track's result.",
     ["schedules", "fault_sequences", "inputs"],
     "all clock behaviours (steady progress, stalls, forward jumps) and schedules",
     "tests never set a time limit nor control the clock",
     [f"{L}/util/time_helper.hpp", "src/library/src/util/time_helper.cpp", f"{L}/matching/matcher.hpp", f"{L}/matching/algorithm/candidate_search.hpp"],
     [("deadline checks", f"{L}/util/time_helper.hpp")], [], ["aborted column of matches.csv"],
     note=SIMNOTE + "Virtual clock; jumps and stalls are injected at clock reads and synchronisation points.")

prop("S06", "Comparison pairs every match with its reference exactly once and adds up",
     "Comparing matches with reference tracks yields exactly one comparison per identifier held by both sides and, unless non-existing matches are ignored, one against an empty match per reference without match, regardless of the order and interleaving in which both sides arrive; matches without reference yield none, and of several tracks with the same identifier on one side the first one counts. "
     "Lengths of correct, added and missed parts are those of the roads both, only the match, or only the reference cover, equal to those of a sequential comparison; fractions and printed totals follow from them.",
     ["schedules", "inputs", "histories"],
     "all arrival orders of both sides, all interleavings of readers, comparing workers and writers; monotone street-grid drives have an exact expected result, other tracks a sequential one",
     "tests compare single pairs sequentially",
     [f"{L}/compare/comparator.hpp", "src/library/src/compare/comparator.cpp", "src/library/src/compare/comparator/comparator_forwarder_data.cpp", "src/library/src/compare/comparator/comparator_forwarder_matches.cpp",
      "src/library/src/compare/comparator/comparator_forwarder_compares.cpp", f"{L}/geometry/algorithm/compare.hpp", f"{L}/io/results/compare/compare_output_printer.hpp", f"{L}/io/results/compare/csv_compare_exporter.hpp", "src/app/src/app/compare.cpp"],
     [("pairing by identifier", "src/library/src/compare/comparator/comparator_forwarder_matches.cpp")],
     [("waiting halves", "tracks whose partner did not arrive", "src/library/include/compare/comparator/comparator_forwarder_data.hpp")], ["compare results csv", "console totals"],
     note=SIMNOTE)

prop("S07", "Result files hold one header and only whole rows, console lines stay whole",
     "Result files contain one header and then only complete, well-formed rows that read back to the exported values, whatever the interleaving of finishing tracks, partial writes and interrupted system calls. "
     "Console result lines are never interleaved within a line. Results that go to the console leave result files of earlier runs untouched.",
     ["schedules", "fault_sequences", "inputs"],
     "all interleavings of finishing tracks; short writes and EINTR at every write; any text in identifiers and tags",
     "tests do not write result files",
     [f"{L}/io/results/match/csv_match_exporter.hpp", f"{L}/io/results/csv_exporter.hpp", "src/library/src/io/file_exporter.cpp", f"{L}/io/results/compare/csv_compare_exporter.hpp"],
     [("single writer stage per file", f"{L}/io/results")], [], ["matches.csv", "candidates.csv", "compare.csv"],
     note=SIMNOTE)

prop("S08", "Every result, complete or aborted, is a drive on the network",
     "Whatever the schedule, the number of workers, the model, the settings and the moment a time limit strikes: every matched line, of complete and of aborted tracks, can be driven on the network, along edges in their direction and changing edges only at nodes (or turning round within an edge where that is allowed), and it starts and ends at chosen candidates and takes the shortest way from each to the next. "
     "Chosen neighbours that are connected within the maximum routing distance are connected in the match unless errors are skipped. Candidates lie on their edges and belong to points of the prepared track; preparing keeps the points of the track apart from those the enabled filters leave out. "
     "Reported lengths are those of the reported geometries, and the listed edge ids are those of the edges driven, in order.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "all schedules, clock jumps and time limits that end a track at any check; all networks, tracks, models and settings",
     "tests match few tracks without time limits and do not compare the drive with the network",
     [f"{L}/matching/algorithm/route.hpp", f"{L}/geometry/network/network.hpp", f"{L}/geometry/network/route/route.hpp", f"{L}/matching/matcher.hpp", f"{L}/matching/algorithm/candidate_search.hpp",
      f"{L}/environment/environments/single.hpp", f"{L}/environment/environments/hmm.hpp", f"{L}/matching/algorithm/detect.hpp", f"{L}/geometry/algorithm/substring.hpp", f"{L}/geometry/rich_type/rich_line_data.hpp"],
     [("routes between candidates", f"{L}/matching/algorithm/route.hpp"), ("abort checks", f"{L}/environment/environments")],
     [("route cache", "routes between nodes found so far", f"{L}/matching/algorithm/route.hpp")], ["matches.csv", "candidates.csv"],
     note=SIMNOTE)

prop("S09", "Every point gets the candidates its search selects, at any pace",
     "Whatever the schedule, the number of workers and the pace of the clock: the candidates of every prepared point are exactly what the selected search yields on the network. Circle search gives all roads within the radius, nearest search those of the k nearest road segments, combined search the nearest of them within the radius, next search the closest road in both directions and at most roads beside it. "
     "The radius is the configured one, reduced to the distance of the neighbouring points but not below its lower limit when it is adaptive, and doubled up to its upper limit while it contains no road. Every candidate lies where its road is closest to the point, its distance is the length of its projection, and its ways from and to the ends of the road make up the road. "
     "Adoption adds the candidates of both neighbours and those passing within the distance of the farthest own candidate, and no others.",
     ["schedules", "inputs", "configurations"],
     "all schedules and clocks; all networks, tracks and search settings",
     "tests search candidates for few points with one setting each and do not compare them with the network",
     [f"{L}/matching/algorithm/candidate_search.hpp", f"{L}/geometry/network/network.hpp", f"{L}/geometry/algorithm/substring.hpp", f"{L}/geometry/algorithm/buffer.hpp", f"{L}/matching/candidate/candidate_edge.hpp", f"{L}/io/results/match/csv_candidates_exporter.hpp", "src/app/src/app/options.cpp"],
     [("search by circle and neighbours", f"{L}/matching/algorithm/candidate_search.hpp")],
     [("candidate sets", "candidates of each point, own and adopted", f"{L}/matching/candidate/candidate_edge.hpp")], ["candidates.csv"],
     note=SIMNOTE)

prop("M01", "File-backed tag store equals an unbounded in-memory store through growth",
     "Every sequence of adding, merging, copying, replacing and reading node and edge attributes gives the same attributes whether they are kept in memory or in files, however small the files start and wherever they have to grow. "
     "Stored attributes survive growing, reopening and shrinking of the files unchanged.",
     ["histories", "fault_sequences", "configurations"],
     "all operation sequences; growth at any allocation; any initial file size",
     "tests use storages large enough never to grow",
     [f"{L}/io/helper/tag_helper.hpp", f"{L}/io/memory_mapped/storage/tag_storage.hpp", f"{L}/io/memory_mapped/storage/base_storage.hpp"],
     [("retry after growth", f"{L}/io/memory_mapped/storage/base_storage.hpp")],
     [("tag maps", "attributes per node and edge", f"{L}/io/memory_mapped/storage/tag_storage.hpp")], ["tags of nodes and edges"],
     note=SIMNOTE)

prop("M02", "File-backed import graph equals an in-memory graph through growth",
     "Every sequence of adding and removing nodes and edges and reading the graph during import gives the same graph whether it is kept in memory or in files, however small the files start and wherever they have to grow.",
     ["histories", "fault_sequences", "configurations"],
     "all operation sequences; growth at any allocation; any initial file size",
     "tests use storages large enough never to grow",
     [f"{L}/io/helper/graph_helper.hpp", f"{L}/graph/adjacency_list.hpp", f"{L}/io/memory_mapped/storage/graph_storage.hpp"],
     [("retry after growth", f"{L}/io/helper/graph_helper.hpp")], [], ["vertices, edges, data"],
     note=SIMNOTE)

prop("M03", "The compact routing graph has exactly the nodes and edges of the import graph",
     "Converting an import graph into the compact routing graph keeps every remaining node and edge with its data, its direction and its attributes, for in-memory and file-backed storage alike, however often the files have to be recreated larger on the way.",
     ["histories", "fault_sequences", "configurations"],
     "all graphs (including removed nodes, parallel edges, self loops); growth at any allocation",
     "tests convert a few fixed graphs in memory",
     [f"{L}/graph/compressed_sparse_row.hpp", f"{L}/io/helper/graph_helper.hpp"],
     [("conversion", f"{L}/graph/compressed_sparse_row.hpp")], [], ["vertices, edges, in/out edges"],
     note=SIMNOTE)

prop("M04", "The spatial index returns exactly what a scan over all elements returns",
     "Node and edge queries on the spatial index return exactly the elements a scan over all elements returns, whether the index lies in memory or in files, however small the files start, and after saving and reopening.",
     ["inputs", "fault_sequences", "configurations"],
     "all sets of elements and queries; growth at any allocation; reopening",
     "tests query a few fixed elements",
     [f"{L}/io/helper/index_helper.hpp", f"{L}/io/helper/index_build_helper.hpp", f"{L}/io/memory_mapped/storage/index_storage.hpp"],
     [("bulk loading with retry", f"{L}/io/helper/index_helper.hpp")], [], ["query results"],
     note=SIMNOTE)

prop("N01", "Network import turns source files into the same network on every backend",
     "Importing network files yields the network their contents describe: one node per used source node, one edge per way segment and allowed direction with its attributes, for in-memory and file-backed storage alike, however small the files start and however reads are split.",
     ["inputs", "fault_sequences", "configurations"],
     "all network files in supported formats, growth at any allocation, short reads",
     "tests build networks by hand and never import files",
     [f"{L}/io/network", f"{L}/geometry/network/network_import.hpp", "src/app/include/app/network.hpp"],
     [("import handler", f"{L}/io/network/osm_handler.hpp")], [], ["nodes and edges of the network"],
     note=SIMNOTE)

prop("N02", "Cleaning a network conserves its roads on every backend",
     "Removing duplicate nodes and edges, merging chains and dropping small components change the network as documented and nothing else: total length, attributes, geometry and reachability of the remaining network are conserved, nothing is lost, duplicated or invented, identically for in-memory and file-backed storage, however small the files start.",
     ["inputs", "fault_sequences", "configurations"],
     "all networks; growth at any allocation during cleaning",
     "tests clean a few fixed in-memory networks",
     [f"{L}/geometry/network/network_import.hpp", "src/app/include/app/network.hpp"],
     [("merging of chains", f"{L}/geometry/network/network_import.hpp")], [], ["nodes and edges of the network"],
     note=SIMNOTE)

prop("N03", "A prepared network reads back as saved, or is refused",
     "A network saved to files reads back with the same nodes, edges, attributes and search results. "
     "Files that are missing, written by an incompatible build, truncated, or could not be written completely are refused with an error, when saving or when opening, and never yield a different network.",
     ["fault_sequences", "inputs", "configurations"],
     "all networks and kinds of storage; every failing file operation while saving or opening; truncation at every length",
     "tests round trip small networks without faults",
     [f"{L}/io/serialization", f"{L}/io/memory_mapped/storage/base_storage.hpp", f"{L}/geometry/network/network.hpp", "src/app/include/app/network.hpp"],
     [("version check", f"{L}/io/memory_mapped/storage/base_storage.hpp"), ("serialization", f"{L}/io/serialization/serializer.hpp")], [], ["network files"],
     note=SIMNOTE)

prop("N04", "Preparing again after a crash gives the same network as a first run",
     "If preparing a network is killed at any moment, running the same preparation again in the same directory succeeds and gives the same network, attributes and search results as an undisturbed run in an empty directory, whatever the killed run or earlier runs with other settings left there.",
     ["crash_points", "histories"],
     "a crash before every file operation and at every step of a preparation, repeated crashes, leftovers of other runs",
     "tests never crash a preparation",
     ["src/app/include/app/prepare.hpp", f"{L}/io/memory_mapped/storage/base_storage.hpp", f"{L}/geometry/network/network_import.hpp"],
     [("files are removed and created anew", f"{L}/io/memory_mapped/storage/base_storage.hpp")], [], ["network files"],
     note=SIMNOTE)

prop("N05", "Exported networks describe the prepared network, or the export fails visibly",
     "Exporting a network, as node and edge CSV files or as an OpenStreetMap file of any format, writes exactly its nodes, directed roads, geometry and attributes; "
     "OpenStreetMap locations are WGS84, whatever coordinate system the network uses, and ways are one way exactly where the network has no opposite road. "
     "An export that cannot be written completely is reported or ends with an error and never passes for a complete one.",
     ["inputs", "fault_sequences", "configurations"],
     "all networks, kinds of storage, coordinate systems and export formats; every failing file operation while exporting",
     "tests never export a network",
     [f"{L}/io/network/osm_exporter.hpp", f"{L}/geometry/network/network_base.hpp", f"{L}/geometry/network/node.hpp", f"{L}/geometry/network/edge.hpp",
      "src/app/include/app/prepare.hpp", "src/library/src/geometry/srs.cpp"],
     [("export of opposite directions as one way", f"{L}/io/network/osm_exporter.hpp")], [], ["exported files"],
     note=SIMNOTE)

prop("I01", "Track import yields every measurement once, in order, in its own track",
     "Importing tracks delivers every track of the input exactly once under its own identifier with exactly its measurements, ordered by time and otherwise as in the input, "
     "independent of how rows are spread over files, how reads return, and which threads consume the tracks. "
     "Input that is missing, unreadable or refers to unknown roads is reported and never becomes a shorter or different track, and does not disturb the other tracks.",
     ["inputs", "schedules", "fault_sequences"],
     "all inputs, all splits into files and reads, all consumers; reads failing anywhere",
     "tests construct tracks in code",
     [f"{L}/io/track/csv_track_importer.hpp", f"{L}/io/track/gpx_track_importer.hpp", f"{L}/io/track/edges_list_importer.hpp", f"{L}/io/track/seattle_ground_truth_importer.hpp",
      f"{L}/io/track/input_importer.hpp", "src/library/src/io/csv_importer.cpp", "src/app/include/app/match.hpp"],
     [("grouping by identifier", f"{L}/io/track/csv_track_importer.hpp")], [], ["imported tracks"],
     note=SIMNOTE)

prop("G01", "Geometric measures agree with independent reference formulas",
     "Distances, azimuths, interpolated points and sub-lines agree with independent reference formulas in every coordinate system.",
     ["inputs"], "all coordinates", "tests sample a few coordinates",
     [f"{L}/geometry/algorithm"], [("algorithms", f"{L}/geometry/algorithm")], [],  ["measures"],
     na="Pure functions of their arguments: no scheduling, time, I/O or fault can change them, so simulation has nothing to decide.")

prop("G02", "Routing on a network finds shortest routes",
     "On a fixed network the route between two positions is a shortest one and is found whenever one exists within the distance bound.",
     ["inputs"], "all networks and positions", "tests sample a few networks",
     [f"{L}/graph/algorithm/dijkstra_shortest_path.hpp", f"{L}/matching/algorithm/route.hpp"], [("shortest path search", f"{L}/graph/algorithm/dijkstra_shortest_path.hpp")], [], ["routes"],
     na="Pure function of a static graph: no scheduling, time, I/O or fault is involved; routes as part of matching are decided by S08 (shortest between chosen candidates) and S01 (independent of schedule and history).")

prop("G03", "Command line options are parsed into the settings they name",
     "Every documented option sets exactly the setting it names and invalid values are refused.",
     ["inputs"], "all command lines", "no test parses options",
     ["src/app/src/app/options.cpp"], [("option tables", "src/app/src/app/options.cpp")], [], ["settings"],
     na="Pure function of argument vector: nothing concurrent, timed or failing to simulate.")
