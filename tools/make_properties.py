#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "src/training/"
P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, observe, level="exploration", note="", technique="", state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe,
                               hook_needed=None, **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {})),
                  _note=note, _tech=technique, _level=level))

DET = "deterministic simulation: "

prop("C01", "Local result does not depend on thread scheduling or hashing",
     "With the same data and parameters, a single-process run gives bit-identical anomaly scores (and, with explainability, a byte-identical contribution file) no matter how its actors and worker threads are interleaved and which hash keys the process drew.",
     ["schedules", "inputs", "configurations"],
     "every interleaving of the actors and worker threads of one process, every key of the hash tables, every input and number of threads",
     "Tests run each pipeline stage on one input under whatever schedule the machine happens to give; an order dependence shows up only in rare interleavings and as a wrong number, not as a failure.",
     [T + "mod.rs", T + "rotation/pca", T + "node_estimation", T + "scoring/mod.rs", "src/data_manager"],
     [("answers of worker threads carry the part they belong to and are put in place by it", T + "scoring/mod.rs"),
      ("partial density estimates are summed in data order", T + "node_estimation/multi_kde"),
      ("intersections of a segment are clustered in point order", T + "node_estimation/mod.rs")],
     ["return value of the library call", "score file", "contribution file"])

prop("C02", "A local run always ends with exactly one complete result",
     "For every valid input and every number of worker threads (also more threads than rows, windows or tasks), a run in one process returns after a bounded number of steps, without panic, with exactly one result that has one score for every window of query_length points of the embedded series (rows - pattern_length - query_length + 1).",
     ["schedules", "inputs", "configurations"],
     "every valid input down to the shortest one, 1 to 40 threads, every interleaving",
     "A lost answer, a worker without work or a count that is off by one leads to a hang only for particular sizes and orders; tests use few sizes and one or two threads.",
     [T + "mod.rs", T + "scoring/mod.rs", T + "rotation/pca", "src/utils/helper_protocol.rs", "src/data_manager", "src/interface"],
     [("helper protocol counts sent and received tasks", "src/utils/helper_protocol.rs"),
      ("the work is not split into more parts than there are", T + "scoring/mod.rs")],
     ["return of the library call", "exit of the event loop", "number of scores"])

prop("C03", "Scores are those of the Series2Graph++ algorithm",
     "The scores of a single-process run equal those of a plain sequential evaluation of the algorithm: phase-space embedding, PCA to three components per dimension, rotation of the reference direction, segmentation by angle, intersections, density peaks as nodes, path edges with weights and degrees, window scores, missing scores taken from the window before, min-max normalisation.",
     ["inputs", "configurations", "schedules"],
     "every input and parameter setting whose result does not hinge on single-precision rounding, 1 to 16 threads, random schedules",
     "Tests compare single stages with stored values of one data set; wrap-arounds, windows without edges, several dimensions and unusual rates are not reached.",
     [T + "rotation", T + "segmentation", T + "intersection_calculation", T + "node_estimation", T + "edge_estimation", T + "scoring", "src/data_manager"],
     [("stages of the training in order", T + "mod.rs"), ("order of edges of a transition over segment 0", T + "edge_estimation/edges_orderer.rs")],
     ["return value of the library call"])

prop("C04", "The number of threads does not change the scores",
     "A run with any number of worker threads gives the scores of a run with one thread (up to single-precision rounding).",
     ["configurations", "inputs", "schedules"],
     "2 to 25 threads, every input whose result does not hinge on rounding, every interleaving",
     "Tests use one or two threads and data sizes that divide evenly.",
     ["src/data_manager/preprocessor", T + "rotation/pca", T + "node_estimation/multi_kde", T + "scoring/helper.rs", T + "scoring/mod.rs"],
     [("split of rows, columns and windows to helpers", T + "scoring/mod.rs"), ("combination of partial QR decompositions and means", T + "rotation/pca")],
     ["return value of the library call"])

prop("C05", "Scores are complete, finite and normalised to 0..1",
     "Local and cluster runs on data with a meaningful graph give exactly rows - pattern_length - query_length + 1 scores, all of them finite, with minimum 0 and maximum 1.",
     ["inputs", "configurations", "schedules"],
     "inputs of all kinds (noise, jumps, flat parts, trend, large scale and offset, short data), parameters, modes and schedules",
     "Tests look at a few stored results; windows without edges at the start, at partition borders or at helper borders are not among them.",
     [T + "scoring/mod.rs", T + "scoring/helper.rs", T + "scoring/weights.rs", T + "scoring/overlap.rs"],
     [("missing scores are filled from the one before, across helpers and partitions", T + "scoring/mod.rs"), ("min-max normalisation over all partitions", T + "scoring/mod.rs")],
     ["return value of the library call", "score files"])

prop("C06", "A cluster run ends on every node despite delays and short outages",
     "If the main node is up first and connections break only for a while (no loss), every process of a cluster ends successfully within a bounded number of steps with a complete score file, whatever the order of messages, the start delays of the other nodes, stalls, fragmentation of the byte streams and small TCP windows.",
     ["schedules", "fault_sequences", "configurations"],
     "2 to 9 nodes, all interleavings of nodes, threads and deliveries, start delays up to 2 s, stalls up to 3 s, healed partitions, fragmented and back-pressured streams",
     "The distributed tests run two or three nodes on the loopback interface of one machine, where messages hardly ever arrive early or late.",
     ["src/cluster_listener.rs", "src/utils/rotation_protocol.rs", "src/utils/direct_protocol.rs", T + "mod.rs", T + "rotation/pca", T + "segmentation/mod.rs", T + "scoring/overlap.rs", "src/data_manager"],
     [("messages of faster nodes are buffered until the own phase starts", "src/utils/direct_protocol.rs, src/utils/rotation_protocol.rs"),
      ("the main node leaves last", T + "mod.rs"), ("training starts when all members are known and ordered", "src/cluster_listener.rs")],
     ["exit state of every process", "score file of every process"])

prop("C07", "Cluster result does not depend on timing and is the same everywhere",
     "All nodes of a cluster write bit-identical score files, and these do not depend on the order in which nodes join and messages arrive, on stalls or healed partitions, nor on hash keys.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "2 to 9 nodes, all interleavings and transient faults as for the completion of cluster runs, every hash key",
     "An order dependence (messages of a faster node overtaking, sums in arrival order) changes numbers only in rare interleavings; tests do not compare runs.",
     ["src/cluster_listener.rs", "src/utils/rotation_protocol.rs", T + "rotation/pca", T + "segmentation/mod.rs", T + "node_estimation/mod.rs", T + "scoring"],
     [("the main node fixes the order of the nodes", "src/cluster_listener.rs"), ("rotated messages keep their order", "src/utils/rotation_protocol.rs"), ("column means and partial results are combined in node order", T + "rotation/pca")],
     ["score file of every process"])

prop("C08", "A cluster computes the same scores as a single process",
     "Distributing the data over the nodes of a cluster gives the scores a single process with one thread gives for the same file (up to single-precision rounding).",
     ["configurations", "inputs", "schedules"],
     "2 to 9 nodes, 1 to 16 threads per node, every input whose result does not hinge on rounding and whose partitions are at least one window long",
     "Tests check single stages of two or three nodes against hand-made data; transitions, windows and edges that span partitions occur in many more forms.",
     ["src/data_manager", T + "rotation", T + "transposition", T + "segmentation/mod.rs", T + "intersection_calculation/mod.rs", T + "node_estimation/mod.rs", T + "edge_estimation", T + "scoring", "src/data_store", "src/parameters.rs"],
     [("overlap of rows between partitions", "src/data_manager/data_reader/mod.rs"), ("spanning transitions go to the node in front", T + "segmentation/mod.rs"), ("questions for nodes of other cluster nodes", "src/data_store/node_questions"), ("overlap of edges for windows over a partition border", T + "scoring/overlap.rs")],
     ["score files of the cluster", "return value of a single process"])

prop("C09", "Losing a node never leads to a wrong or seemingly complete result",
     "If a cluster node dies (for good, or it is started again), or a connection is reset, at any point, the main process reports success only when its score file is complete and correct, no process leaves a score file with wrong content, and, once the cluster has formed, every surviving process ends when a node has died for good.",
     ["crash_points", "fault_sequences", "schedules"],
     "crash of any one or two nodes at any step (bytes on the way delivered or lost), reset of any connection, in every interleaving",
     "No test stops a node while others work.",
     ["src/cluster_listener.rs", T + "mod.rs"],
     [("reaction to a member that left", "src/cluster_listener.rs"), ("final handshake: the main node leaves last", T + "mod.rs")],
     ["exit code of every process", "score files"])

prop("C10", "Write errors and crashes never pass for a complete output",
     "If writing an output file fails or the process dies while writing (full disk, I/O error, no permission, partial write), success is never reported while a score or contribution file is incomplete; what is on disk is a beginning of the right content (or a file of an earlier run that was not touched yet), never a mix of both, and partial or interrupted writes that can be continued do not change the result.",
     ["fault_sequences", "crash_points", "schedules"],
     "any failing, short or interrupted write or open call of an output file, any point of a crash while writing; local and cluster runs",
     "No test injects file errors.",
     [T + "scoring/mod.rs", "src/lib.rs"],
     [("output is flushed and errors end the run", T + "scoring/mod.rs")],
     ["exit state", "bytes of the output files"])

prop("C11", "Read errors never pass for a result",
     "If reading the input fails at any point, the run ends without reporting success and leaves no score file with wrong content; short or interrupted reads do not change the result.",
     ["fault_sequences", "schedules"],
     "any failing, short or interrupted read or open call of the input file (in the first and the second pass over it), once or persistently; local and cluster runs",
     "No test injects file errors.",
     ["src/data_manager/data_reader/mod.rs", "src/data_manager/mod.rs", "src/utils/itertools.rs"],
     [("lines are counted before the file is split into partitions", "src/data_manager/data_reader/mod.rs"), ("read errors stop the reading", "src/data_manager/data_reader/mod.rs")],
     ["exit state", "bytes of the score file"])

prop("C12", "File input gives the same scores as the same numbers in memory",
     "Reading a series from a file gives exactly the scores of the same numbers given as an array (or, for a cluster, as a plain file), whatever the formatting: line endings (LF, CRLF, CR), empty lines, no newline at the end, spaces around values, quotes, exponents, signs and superfluous digits of numbers, quoted headers and texts that span lines, and additional numeric or text columns before and after the selected ones.",
     ["inputs", "configurations", "schedules"],
     "every combination of formatting, column range (also counted from the end) and mode",
     "Tests read a few well-formed files.",
     ["src/data_manager/data_reader/mod.rs", "src/data_manager/mod.rs", "src/parameters.rs"],
     [("column range", "src/data_manager/data_reader/mod.rs"), ("line counting and partitioning of the file", "src/data_manager/data_reader/mod.rs")],
     ["score files", "return value of the library call"])

prop("C13", "Calls in the same process do not influence each other",
     "Calls in one process, one after another or at the same time from several threads (arrays and files, different sizes and parameters, with and without explainability), each give exactly the result of that call in a fresh process; a call that writes to the files of an earlier one replaces them.",
     ["histories", "schedules", "inputs"],
     "every sequence or parallel set of two to four calls in every interleaving of their tasks",
     "Tests make one call per process or do not compare calls.",
     ["src/lib.rs", "src/interface", T + "mod.rs"],
     [("every call starts its own actor system", "src/lib.rs, src/interface"), ("results reach the caller through a sink of its own", "src/interface/sink.rs")],
     ["return values", "output files of every call"])

prop("C14", "Explainability adds right contributions and leaves scores alone",
     "With explainability switched on in a single process, the scores stay bit-identical, the contribution file has one row per score and one finite column per dimension in [-1, 1], it does not depend on the schedule, and its values are the contributions of the dimensions to the nodes of the window relative to their median.",
     ["inputs", "configurations", "schedules"],
     "1 to 4 dimensions, 1 to 16 threads, every interleaving; values are compared where the graph does not hinge on rounding",
     "The test of the contributions uses a handful of hand-made clusters.",
     [T + "anomaly_contribution", T + "scoring/mod.rs", T + "node_estimation"],
     [("queries are answered in the order of the scores", T + "anomaly_contribution/mod.rs"), ("queries without contribution repeat the one before", T + "scoring/mod.rs")],
     ["contribution file", "score"])

prop("C15", "Self-correction mirrors exactly when most transitions run backwards",
     "With self-correction, the embedded series is mirrored if and only if over the whole series (all partitions and the transitions between them) fewer transitions run forward than backward, each counted once; all cluster nodes decide alike and the scores are those of the (mirrored) series.",
     ["inputs", "configurations", "schedules"],
     "inputs near the point where the decision changes, local and on 2 to 9 nodes, every interleaving",
     "Tests decide on one input per mode, far from a tie.",
     [T + "segmentation/mod.rs", T + "segmentation/messages.rs", "src/data_store/mod.rs", "src/data_store/point.rs"],
     [("counts travel once around the cluster", T + "segmentation/mod.rs")],
     ["scores compared with the reference model"])

prop("C16", "A malformed input file never passes for a result",
     "If a selected value of the input file is not a number (text, empty, two decimal points, bytes that are not UTF-8), is NaN or infinite (in any row but the last, which the embedding does not use), a row has too few or too many fields, or the column range is empty or does not fit the file, at any row and for any partitioning, the run ends within bounded steps without reporting success and leaves no score file that looks like a result.",
     ["inputs", "fault_sequences", "configurations", "schedules"],
     "each kind of defect at every row (first, last, at partition borders, in rows read by one node or by two), local and cluster runs, every interleaving",
     "No test reads a malformed file; one that is bad in a single row of one partition reaches code no test reaches.",
     ["src/data_manager/data_reader/mod.rs", "src/data_manager/mod.rs"],
     [("values of a row are parsed, errors end the run", "src/data_manager/data_reader/mod.rs")],
     ["exit state of every process", "score files"])

prop("C17", "A command line means the parameters it names",
     "A process or a cluster whose parameters are given as a command line (options in any order, long or short form, options that have their documented default left out) writes exactly the score and contribution files it writes when the same parameters are given in memory.",
     ["configurations", "inputs", "schedules"],
     "every combination of options and their forms, both roles, one process or 2 to 9 nodes, every interleaving",
     "No test parses a command line; a wrong default or a mixed-up option changes numbers, not whether the program runs.",
     ["src/parameters.rs", "src/lib.rs", "src/training/node_estimation/mod.rs"],
     [("options and their defaults", "src/parameters.rs"), ("both roles run the same function", "src/lib.rs")],
     ["score files", "contribution file"])

prop("C18", "A run leaves nothing on disk but the outputs it was told to write",
     "Whatever the schedule and whatever fails (disk errors, crash of a node), a run never changes or removes its input file, files of others, score files it was given no path to, or a contribution file without explainability; a run that ends in success leaves the outputs named in its parameters and no other new or changed file, in the same directory or elsewhere (no temporary files, no score file without a path, no contribution file without explainability).",
     ["schedules", "fault_sequences", "configurations", "inputs"],
     "library calls, file runs and clusters, with and without output paths and explainability, with and without results of earlier runs, every interleaving, disk faults and crashes",
     "Tests look at the file they expect; what else a run touches, in which mode and under which fault, is not observed.",
     [T + "scoring/mod.rs", T + "anomaly_contribution/mod.rs", "src/data_manager/data_reader/mod.rs"],
     [("outputs are written on request only", T + "scoring/mod.rs"), ("the input is opened for reading only", "src/data_manager/data_reader/mod.rs")],
     ["contents of the directory before and after", "files opened for writing"])

EXTRA = os.path.join(V, "tools", "more_properties.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

TECH = {
    "C01": "seeded random schedules and hash keys of one process, outputs compared bit by bit",
    "C02": "seeded random schedules, progress within a step bound",
    "C03": "seeded random schedules, scores compared with a sequential reference model",
    "C04": "seeded random schedules, scores compared between thread counts",
    "C05": "seeded random schedules in all modes, invariants of the scores",
    "C06": "seeded random schedules of all nodes with delays, stalls, healed partitions, fragmentation; progress within a step bound",
    "C07": "seeded random schedules of all nodes with transient faults, score files compared bit by bit",
    "C08": "seeded random schedules of all nodes, scores compared with one process",
    "C09": "crashes and connection resets at random steps of random schedules, exit states and files checked",
    "C10": "write faults and crashes at the file system calls, exit states and files checked",
    "C11": "read faults at the file system calls, exit states and files checked",
    "C12": "random formatting of the input file under random schedules, scores compared with an array",
    "C13": "random sequences and parallel sets of calls in one simulated process, results compared with single calls",
    "C14": "random schedules with explainability, contributions compared with a reference model",
    "C17": "random command lines under random schedules of one process or a cluster, files compared with parameters given in memory",
    "C18": "library calls, file runs and clusters under random schedules, disk faults and crashes; what is on disk compared with what the parameters name",
    "C16": "one malformed row as input fault under random schedules in all modes, exit states and files checked",
    "C15": "random schedules on inputs near the decision, scores compared with a reference model",
}
TECH.update(globals().get("MORE_TECH", {}))
COMMON = ("Seeded search, no enumeration: holds for the runs made (counts in the evidence file). Real code of /repo, actix and "
          "actix-telepathy; simulated: task and thread scheduling, clock, TCP, faults of file system calls, hash keys. ")
NOTES = {
    "C03": "Trusts the reference model (sim/src/model.rs); inputs whose result depends on rounding are left out.",
    "C04": "Inputs whose result depends on rounding (by the noise test of the model) are left out.",
    "C08": "Inputs whose result depends on rounding (by the noise test of the model) are left out; partitions of at least one window.",
    "C14": "Values trust the reference model; the median is taken up to 1/80 like in the code.",
    "C15": "Trusts the reference model; inputs whose result depends on rounding are left out.",
    "C09": "After the reset of a connection between live nodes only safety is judged: actix-telepathy never reconnects.",
}
NOTES.update(globals().get("MORE_NOTES", {}))

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
         checks=[dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
                      technique=DET + TECH[p["id"]], level="exploration", level_note=COMMON + NOTES.get(p["id"], "")) for p in P],
         not_applicable=[],
         notes="No hooks in /repo: the seams are the crates actix-rt, actix and actix-telepathy (patched copies in sim/vendor, chosen by [patch] in sim/Cargo.toml) and libc file calls. Known findings and repaired defects: KNOWN_FINDINGS.txt.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
