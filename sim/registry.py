"""Which worlds decide which property, and how long they search."""
SEARCH = " Seeded search samples histories and faults: a clean batch is evidence, not proof."
PROPS = {
    "C01": {"worlds": {"nodeworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 24,
            "note": "The real node under lost, repeated, late and reordered messages, missing transforms, damaged scans, clock jumps and restarts; every broadcast transform is composed with the odometry and compared with the SLAM pose." + SEARCH,
            "state_measure": "hash of (started, fault, messages, SLAM position in 0.5 m steps)",
            "assumptions": ["planar odometry"]},
    "C02": {"worlds": {"nodeworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 24,
            "note": "Same histories: which scans reach the SLAM algorithm, with which motion, and that the motions compose to the total odometry displacement." + SEARCH,
            "state_measure": "hash of (started, fault, messages, SLAM position in 0.5 m steps)",
            "assumptions": ["planar odometry"]},
    "C03": {"worlds": {"nodeworld": 2, "slamworld": 2}, "time": {"quick": 30, "thorough": 600}, "determinism": 24,
            "note": "Same histories: outputs per scan, topics, frames and freshness; in whole sessions also the content of the outputs." + SEARCH,
            "state_measure": "hash of (started, fault, messages, SLAM position in 0.5 m steps)",
            "assumptions": ["planar odometry"]},
    "C04": {"worlds": {"slamworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 16,
            "note": "The whole system in a simulated room: blind scans, missing transforms, short and long motions; the reported pose is compared with dead reckoning over the odometry between corrections and, after exact odometry, with the true pose." + SEARCH,
            "state_measure": "hash of (SLAM position in 0.2 m steps, matched, number of constraints)",
            "assumptions": ["planar odometry", "the accuracy bound applies to rooms with features and to sessions whose first scan saw the room, before any loop is closed"]},
    "C05": {"worlds": {"nodeworld": 2, "slamworld": 2, "backendworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 24,
            "note": "Same histories with random parameter sets, changed while running and across restarts; in whole sessions the effect of window, loop and key-frame parameters; the real loop search under random distances." + SEARCH,
            "state_measure": "hash of (started, fault, messages, SLAM position in 0.5 m steps)",
            "assumptions": ["planar odometry"]},
    "C06": {"worlds": {"slamworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 16,
            "note": "The whole system in a simulated room: every key frame's distance from the last one, its constraint and the chain of constraints are compared with a model driven by the poses the node reported." + SEARCH,
            "state_measure": "hash of (SLAM position in 0.2 m steps, matched, number of constraints)",
            "assumptions": ["planar odometry", "the first scan saw the room: an empty first key frame cannot be observed"]},
    "C07": {"worlds": {"backendworld": 2, "slamworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 16,
            "note": "The real loop detector and pose graph under histories of motion, searches, optimisations and changing distances; the matcher refuses, lies or runs out of memory; every offered pair and every constraint is compared with a path-length model; whole sessions check the distances of published loops." + SEARCH,
            "state_measure": "hash of (offered pairs, accepted pairs, graph size, start pose) per search",
            "assumptions": ["odometry constraints link consecutive poses, as the node creates them", "at most 50 pairs are offered per search"]},
    "C08": {"worlds": {"backendworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 16,
            "note": "The real back end and g2o: consistent, noisy and grossly wrong loops in random order with repeated optimisation; anchor, finiteness, exact recovery and the origin of every pose's map data are checked after every step." + SEARCH,
            "state_measure": "hash of (constraints, poses, kind of loops) per optimisation",
            "assumptions": ["finite measurements"]},
    "C09": {"worlds": {"ndtgridworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 24,
            "note": "The real mapper under histories of key frames from a simulated lidar, frame moves and recomputations interrupted by allocation failures: every map distribution is matched to a frame at its current pose, every frame distribution to the map unless replaced or seen through, and the map to one built anew." + SEARCH,
            "state_measure": "hash of (number of frames, positions of all map distributions in 0.25 m steps)",
            "assumptions": ["capture times of frames increase", "where several distributions fall into one map cell the latest frame wins"]},
    "C10": {"worlds": {"ndtgridworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 24,
            "note": "Every occupancy grid of the mapper histories is read by the ROS convention and compared with the published map points, and every window message with the window's own extent." + SEARCH,
            "state_measure": "hash of (number of frames, positions of all map distributions in 0.25 m steps)",
            "assumptions": ["map points are single precision: 0.002 cells of slack at cell borders"]},
    "C11": {"worlds": {"ndtgridworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 24,
            "note": "The real window under histories of merges and moves, pose jumps included: pose, extent, every cell state and every distribution are compared before and after each move." + SEARCH,
            "state_measure": "hash of (move in cells, distributions kept, distributions dropped)",
            "assumptions": ["finite poses"]},
    "C12": {"worlds": {"gridworld": 1}, "time": {"quick": 25, "thorough": 600}, "determinism": 24,
            "note": "The real grid against a reference map after every operation, under ASan/UBSan, with allocation failures at any allocation." + SEARCH,
            "assumptions": ["finite locations", "the cell type offers the strong guarantee for its own +="]},
    "C13": {"worlds": {"gridworld": 1}, "time": {"quick": 25, "thorough": 600}, "determinism": 24,
            "note": "Every returned cell is checked against the exact segment geometry, on grids reached by random growth/translation histories." + SEARCH,
            "assumptions": ["finite locations"]},
    "C14": {"worlds": {"cellworld": 1}, "time": {"quick": 25, "thorough": 600}, "determinism": 24,
            "note": "The real cell against exact pooled statistics after every operation, under ASan/UBSan, with allocation failures." + SEARCH,
            "state_measure": "hash of (has distribution, point count, occupancy in 2% steps, waiting points) per cell and step",
            "assumptions": ["finite points", "occupancy is not set directly from outside its range"]},
    "C15": {"worlds": {"matchworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 24,
            "note": "The real matchers on simulated scans; every memory access of a worker thread is a possible switch, the scheduler, the granted team and the split of work are seeded; alignment, score and flag are compared with the sequential run." + SEARCH,
            "state_measure": "hash of the executed schedule (thread switched to, at which access)",
            "assumptions": ["sequentially consistent interleavings", "sums of floating-point numbers may differ by rounding when the work is divided differently: scans whose result already jumps under a guess changed by micrometres are not compared across teams"]},
    "C23": {"worlds": {"matchworld": 1}, "time": {"quick": 25, "thorough": 600}, "determinism": 24,
            "note": "Long histories on one matcher object: other scans, refused alignments, changed and invalid settings, inputs and alignments interrupted by lack of memory; every result must equal that of a new matcher and satisfy the acceptance rules." + SEARCH,
            "state_measure": "hash of (converged, result in 0.05 m steps, matcher)",
            "assumptions": ["an interrupted setting of an input is repeated by the caller", "targets are not empty"]},
    "C24": {"worlds": {"matchworld": 1}, "time": {"quick": 40, "thorough": 600}, "determinism": 6,
            "note": "Scans which are moved, thinned, cluttered and noisy copies of their reference, on matchers with a history of interrupted inputs and reduced teams: the correlative search must return the motion, and large batches over random rooms must mostly be improved (fine matchers) or rightly accepted (robust matcher)." + SEARCH,
            "state_measure": "hash of (motion searched for) and of batch outcomes",
            "assumptions": ["thresholds of the batch checks lie more than five standard deviations from the outcomes of the unchanged code"]},
    "C25": {"worlds": {"ndtgridworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 24,
            "note": "Scans of simulated rooms entered into a real window by every entry the library offers, between moves, with allocations failing during an entry; every cell is compared with the distribution of the measurements in it." + SEARCH,
            "state_measure": "hash of (cells hit, distributions before and after, kind of entry)",
            "assumptions": ["measurements within 1e-4 of a cell border may count for either cell"]},
    "C26": {"worlds": {"slamworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 16,
            "note": "The whole system in a simulated room with blind stretches, refused scans and odometry errors: after every scan the published map is compared with the surfaces all scans saw from the poses reported for them, and the occupancy grid with the map cloud." + SEARCH,
            "state_measure": "hash of (SLAM position in 0.2 m steps, matched, number of constraints)",
            "assumptions": ["planar odometry", "sessions are judged until a loop is closed, which moves key frames on purpose"]},
    "C16": {"worlds": {"slamworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 16,
            "note": "Twin runs of the whole system on the same messages, one with a working disk, one whose debug files cannot be opened, fail part-way, are cut short or meet a full disk; every output must be identical." + SEARCH,
            "state_measure": "hash of the SLAM poses",
            "assumptions": ["debug clouds are written through pcl::io"]},
    "C17": {"worlds": {"slamworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 16,
            "note": "The same messages to three processes which differ in fresh memory, stale stack, heap layout, wall clock, thread schedule and in the files left by an earlier session killed at a seeded step or write; every output must be identical." + SEARCH,
            "state_measure": "hash of the SLAM poses",
            "assumptions": ["the publication time in a header is not output content"]},
    "C18": {"worlds": {"robustworld": 1}, "time": {"quick": 30, "thorough": 600}, "determinism": 24,
            "note": "The real constraints inside the real g2o optimiser; optimisation interrupted, resumed, rolled back and disturbed, with injected wrong loops; exact formulas after every step and recovery of the true poses once disturbances stop." + SEARCH,
            "state_measure": "hash of (switch values in 2-5% steps, chosen components, graph shape)",
            "assumptions": ["switch values set from outside lie in [0,1]", "wrong loops are off by at least 3 m and odometry is unbiased"]},
    "C19": {"worlds": {"robustworld": 1}, "time": {"quick": 25, "thorough": 600}, "determinism": 24,
            "note": "Every constraint type through streams that are cut, fail to read or run out of space at seeded bytes, and whole graph files through g2o." + SEARCH,
            "state_measure": "hash of (constraint type, operation, fault position in 2.5% steps)",
            "assumptions": ["numbers are written with 17 digits", "digits missing from the very last number of a record cannot be noticed"]},
    "C20": {"worlds": {"graphworld": 1}, "time": {"quick": 25, "thorough": 600}, "determinism": 24,
            "note": "The real container against a list model after every operation, under ASan/UBSan, with allocation failures at any allocation." + SEARCH,
            "assumptions": ["graph used from one thread, as the node does"]},
}
HOOK_COMMITS = []
_todo = "no check built yet"
_pure = "pure function of its arguments: no schedule, clock, I/O, fault or history for a simulator to control"
NOT_APPLICABLE = {"C%02d" % i: _todo for i in range(1, 21) if "C%02d" % i not in PROPS}
NOT_APPLICABLE["C21"] = _pure
NOT_APPLICABLE["C22"] = _pure
