TLA = "TLA+/TLC exhaustive small model replayed into the code, plus recorded histories judged by TLC"
JUDGE = "TLA+ model; inputs and outcomes enumerated/judged by TLC against the real code"
NOTES = "All checks: TLA+ specifications in spec/, driven by checks/<id>.py. Known findings: known/findings.txt."


def P(id, title, statement, over, qtext, why, files, mech, technique=TLA, note="", state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                why_tests_cant=why, anchors=a, technique=technique, note=note)


def NA(id, title, statement, over, qtext, why, files, mech, reason):
    d = P(id, title, statement, over, qtext, why, files, mech)
    d["reason"] = reason
    return d


S = "src/spectrocrunch/"
PROPS = [
    P("F01", "Local path operations act on one consistent directory tree",
      "After any sequence of create, write, copy, move, rename, link and remove operations on local paths, the directory tree on disk, the outcome of every operation and the answers of the queries (exists, is a directory, is a file, is a link, link destination, listing, content) are those of the same operations on a plain tree of directories, files and symbolic links. "
      "An operation that is refused (already exists, missing, not a file, not a directory, directory not empty, missing parent, source and destination overlap) leaves the tree untouched. "
      "Only a write, a removal or an explicitly forced copy or move can lose file contents: copying leaves its source as it was, moving relocates the whole subtree, and overwriting a link by force replaces the link and not what it points to.",
      ["histories", "inputs"], "all sequences of path operations, with every combination of force, recursive, follow and rename options, over all directory trees",
      "The tests follow one scripted scenario per back-end; they reach a handful of trees and option combinations and never check that the rest of the tree stayed the same.",
      [S + "io/fs.py", S + "io/localfs.py"],
      [("preparation of copy and move", S + "io/fs.py: Path._copy_move_prepare"), ("local operations", S + "io/localfs.py: Path.mkdir/move/copy/remove/link/linkdest")],
      note="Every edge of the model over a 2-level tree with 2 names (thorough: more nodes and links) is replayed into the real code and the whole tree compared; 3-level random histories are judged step by step by TLC. Trusts the OS calls used to project the tree. Outside the model: link cycles, links to their own ancestors, paths reached through a linked parent in copy/move.",
      observe=["public methods of local paths; directory listing made without the code under test"]),
    P("F02", "HDF5 path operations act on one consistent tree of groups and datasets",
      "After any sequence of create, write, copy, move, rename, link and remove operations on paths inside an HDF5 file, the content of the file, the outcome of every operation and the answers of the queries are those of the same operations on a plain tree of groups, datasets and links. "
      "An operation that is refused leaves the file content untouched, copying leaves its source as it was, and only writes, removals and forced copies or moves lose data. "
      "Links inside a copied or moved tree that point into that tree point to the corresponding place in the copy, and no link outside of it is changed.",
      ["histories", "inputs"], "all sequences of path operations with every combination of options over all HDF5 trees with internal soft links",
      "The tests follow one scripted scenario; they reach a handful of trees, and never compare the whole file or the links that must not change.",
      [S + "io/fs.py", S + "io/h5fs.py"],
      [("preparation of copy and move", S + "io/fs.py: Path._copy_move_prepare"), ("HDF5 operations and relinking", S + "io/h5fs.py: Path.mkdir/move/copy/remove/link/linkdest/_copymove_relink")],
      note="Every edge of the model over a 2-level tree (thorough: more nodes and links) is replayed into real HDF5 files and the whole file compared; 3-level random histories are judged step by step by TLC. Trusts h5py for projecting the file. Outside the model: link cycles, links to their own ancestors, hard links, object references.",
      observe=["public methods of HDF5 paths; file content read with h5py"]),
    P("P01", "Hierarchical task parameters resolve through a consistent forest",
      "Parameters of connected tasks form a forest. After any sequence of setting, deleting, inserting (before or after a node), re-parenting and restoring, every node has the answers of one simple model: a parameter has the value of the node itself or of the nearest ancestor that defines it; assigning a value that is already inherited stores nothing new; a parameter deleted or re-parented is gone from or added to exactly the nodes that should be affected; parent and child relations stay mutually consistent without cycles or duplicates; and the changed flag tells whether anything the node resolves to has changed since the flag was reset.",
      ["histories", "inputs"], "all sequences of parameter and structure operations on all forests of parameter nodes, including nested mapping parameters",
      "Tests build one fixed hierarchy and check a few lookups; the number of tree shapes times operation orders is unbounded.",
      [S + "pipelines/parameters.py"],
      [("parameter nodes", S + "pipelines/parameters.py: Node")],
      note="Structure: every edge of a forest model with VP_MAX nodes replayed; data: every edge of a chain/fork model to a bounded depth; random longer histories judged by TLC.",
      observe=["public mapping interface and relations of parameter nodes"]),
    P("T01", "Task output appears atomically or not at all",
      "While a task runs nothing is visible under its output name, neither in the output file nor in the output directory. "
      "When its execution succeeds the complete output (configuration, results, default plot, files written to its local directory) is there under that name; when it fails at any point, by an exception or by a termination signal, no output and no temporary group or directory is left, existing outputs are untouched, exceptions are logged and do not escape, and a signal is passed on to the program. "
      "A process killed at any point leaves no output under the task's name, so that running the task again completes it.",
      ["histories", "schedules", "crash_points"], "all histories of task runs by one or more processes with a failure, signal or kill at any step of any execution, including tasks that run other tasks",
      "Tests only run tasks that succeed; a failure can come at every step of an execution and in combination with other tasks.",
      [S + "process/basetask.py", S + "process/nxprocess.py", S + "utils/signalhandling.py", S + "process/nxutils.py"],
      [("temporary output and rename", S + "process/nxprocess.py: Task._atomic_context_enter/_atomic_context_exit"), ("run", S + "process/basetask.py: Task.run")],
      note="Every edge of the single-process model toured with real processes and HDF5 files; random two-process histories with kills judged by TLC. Processes stop between, not inside, HDF5 calls."),
    P("T02", "A task is executed once and never overwrites another output",
      "The output of a task is identified by its name pattern, parameters and dependencies. Running a task whose output exists in the same entry does nothing, whichever task object or process runs it, also when two runs of the same task overlap; its output is found again under the name it has. "
      "A task with other parameters or dependencies gets a new name, made by incrementing the number in its own name until it is free, and no existing output is ever changed.",
      ["histories", "schedules"], "all histories and interleavings of runs of tasks with equal and different names, parameters, dependencies and places by one or more processes",
      "Tests run a task and then the same task again, one after the other; overlapping runs and name clashes between families of tasks are not exercised.",
      [S + "process/nxprocess.py", S + "process/basetask.py", S + "io/nxfs.py", S + "io/target.py"],
      [("output naming", S + "process/nxprocess.py: Task.outputname"), ("rename to output", S + "process/nxprocess.py: Task._rename_temp_output"), ("identity", S + "io/nxfs.py: Path.find_nxprocess")],
      note="Same model and driver as T01; tours over name families and equal tasks."),
    P("T03", "Tasks run only after everything they depend on is done",
      "A task is executed only when all its dependencies (tasks or stored outputs) exist; otherwise running it changes nothing. "
      "Running a list of tasks in sequence executes each not yet existing one in order, stops at the first that is not done afterwards, and reports success exactly when all are done.",
      ["histories"], "all dependency graphs over the task catalogue, all orders of running them, all failures",
      "Tests run pipelines in the right order without failures.",
      [S + "process/basetask.py", S + "pipelines/run.py"],
      [("gating", S + "process/basetask.py: Task.run/dependencies_done"), ("sequence", S + "pipelines/run.py: run_sequential")],
      note="Same model and driver as T01; tours over chains and places, sequences with a failure at any position."),
    P("T04", "Blocks guarded against termination tear down exactly once",
      "However a guarded block ends (normally, by an exception, by a termination signal, or because its set-up or tear-down fails) its tear-down runs exactly once, with the exception information of what ended it, and the signal handlers of before are back afterwards, also for nested blocks. "
      "A signal tears down the innermost active block and is then handed to the handler that was there before, unless resending is off; an exception is swallowed only when the tear-down asks for that.",
      ["histories", "schedules"], "all nestings of guarded blocks with every kind of tear-down, and all sequences of signals, exceptions and exits",
      "Tests use one block and one event; nesting and sequences of events multiply.",
      [S + "utils/signalhandling.py"], [("guard", S + "utils/signalhandling.py: HandleTermination")],
      note="Every edge of the model up to 3 nested blocks (thorough 4) and random walks replayed with real signals. Second signals during a tear-down and uncallable original handlers (SIG_DFL) are outside."),
    P("N01", "NXdata signals and axes stay consistent with each other",
      "After any sequence of adding, linking, removing, sorting and choosing signals and setting axes, the default signal and the auxiliary signals of an NXdata group list every existing signal once and nothing else, all signals have one shape and the axes fit that shape. "
      "A refused call (wrong shape, existing name, unknown axis) changes none of it, other groups keep their signals and axes, and what the reader functions report (signal, signals, shape, axes) is what is stored.",
      ["histories"], "all histories of signal and axis calls on NXdata groups that share positioners",
      "Tests do one fixed sequence of calls on one group; the bookkeeping of default/auxiliary signals depends on the history.",
      [S + "io/nxfs.py"],
      [("signals", S + "io/nxfs.py: _NXdata.add_signal/remove_signal/default_signal/sort_signals"), ("axes", S + "io/nxfs.py: _NXdata.set_axes, _Positioners")],
      note="Tours over every edge of the model of one group and random histories over two groups sharing positioners, judged by TLC."),
    P("N02", "A stored process is found by what it was made from",
      "An NXprocess is identified by its parameters and, recursively, by what its dependencies were made from, whatever the order of keys and the name of the process; asking for a process returns one with that identity whose name fits the pattern, in the entries searched, and only creates one when there is none. "
      "New processes and entries get the first free name in the numbering of the name given (or of the last entry), never an existing one, keep parameters, dependencies (in order) and sequence index as given, and no call changes another process. "
      "The stored checksum is equal exactly for equal identities and is reported invalid once a dependency is not what it was.",
      ["histories", "inputs"], "all histories of creating, finding, renaming and removing processes and entries with nested parameter values",
      "Tests create a handful of processes in one order; identity depends on the history of dependencies and on the parameter values.",
      [S + "io/nxfs.py", S + "io/target.py", S + "utils/hashing.py", S + "patch/jsonpickle.py"],
      [("identity", S + "io/nxfs.py: Path.nxprocess/find_nxprocess, _NXprocess.checksum"), ("dependencies", S + "io/nxfs.py: Path.add_dependency"), ("numbering", S + "io/target.py: Name, match; nxfs.Path.next_nxentry_name")],
      note="Model checked for all histories with up to 2 nodes; random histories of real files (names with several spellings, 10 parameter values) judged by TLC. Which of several equal processes is returned is left open; dependencies exist when a process is created."),
    P("N03", "What is marked as default plot is what is found as default plot",
      "After marking a data group or a signal as default, the default chain of the file leads to that data group, with that signal as its default signal, whatever was marked before; marking an entry makes the default of that entry the default of the file. "
      "Selecting the default of task results by signal name marks a data group that has this signal (by no name: the first one that has a signal). No marking loses a signal or changes a default stored in another entry.",
      ["histories"], "all histories of building, marking, selecting and removing in files with nested entries, processes, collections and data groups",
      "Tests mark one signal in a fixed file.",
      [S + "io/nxfs.py", S + "process/nxutils.py"],
      [("marking", S + "io/nxfs.py: Path.mark_default/default"), ("selection of results", S + "process/nxutils.py: set_default"), ("default signal", S + "io/nxfs.py: _NXdata.default_signal")],
      note="Model checked on a nested skeleton; random histories of real files judged by TLC."),
    P("F03", "Default open modes limit what opening a path may do",
      "The default mode of a local path or HDF5 file is a limit: whatever mode is asked for when opening it (directly, or through reading, writing and creating nodes), the file is opened in the mode asked for if the default allows that, else in the default mode, so that a path with default mode r never changes anything, r+ never creates or empties a file, x never touches an existing file and a never loses content. "
      "What is read and written through an opened path, including nested openings of the same path, gives the outcome and the content of a plain file opened in that mode. "
      "Closing leaves no handle behind, also after an error.",
      ["histories", "inputs"], "all combinations of default and requested modes, states of the file, and nested openings with reads and writes",
      "Tests open a few files in a few modes; the limit must hold for every combination of default mode, requested mode and file state.",
      [S + "io/localfs.py", S + "io/h5fs.py", S + "io/fs.py"],
      [("modes of local files", S + "io/localfs.py: Path.openparams_defaultmode, _open"), ("modes of HDF5 files", S + "io/h5fs.py: h5FileHandle/h5Device"), ("nested opening", S + "io/fs.py: Path.open/_openparams")],
      note="Every combination of default mode, requested mode, file state and two nested actions is enumerated by TLC and run on real files. Outside the model: listing or creating groups of a HDF5 file whose default mode is w (the mode that empties the file)."),
    P("F04", "Names of paths, free names and temporary paths are consistent",
      "Joining, parents, relative names, common parts and names of local and HDF5 paths are those of plain sequences of names, whatever the spelling (empty parts, dots, double dots), and a relative name leads back to the path it was made for. "
      "A free name is one that nothing (also no broken link) has, the first one in the numbering of the name asked for; the stored statistics of a path are what was stored last, from the path itself or any path below it. "
      "A temporary path does not exist when the context is entered, is renamed to its final name or removed when it ends (with or without an exception), and replaces something existing only when forced.",
      ["inputs", "histories"], "all paths and references with up to 4 parts, all sets of taken names, all endings of temporary contexts",
      "Tests check a few spelled-out names; free names and temporary paths depend on what exists.",
      [S + "io/fs.py", S + "io/localfs.py", S + "io/h5fs.py"],
      [("names", S + "io/fs.py: Path.relpath/common/parent/root/sep_in"), ("free names", S + "io/fs.py: Path.nonexisting_name/renew"), ("temporary paths", S + "io/fs.py: Path.temp"), ("statistics", S + "io/fs.py: stats/update_stats/get_stat")],
      note="References enumerated by TLC, and random ones, judged by TLC. Outside the model: names starting with two separators, HDF5 file names containing two colons."),
    P("G01", "A stack of arrays acts as one array",
      "A list of arrays (in memory, or signals in a file) stacked along any dimension reads as one array: any index (positions, slices, lists, booleans, Ellipsis, new dimensions) gives the elements in the shape that the same index gives on the stacked array, and an index that is out of range is refused. "
      "Assigning and in-place arithmetic through an index changes exactly the elements the index addresses, in all the arrays it touches, and nothing else. "
      "Shape, size, length, iteration and slice information of a grid are those of that one array.",
      ["inputs", "histories"], "all indices on stacks of 1 to 4 dimensions, and all histories of assignments and arithmetic on grids of signals",
      "Tests use random indices on a few shapes and only for reading; assignment is tested for a few indices.",
      [S + "utils/indexing.py", S + "process/regulargrid.py", S + "process/h5regulargrid.py"],
      [("stacked indexing", S + "utils/indexing.py: getitem/setitem/decompose_listindexing/move_axis"), ("grids", S + "process/regulargrid.py: RegularGrid, process/h5regulargrid.py: NXRegularGrid")],
      note="Indices enumerated per dimension on shapes of 2 to 4 dimensions, grids in HDF5 files under random histories, judged by TLC. Outside the model: repeated shorter lists, lists along dimensions of the signals in HDF5 files combined with single positions, 1-D stacks of scalars."),
    P("G02", "Tasks on grids transform the results of a process as specified",
      "Tasks which crop, replace values, evaluate an expression or take minus the logarithm turn the results of a process into new results in which every signal that is not skipped has the values the parameters describe on the values of the input, every copied or skipped signal is as specified, and the axes are those of the input (cropped: the part that has data). "
      "This is so whether the signals are processed at once or slice by slice, along any stack dimension, and for tasks that work on the results of tasks. "
      "The input results do not change.",
      ["histories", "inputs"], "all chains of crop, replace, expression, copy and minlog tasks with their parameters on all grids of signals",
      "Tests run each task once on one grid with fixed parameters.",
      [S + "process/nxregulargrid.py", S + "process/h5regulargrid.py", S + "process/axis.py"],
      [("selection of signals", S + "process/nxregulargrid.py: Task._process_grid/skip/reference"), ("crop", S + "process/nxcrop.py"), ("replace", S + "process/nxreplace.py"), ("expressions", S + "process/nxexpression.py"), ("minlog", S + "process/nxminlog.py")],
      note="Random grids (several groups, types, stack dimensions) and chains of tasks on real files, judged by TLC with exact fractions. The order of the signals within a group is left open."),
    P("A01", "Stacks are aligned on one reference, alike, and in one frame",
      "Aligning stacks of images on one of them, on a fixed image (also counted from the end, or given as first, middle, last or fraction in the task) or image by image, gives one shift per image that brings its feature (maximum, minimum, centroid), looked for in the region or the calculated data asked for, to the place of that of the reference, and shifts that image in all stacks by it: each pixel of an aligned image is the raw pixel the shift says, or missing when there is none. "
      "With padding (which has priority) no raw pixel is lost; with cropping all pixels are there and no line all images have is lost; otherwise images keep their size; image axes are cut or continued with the frame and all stacks get the same. "
      "Aligning again does not depend on what was aligned before, doing it again without calculating gives the same images, and results there are kept unless they may be overwritten.",
      ["histories", "inputs"], "all stacks, features, references, regions and histories of calls on one object",
      "Tests align two kinds of synthetic stacks and compare the shifts with tolerance, not the images, the frame or the axes.",
      [S + "align/align.py", S + "align/alignDest.py", S + "align/alignSimple.py", S + "align/transform.py", S + "process/nxalign.py"],
      [("shifts and frame", S + "align/align.py: align.align, parsetransformation_beforeapplication, transform_axes"), ("images", S + "align/transform.py: LinearMapping.transformimage"), ("destinations", S + "align/alignDest.py"), ("task", S + "process/nxalign.py")],
      note="Shifts by whole pixels (half pixels when images are centred). FFT alignment without sub-pixel sampling; SIFT, Elastix, other transformations and transformations applied beforehand are left out."),
    P("G03", "Resampled results are what was measured where it was measured",
      "Each axis with a measured encoder (asked for under the name the scan gives it) becomes an axis continued with its outer steps so that all measured positions are included, or with cropping only those common to all lines, with the offset given or else the one that centres the measured range on the axis; other axes stay, and an axis of which nothing is left stays as it is. "
      "Each number is then what linear (or nearest) interpolation between the measured positions of that line or plane gives, the missing value outside of them; all signals but skipped ones are there, the encoder itself reads as the encoder axis, and nothing else changes.",
      ["inputs", "histories"], "all results, encoders, resolutions, offsets and options",
      "Tests resample one stack with ideal encoders and fitted offsets, comparing axes and encoder signals only.",
      [S + "process/nxresample.py", S + "math/interpolate.py", S + "process/axis.py"],
      [("limits and offset", S + "process/nxresample.py: Task._encoder"), ("names of axes", S + "process/nxresample.py: scan_axis_name"), ("interpolation", S + "math/interpolate.py: interpolate_irregular")],
      note="At least two positions per dimension, different positions within a line, no missing raw data; two encoders on regular sheared positions with linear data (planes are not unique otherwise)."),
    P("H01", "Equal data has equal hashes, different data has different ones",
      "Two pieces of data (numbers, texts, nothing, sequences, sets, mappings and quantities, nested in any way) have the same hash exactly when they have the same content: the order of keys in a mapping and of elements in a set, the kind of sequence, the type of a number and whether a text is unicode or bytes do not matter, every element, key, order in a sequence, unit and level of nesting does. "
      "Hashing again, in another process, or after storing and reading back the data gives the same hash, and the hash of several hashes depends on each of them and their order.",
      ["inputs"], "all pairs of nested data (up to three levels), in all spellings of the same content",
      "The tests compare hashes of a few values with fixed numbers and random data with itself; they never compare two nearly equal nested values.",
      [S + "utils/hashing.py", S + "utils/instance.py", S + "patch/jsonpickle.py"],
      [("hash", "utils/hashing.py:calchash"), ("hash of hashes", "utils/hashing.py:mergehash")], technique=JUDGE),
    P("X01", "An axis is its values, in whatever form and unit it is kept",
      "The values of an axis are exactly those its form says (a list, limits and number of steps, a step, segments, a number; pixels of step and continuous scans), its start, end, size and steps are those of its values, and simplifying, copying or converting it gives the same values and leaves it as it is. "
      "Changing what a form is given by or a single value changes just that (or is refused), new limits give the axis continued with its outer steps, or cut, so that they are just included (nothing when they are a step or more away). "
      "Locating gives the nearest value, and axes are equal when their values differ no more than the precision, whatever the units.",
      ["histories", "inputs"], "all axes, units and histories of changes and conversions",
      "Tests build each form once and use one regular axis in one unit for new limits.",
      [S + "process/axis.py", S + "utils/units.py"],
      [("forms", S + "process/axis.py: AxisRegular, AxisRegularInc, AxisSegments, AxisNumber"), ("new limits", S + "process/axis.py: newstart, newend, newlimits"), ("simplifying", S + "process/axis.py: simplify, factory")],
      note="Quantitative axes with exact fractions; new limits where rounding decides on the number of values are left out."),
    P("I01", "An XIA data set reads as one corrected array",
      "The files of XIA maps (spectra per line and detector, statistics per line, counters per map), seen as a line, an image or a stack, read as one array with the dimensions of the data set: any index, in any selection of data, statistics and counters, gives what that index gives on the whole array after dead-time correction, selection or summing of detectors and normalization as configured, whatever was configured or read (or failed) before. "
      "Maps and lines of which files are missing do not count, files of other data sets in the same place do not either, and grouping orders files by radix, map, line and label. "
      "What is saved at another place reads there as it reads here, and existing files are kept unless overwriting is asked for.",
      ["histories", "inputs"], "all data sets, all histories of configuring, reading with any index and saving",
      "Tests use three data sets with matching detectors and compare a sample of indices, always after setting the whole configuration.",
      [S + "io/xiaedf.py"],
      [("reading and corrections", S + "io/xiaedf.py: xiadata.__getitem__, xiacompound, xialine, xiaimage, xiastack"), ("selection of detectors", S + "io/xiaedf.py: xiadetectorselect_*"), ("grouping", S + "io/xiaedf.py: xiagroup*, xiasearch"), ("saving", S + "io/xiaedf.py: save")],
      note="The model is checked over all indices (up to 3 items) and configurations of a small data set; random data sets, configurations, indices and copies of real files are judged by TLC with exact fractions. With summing the detector index is a slice; no new dimensions in the index; normalization is per image."),
]
NOT_APPLICABLE = []
