# executed by meta.py

PBT = "property-based testing (proptest) "

prop("C01", "Resampling conserves every weight sum and touches nothing else",
     "For every event sample, distance function, seed strategy, neighbour search, cell size limit and number of threads, "
     "the sum over all events of each individual weight (central and auxiliary) is the same before and after resampling up to rounding. "
     "The same events come out, each exactly once, with their ids and momenta unchanged.",
     ["inputs", "configurations", "schedules"],
     "all event samples with any number of weights per event, all metrics, strategies, size limits, search algorithms and thread counts",
     "The existing tests resample one small sample with one configuration and look at the central weight only.",
     ["src/resampler.rs", "src/cell.rs", "src/event.rs"],
     [("Cell::resample", "src/cell.rs"), ("Resampler::resample / DefaultResampler::resample", "src/resampler.rs"), ("Weights arithmetic", "src/event.rs")],
     ["weights, ids and momenta of the events returned by Resample::resample"],
     check=chk(PBT + "of a conservation law over random samples, metrics and configurations, in both feature builds",
               "Random exploration; sums compared with a tolerance of 1e-10 of the sum of absolute values.", builds=("multi", "single")))

prop("C02", "Cells take the nearest events until their weight is not negative",
     "Every cell starts from an event whose weight is negative when it is treated, takes in other events in order of increasing distance from that seed, "
     "and ends as soon as the accumulated weight is non-negative, the size limit is reached or no event is left; each of its events then gets the mean over the cell for every weight, and other events are not changed. "
     "With a single thread the seeds are treated in the chosen order, those that have become non-negative are skipped, and without a size limit no negative weight is left if the total weight is positive.",
     ["inputs", "configurations"],
     "all event samples, metrics, seed strategies, size limits and search algorithms",
     "Tests sample one configuration; ties, exhausted neighbours, limits and seeds that lost their negative weight are not reached.",
     ["src/cell.rs", "src/resampler.rs", "src/seeds.rs", "src/neighbour_search.rs", "src/vptree.rs"],
     [("Cell::new, Cell::resample", "src/cell.rs"), ("max_cell_size", "src/resampler.rs")],
     ["cells reported to the observer", "final weights"],
     check=chk(PBT + "against a cell-by-cell validity predicate computed from the definition",
               "Random exploration with up to 1300 events; all valid tie-breakings are accepted by a backtracking oracle.", builds=("multi", "single")))

prop("C03", "Neighbour searches return all neighbours, nearest first",
     "For any point set and metric, each nearest-neighbour search yields the points other than the query point in order of non-decreasing distance together with their actual distances, never one twice, "
     "and completely up to the requested maximum distance. "
     "The tree search, however it is built, and the naive search agree up to the order of equidistant points.",
     ["inputs", "configurations"],
     "all finite point sets including repeated points, equal and infinite distances; all metrics; all query points and limits",
     "Tests compare with a fixed small set and a single metric without ties.",
     ["src/vptree.rs", "src/neighbour_search.rs"],
     [("VPTree::from_iter_with_dist / par_from_iter_with_dist, NearestNeighbourIter", "src/vptree.rs"), ("NaiveNeighbourSearch", "src/neighbour_search.rs")],
     ["iterators returned by nearest_in"],
     check=chk(PBT + "against exhaustive search", "Random exploration with up to 2500 points."))

prop("C04", "The event distance is the minimum over pairings and a metric",
     "The distance between two events is the sum over particle types of the minimum over all pairings of the summed momentum distances, where missing particles count as zero momentum and the difference in transverse momentum enters with the chosen weight. "
     "It is symmetric, zero for identical events, obeys the triangle inequality, and does not depend on the order of particles, their energies, or event weights and ids.",
     ["inputs"],
     "all pairs and triples of events with any numbers and types of particles and any non-negative transverse momentum weight",
     "Tests use a few fixed events; the minimisation switches algorithm with the number of particles and is never compared to an exact optimum.",
     ["src/distance.rs", "src/four_vector.rs", "src/event.rs"],
     [("EuclWithScaledPt::distance, set_distance, min_paired_distance", "src/distance.rs")],
     ["Distance::distance"],
     check=chk(PBT + "against an exact assignment by dynamic programming, plus metamorphic relations",
               "Random exploration, at most 11 particles per event; relative tolerance 1e-11."))

prop("C05", "Concurrent resampling is serialisable and terminates",
     "When cells are treated by several threads at the same time, the outcome equals treating complete cells one after the other in some order: no update of a weight is lost, mixed or applied twice, and disjoint cells do not influence each other. "
     "Resampling always terminates, however the threads are scheduled and however much the cells overlap.",
     ["schedules", "inputs"],
     "all thread counts, interleavings and overlap patterns of cells",
     "The tests do not control or vary the schedule; a race or a lock order inversion shows up only under specific interleavings.",
     ["src/cell.rs", "src/resampler.rs", "src/event.rs"],
     [("ordered locking of the members of a cell", "src/cell.rs (Cell::resample)")],
     ["final weights and observed cells after parallel resampling"],
     check=chk(PBT + "of schedules: thread stress with generated overlapping cells and a serialisability oracle; deadlock detection by thread state",
               "Schedules are sampled by stress (hundreds of repetitions with contention), not enumerated. A deadlock is reported only if every unfinished thread sleeps without using CPU time.",
               builds=("multi", "single"), repeat=200))

prop("C06", "Seeds are exactly the negative-weight events in the chosen order",
     "Selecting cell seeds yields every event with negative central weight exactly once and no other event, whatever the strategy and number of threads. "
     "The order is by position, from the most negative weight, or from the least negative weight, as chosen, and the selection does not modify any event.",
     ["inputs", "configurations"],
     "all weight lists including zeros of both signs, ties and several weights per event; all strategies",
     "No test covers the strategies beyond a single example.",
     ["src/seeds.rs"],
     [("StrategicSelector::select_seeds", "src/seeds.rs")],
     ["parallel iterator of seeds"],
     check=chk(PBT + "against the set of negative weights and the order predicate", "Random exploration with up to 3000 events."))

prop("C07", "Unweighting keeps the sum of weights and never discards large weights",
     "Unweighting with a positive threshold keeps every event with absolute weight at or above the threshold, discards events with zero weight, and keeps each other event with probability |weight|/threshold after raising its absolute weight to the threshold; "
     "afterwards the weights of all kept events are multiplied by one common factor such that the sum of weights is exactly what it was. "
     "All weights of an event are scaled alike, momenta and ids stay, and a zero threshold changes nothing.",
     ["inputs", "configurations"],
     "all samples, thresholds and random seeds for which the kept weights do not cancel",
     "Tests do not cover unweighting at all.",
     ["src/unweight.rs"],
     [("Unweighter::unweight, rescale", "src/unweight.rs")],
     ["events returned by Unweight::unweight"],
     check=chk(PBT + "against the algebraic definition plus a statistical oracle (7 sigma)",
               "Random exploration. Frequencies are judged at 7 standard deviations with a fixed seed.", builds=("multi", "single")))

prop("C08", "Clustering builds jets, dressed leptons and isolated photons as defined",
     "For every event and every jet, lepton and photon definition, clustering replaces partons and hadrons by the jets above the transverse momentum threshold given by the chosen sequential recombination algorithm, "
     "isolated photons and (if requested) charged leptons dressed with photons by the corresponding objects, and keeps all other identified particles as they are, dropping neutrinos unless they are to be kept. "
     "Event weights and ids are unaffected, and without clustering events are not changed.",
     ["inputs", "configurations"],
     "all particle lists and all clustering definitions, except where a decision is within rounding of a threshold",
     "Tests do not exercise clustering with leptons, photons or thresholds.",
     ["src/cluster.rs"],
     [("DefaultClustering::cluster, is_isolated, is_parton/is_hadron", "src/cluster.rs")],
     ["outgoing particles of the clustered event"],
     check=chk(PBT + "against an independent implementation of sequential recombination, isolation and dressing",
               "Random exploration; events with up to 22 objects compared exactly, up to 120 by momentum conservation."))

prop("C09", "Events hold exactly the particles and weights they were built from",
     "An event built from a list of particles and weights reports precisely those: particles grouped by type, none lost, duplicated or moved to another type, each with its momentum and transverse momentum, and all weights in the order they were added. "
     "Rescaling energies or weights multiplies all momenta or all weights; equality and ordering depend on id and particles but not on weights or particle order; and events survive serialisation unchanged.",
     ["inputs"],
     "all particle lists with arbitrary (also unknown or repeated) ids and all weight lists",
     "Tests build a handful of events with well-behaved ids.",
     ["src/event.rs", "src/four_vector.rs"],
     [("EventBuilder::build, extract_common_ids", "src/event.rs"), ("FourVector arithmetic", "src/four_vector.rs")],
     ["Event accessors"],
     check=chk(PBT + "against a plain-list model", "Random exploration.", builds=("multi", "single")))

prop("C10", "Event records are converted to exactly the physics they contain",
     "Reading an event record in HepMC, Les Houches or STRIPPER XML format gives exactly the outgoing final-state particles with their types and momenta, converted to GeV, and the event weights the record contains, in order and with the normalisation of the file applied. "
     "Named weights are matched by name, additional requested weights are found wherever they are listed, and all other content of the record (comments, random states, intermediate particles, optional lines) has no influence.",
     ["inputs", "configurations"],
     "all well-formed records of the three formats: any particles, statuses, units, weights, number formats and optional content",
     "Tests read a few files produced by one generator each.",
     ["src/hepmc2.rs", "src/lhef.rs", "src/stripper_xml.rs", "src/io.rs", "src/parsing.rs"],
     [("HepMCConverter", "src/hepmc2.rs"), ("LHEFParser", "src/lhef.rs"), ("stripper_xml converter", "src/stripper_xml.rs")],
     ["Event returned by Converter::convert"],
     check=chk(PBT + "with a generator of records in all formats against the generated particles and weights, plus metamorphic decoration", "Random exploration of well-formed records.", builds=("multi", "single")))

prop("C11", "Readers deliver every record exactly once, whatever the container",
     "Reading event files yields every event record byte for byte, in order, none lost or repeated, for any record sizes, headers and footers, whether or not the files are compressed with any of the supported programs (also as several concatenated compressed parts), and whatever their number or names. "
     "Format and compression are recognised from the content, rewinding starts again from the first event, and announced numbers of remaining events are right.",
     ["inputs", "histories"],
     "all well-formed event files and sequences of files of the supported formats and compressions",
     "Tests read a few fixed files.",
     ["src/io.rs", "src/hepmc2.rs", "src/lhef.rs", "src/stripper_xml.rs", "src/compression.rs", "src/util.rs"],
     [("auto_decompress", "src/compression.rs"), ("FileReader, CombinedFileIO", "src/io.rs")],
     ["records returned by iteration, size_hint"],
     check=chk(PBT + "with generated files in all formats, compressions and containers against the generated list of records", "Random exploration; records up to a few hundred kB.", builds=("multi", "single")))

prop("C12", "Output files differ from the input only in the event weights",
     "For every well-formed event file and every list of new weights, the output file consists of the same header, events in the same order and footer with the same content except that the event weights have the new values to full double precision, "
     "and named weights are written in the position of their name. "
     "Reading the output back gives the new weights and the old particles, and compressed output decompresses to the same bytes as uncompressed output.",
     ["inputs", "configurations"],
     "all well-formed event files, weight values, formats and compression settings",
     "Tests check a few fixed files and do not compare the remaining content.",
     ["src/io.rs", "src/hepmc2.rs", "src/lhef.rs", "src/stripper_xml.rs", "src/compression.rs"],
     [("UpdateWeights for FileIO", "src/io.rs"), ("update_weights of each format", "src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs")],
     ["output files"],
     check=chk(PBT + "with generated files and new weights: expected output bytes, token comparison, round trip", "Random exploration.", builds=("multi", "single")))

prop("C13", "File I/O follows its protocol for every sequence of operations",
     "For any sequence of reads and rewinds on one or several event files, followed by weight updates (all at once or, after rewinding, one by one), the n-th read after a rewind returns the n-th event of the concatenated input, the n-th weight update applies to the n-th event and the output goes to the file matching its input file. "
     "Updating weights one by one gives the same files as updating all at once, and updates beyond the last event report that there is none.",
     ["histories"],
     "all finite sequences of operations on all lists of event files (including empty ones)",
     "Tests use the one fixed sequence: read everything, rewind, update everything.",
     ["src/io.rs"],
     [("CombinedFileIO, FileIO", "src/io.rs")],
     ["return values and output files"],
     check=chk(PBT + "stateful: random operation sequences against a model of the concatenated files", "Random exploration of histories of up to a few dozen operations.", builds=("multi", "single")))

prop("C14", "A complete run preserves total weights and all other event content",
     "Running the program on any event files with any valid options produces for each input file an output file that has the same events in the same order and differs only in the weights, with the same total of each weight over all files up to rounding (after unweighting, of the central weight, unless the remaining weights cancel). "
     "Events without identified particles keep their weights, discarded events get zero weight, and nothing else is lost or added.",
     ["inputs", "configurations"],
     "all well-formed event files in any format and compression and all valid combinations of command line options",
     "There is no test of the program.",
     ["src/bin/main.rs", "src/cres.rs", "src/io.rs", "src/resampler.rs", "src/unweight.rs", "src/cluster.rs"],
     [("Cres::run", "src/cres.rs"), ("main", "src/bin/main.rs")],
     ["output files of the program"],
     check=chk(PBT + "of complete program runs on generated files and options against conservation laws and an independent clustering", "Random exploration of program runs.", builds=("multi", "single"), bins=True))

prop("C15", "A run reads, clusters, resamples, unweights and writes each event correctly",
     "Whatever reader, clustering, resampler and unweighting are plugged in, a run treats every readable event once: it is converted, clustered, passed with the id of its position to the resampler if it contains identified particles, then to the unweighting, and its final weights are written back to the record it came from, independent of the order in which events come out. "
     "Discarded events get zero weights, errors of any stage end the run with that error, and the number of events and weights handed to the writer match the input.",
     ["inputs", "histories", "fault_sequences"],
     "all event lists and all behaviours of the components allowed by their interfaces, including errors at any position",
     "Tests only run the default components without faults.",
     ["src/cres.rs", "src/traits.rs"],
     [("Cres::run", "src/cres.rs")],
     ["calls to the components and result of the run"],
     check=chk(PBT + "of runs with recording, scripted and failing components against a model of the run, and of the library pipeline on generated files",
               "Random exploration; components are scripted stand-ins and the real ones.", builds=("multi", "single")))

prop("C16", "Malformed input is reported, never ignored or answered with a crash",
     "Whatever bytes are given as event or normalisation file, reading them never panics, never delivers weights or momenta that are not finite numbers, and either reports an error or accounts for all events in the file. "
     "An event record that is cut in the middle, has bad or missing numbers, words, counts, tags, units or lines, or is not text, a defective STRIPPER XML header or normalisation, and incomplete gzip, bzip2, zstd or lz4 data are errors, after the events before the defect have been read intact; "
     "the programs then end with error status 1 and a message. (Not covered, because it cannot be recognised: files cut between HepMC lines or after the end of an event, and content that looks like HepMC without events.)",
     ["inputs", "fault_sequences"],
     "all byte strings and in particular all truncations, deletions, replacements and token mutations of well-formed files, compressed or not",
     "Tests only use well-formed files.",
     ["src/io.rs", "src/hepmc2.rs", "src/lhef.rs", "src/stripper_xml.rs", "src/parsing.rs", "src/compression.rs"],
     [("error types of the readers", "src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs, src/io.rs")],
     ["results of the readers, exit status"],
     check=chk(PBT + "fault injection: recognisable defects in generated files with an exact expectation, and random byte/token mutation with invariants; in the library and the three programs",
               "Random exploration of single defects and of multiple mutations.", builds=("multi", "single"), bins=True))

prop("C17", "Failure to write the output is reported and inputs are never overwritten",
     "If an output file cannot be created or written completely, for whatever reason and at whatever point, the program exits with an error status; success means that all output files are complete. "
     "Input files (event, normalisation and partition files, also when named through symbolic links or different spellings of their path) are never modified, and no output file is written over an input or another output file of the same run.",
     ["fault_sequences", "configurations"],
     "all write faults at any position in the output, for all formats and compressions, and all choices of input and output paths",
     "Tests never let a write fail.",
     ["src/io.rs", "src/compression.rs", "src/bin/main.rs", "src/bin/classify-events.rs", "src/bin/partition.rs"],
     [("CompressedWriter::finish", "src/compression.rs"), ("check_outfiles", "src/io.rs")],
     ["exit status and files"],
     check=chk("fault injection driven by "+PBT+": file size limits at generated and at all positions, failing writers, full devices, unusable targets, conflicting paths",
               "Exhaustive over the failing byte for small outputs, random otherwise; the file system faults that can be produced without privileges.", builds=("multi", "single"), bins=True, level="fault_enumeration"))

prop("C18", "Partitions assign every event to exactly one region, stably and evenly",
     "A partition into a power of two of regions is a function from events to regions that depends on the particles only, is unaffected by saving and loading, and is consistent with the distances to its vantage points: the same event always lands in the same region. "
     "The negative-weight events used to make it, clustered and with distances as requested, are bisected evenly (up to the vantage points and events exactly on a boundary), whatever the number of threads, and requests with too few events are rejected with an error.",
     ["inputs", "configurations"],
     "all event samples, distances and numbers of regions",
     "Tests do not cover partitions beyond an example.",
     ["src/partition.rs", "src/vptree.rs", "src/bin/partition.rs"],
     [("VPTreePartition", "src/partition.rs"), ("VPTree construction", "src/vptree.rs")],
     ["region(), partition files"],
     check=chk(PBT + "against a reference implementation of the distance, a validity predicate for the tree and bounds on the population of regions",
               "Random exploration: up to 64 regions of up to 3000 points in the library, up to 16 regions in the program.", builds=("multi", "single"), bins=True))

prop("C19", "Classification splits event files without loss",
     "Classifying event files by a partition writes for every input file and every region a file in the same format holding exactly those events of the input that belong to the region, unchanged and in their original order, so that the outputs together contain each event exactly once. "
     "Each output has the header and footer of its input and can be read again as an event file of the same format with the same events.",
     ["inputs", "configurations"],
     "all well-formed event files, partitions and output options",
     "There is no test of the program.",
     ["src/bin/classify-events.rs", "src/partition.rs", "src/io.rs"],
     [("main loop of the classifier", "src/bin/classify-events.rs")],
     ["output files"],
     check=chk(PBT + "of program runs on generated files and partitions against a reference assignment of events to regions; byte comparison and round trip",
               "Random exploration, up to 8 regions.", builds=("multi", "single"), bins=True))

prop("C20", "The C interface does the same as the Rust interface and reports its errors",
     "A run through the C interface with given files, options and optionally a custom distance function writes the same output as the corresponding run of the library, and the distance function sees the true weights, ids, types and momenta of the events. "
     "Failures are signalled by the return value with a message that is retrievable completely or truncated to the given buffer, and never crash or write out of bounds.",
     ["inputs", "configurations", "fault_sequences"],
     "all options, distance functions, input files and buffer sizes",
     "Tests do not call the C interface.",
     ["src/c_api/cres.rs", "src/c_api/distance.rs", "src/c_api/error.rs", "src/c_api/event.rs"],
     [("cres_run, cres_get_last_err", "src/c_api")],
     ["return values, output files, callback arguments"],
     check=chk(PBT + "of call sequences executed by a C program linked to the library, against the library's Rust interface (differential) and a model of the last error; guard bytes around buffers",
               "Random exploration, up to 150 events per file and 8 calls per sequence; equality with the library only with a single thread.", builds=("multi",), bins=True))

prop("C21", "Saved cells are numbered and include the largest ones",
     "The cell collector numbers cells in the order they are collected and saves, with their exact members, at least the ten largest by radius, by number of events and by weight, and a bounded number in total. "
     "This also holds after combining collectors from several runs.",
     ["inputs", "histories"],
     "all sequences of cells and combinations of collectors",
     "Tests do not cover the collector.",
     ["src/cell_collector.rs"],
     [("CellCollector::collect, combine, event_cells", "src/cell_collector.rs")],
     ["event_cells"],
     check=chk(PBT + "against the full list of cells", "Random exploration; at least the ten largest is the documented constant."))

prop("C22", "Command line options are honoured and invalid ones rejected",
     "Every option of the programs has the documented effect, independent of the order of options and of whether it is given on the command line or in an argument file, and all documented spellings of option values are equivalent. "
     "Invalid values, incomplete or contradictory options are rejected with an error before any output is produced.",
     ["configurations"],
     "all combinations of options and option values of the programs",
     "There is no test of option handling beyond one parser example.",
     ["src/bin/opt_common.rs", "src/bin/opt_cres.rs", "src/bin/opt_cres_validate.rs", "src/bin/opt_partition.rs", "src/bin/opt_classify.rs", "src/bin/main.rs", "src/compression.rs"],
     [("option structs and validation", "src/bin/opt_*.rs"), ("FromStr for Compression", "src/compression.rs")],
     ["exit status and output files"],
     check=chk(PBT + "of command lines: differential against the composed library components, rejection of generated flaws, grammar model", "Random exploration; sizes of compressed output judged within 1%.", builds=("multi", "single"), bins=True))

prop("C23", "Results do not depend on how the input is stored or on irrelevant detail",
     "For a given sample and options with a single thread, the resulting weights are reproducible and do not depend on how events are distributed over files, on the format or compression of the files, on the search algorithm (unless distances are tied), or on where the program is run. "
     "Scaling all weights by a positive factor scales all resulting weights by that factor.",
     ["inputs", "configurations"],
     "all samples without exact ties in distances or weights and all equivalent ways to store them",
     "There is no test that compares two runs.",
     ["src/cres.rs", "src/io.rs", "src/resampler.rs", "src/bin/main.rs"],
     [("whole pipeline", "src/cres.rs")],
     ["output files of pairs of runs"],
     check=chk(PBT + "of metamorphic relations between pairs of program runs", "Random exploration of pairs of single-threaded runs.", builds=("multi", "single"), bins=True))
