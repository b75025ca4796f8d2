prop("C01", "Every command sequence obeys the documented life cycle",
 "From every state, each command (Init, Play, Pause, Stop, Wait, Batch, Push, Copy, status and model accesses) is accepted or refused as the life cycle Created, Ready, Running, Idle, Finished prescribes, and leaves the status it prescribes. A refused command returns the corresponding error and changes nothing. Play initializes an algorithm that is created or finished, Batch plays until the end of the run, and Wait returns once the algorithm is no longer running.",
 ["histories"], "every sequence of client operations up to the explored depth, from a new algorithm, with scripted runs (endless, finite, failing)",
 "the tests drive a few hand-written sequences; the guarantee is about every sequence, in particular repeated and refused commands and commands after an end of run",
 CORE + ["core/timeout.go"], [("command handlers and status checks", "core/ctrl.go"), ("transitions", "core/status.go")], "seq",
 "All operation sequences up to depth 4 to 5 on the real code, each outcome compared with a reference state machine. Trusts the controlled scheduler and the source rewriting.",
 [("status", "state of the life cycle", "core/status.go")], ["return values of the commands", "Status()"])

prop("C02", "Concurrent control commands are linearizable",
 "Whatever commands several clients issue at the same time, every answer they get and every status they read is one that some one-at-a-time execution of these commands, consistent with their real-time order, would give in the documented life cycle.",
 ["schedules", "histories"], "every interleaving, up to the deviation bound, of 2 and 3 clients issuing control commands from every state",
 "tests issue commands one after the other and sample one schedule by sleeping; an interleaving between the check of the status and the transition is never produced on purpose",
 CORE, [("one control command at a time", "core/ctrl.go"), ("atomic status", "core/status.go")], "conc",
 "Every schedule with at most 1 (2) deviations from the default schedule; linearizability decided by a Wing-Gong search against the state machine of C01.",
 [("status", "state of the life cycle", "core/status.go")])

prop("C03", "No client call ever deadlocks or hangs",
 "Every call of the public interface made by any client at any time, callbacks and status notifiers included, returns: no combination of concurrent calls, of a run that ends or fails, of a slow or re-entrant notifier or of pushed data blocks a caller or the algorithm forever. Only Wait and Batch on an endless run may last, and they return once the run is paused or stopped.",
 ["schedules", "histories"], "every pair of concurrent operations from every state, up to the deviation bound, with notifiers that are slow or call back",
 "a deadlock needs a particular interleaving of two locks or channels; the tests run one and only notice a hang by the global test timeout",
 CORE + ["core/buffer.go", "core/model.go"], [("acknowledged commands", "core/ctrl.go"), ("notification outside locks", "core/status.go")], "conc",
 "Every schedule up to the deviation bound: a state where no thread can move, or a call that outlives the horizon of the virtual clock, is a violation.")

prop("C04", "Iteration limits are exact",
 "A run ends exactly when its iteration limit, or its limit of iterations per pushed data, is reached: it performs no iteration beyond the limit and never stops before. Iterations count from the initialization on: an algorithm that is played again after it finished starts from zero, one that is played again after a pause or after the end of a run goes on with its count. The published number of iterations is the number of iterations performed.",
 ["histories", "configurations"], "every sequence of operations up to the explored depth under every combination of limits",
 "tests check that a run ends, with one limit; counts after a pause, a push or a second run are not compared",
 ["core/algo.go", "core/finish.go", "core/conf.go", "core/figures.go"], [("finishing conditions", "core/finish.go"), ("iteration loop", "core/algo.go")], "seq",
 "All operation sequences up to the depth for limits 0 to 3, iterations counted by the implementation under test.")

prop("C05", "Failures are reported once and never lose or corrupt the algorithm",
 "An error or a panic in the initialization, in any iteration, in a parallel task or in a finishing condition ends the run as finished with that error, which is reported by the status and by the client call that meets it, and never crashes the process or blocks. The centroids last published stay readable, those of a failed initialization or iteration are never published, and the algorithm can be initialized and played again.",
 ["fault_sequences", "histories", "schedules"], "every failure point in the first iterations, kind of failure and following sequence of operations up to the depth, and concurrent commands up to the deviation bound",
 "tests inject one error at one place; the state after it and the commands that meet it are not explored",
 CORE + ["core/par_assign.go", "core/util.go"], [("recover and failure status", "core/algo.go"), ("panics of parallel tasks", "core/util.go")], "conc",
 "Every injected failure followed by every operation sequence up to the depth; concurrent commands up to the deviation bound.")

prop("C06", "A run times out when and only when its own timeout elapses",
 "A run that lasts longer than the configured timeout finishes with a timeout error once the timeout has elapsed since it was played; a run that was paused, stopped, finished or played again earlier is never ended by the timeout of an earlier run, and without a configured timeout a run never times out.",
 ["histories", "schedules"], "every sequence of commands and delays up to the depth, under a virtual clock whose expiry is placed at every point",
 "tests sleep for real durations and see one ordering of the timer and of the commands",
 ["core/timeout.go", "core/algo.go"], [("interruption of a run", "core/timeout.go")], "seq",
 "All command and delay sequences up to the depth under a virtual clock; concurrent expiries up to the deviation bound; 200 ms of slack.")

prop("C07", "Status notifications tell the exact story of the life cycle",
 "The registered status callback receives, in order, without overlap, loss or duplicate, every status the algorithm goes through, so that what it received is always a path of the life cycle from its beginning and ends with the current status; a failure is notified with its error.",
 ["schedules", "histories"], "every interleaving up to the deviation bound of clients, runs that end and slow notifiers",
 "tests count notifications of one sequential scenario",
 ["core/status.go", "core/algo.go"], [("notification queue", "core/status.go")], "conc",
 "Every schedule up to the deviation bound; the notified list is checked to be a path of the state machine.")

prop("C08", "Nothing moves once a pause or a stop has returned",
 "Once Pause, Stop or Wait returned successfully no iteration is in progress and none starts, and centroids and figures do not change, until a client plays the algorithm again.",
 ["schedules", "histories"], "every interleaving up to the deviation bound of the run, of the commands and of pushes",
 "a late iteration needs the run to be preempted right after its check; tests only look after a sleep",
 CORE, [("acknowledgement of commands by the run", "core/ctrl.go"), ("iteration loop", "core/algo.go")], "conc",
 "Every schedule up to the deviation bound, with a monitor in the scripted implementation.")

prop("C09", "Readers see whole, immutable and monotonic models",
 "Whatever runs, centroids, predictions and figures read by clients belong to one published iteration, never to a mixture, never go back to an earlier iteration of the same run, and do not change once handed out. Pushed elements are never modified either.",
 ["schedules", "histories"], "every interleaving up to the deviation bound of readers, of the run, of commands and pushes; the real algorithms for what was read before",
 "a torn or aliased model shows only when a read falls in the middle of an update; tests read after the run",
 ["core/algo.go", "core/model.go", "core/figures.go", "streaming/impl.go", "mcmc/impl.go", "kmeans/impl.go"], [("publication of the model", "core/model.go"), ("figures", "core/figures.go")], "conc",
 "Every schedule up to the deviation bound with an implementation whose models identify their iteration.")

prop("C10", "The public interface is free of data races",
 "No two unsynchronized accesses to the same memory, one of which is a write, are made by the algorithms (k-means, mcmc, streaming, sequential or parallel) whatever clients concurrently control, feed, copy and read them.",
 ["schedules", "histories"], "every pair of concurrent clients with every operation on every algorithm, every schedule up to the deviation bound",
 "the race detector under the tests only sees the one schedule that happens, with the accidental synchronization it contains",
 ["core/algo.go", "core/model.go", "core/buffer.go", "mcmc/impl.go", "streaming/impl.go", "kmeans/impl.go", "core/par_assign.go"], [("locks of the model and of the buffers", "core/buffer.go")], "race",
 "Happens-before race detection (Go race detector fed with the synchronization of the program only) on every explored schedule.")

prop("C11", "No pushed data is lost, duplicated or reordered",
 "Every element successfully given or pushed, before, during or between runs and by any number of clients, is used in the order it was received from the next iteration on, exactly once, and a buffer of limited size holds exactly the latest elements up to its size. Pushing to an algorithm that does not run neither blocks nor drops data.",
 ["schedules", "histories", "inputs"], "every sequence of buffer operations for every small size, every schedule up to the deviation bound of concurrent pushers, every sequence of operations on fed algorithms",
 "tests push a few elements and look at sizes; order, wrap-around and pushes during an iteration are not crossed",
 ["core/buffer.go", "core/algo.go", "kmeans/impl.go", "mcmc/impl.go", "streaming/impl.go"], [("staged and fixed-size buffers", "core/buffer.go")], "conc",
 "All buffer operation sequences to the depth against a list; real algorithms observed through the elements their space is asked about.",
 [("buffer", "elements kept, in order", "core/buffer.go")])

prop("C12", "Automatic play after enough pushed data is exact",
 "An algorithm configured to play by itself after n pushed elements starts once, before the push returns, when it is ready and receives an element that follows n others successfully pushed since it last started by itself, and not earlier. A push that fails, or that comes while it cannot be played, never starts it, and an algorithm that is not configured to never starts by itself.",
 ["histories", "configurations", "schedules"], "every sequence of operations up to the depth for limits 0 to 3; concurrent pushers up to the deviation bound",
 "tests push a number of elements beyond the limit and only see that it plays",
 ["core/algo.go", "core/conf.go"], [("push counter", "core/algo.go")], "seq",
 "All operation sequences up to the depth, failing pushes included, against an exact counter.")

prop("C13", "The iteration frequency is an upper bound, pauses included",
 "With a configured iteration frequency, successive iterations start at least one period apart, before and after a pause alike, an iteration that lasts longer than the period is not followed by a burst, and without configured frequency no delay is added.",
 ["configurations", "histories"], "every combination of iteration durations relative to the period, with and without pause, under a virtual clock",
 "tests measure elapsed wall time loosely on one configuration",
 ["core/algo.go", "core/conf.go"], [("throttling of iterations", "core/algo.go")], "seq",
 "Exact dates under a virtual clock for every combination of durations up to the depth.")

prop("C14", "Assignments and losses are those of the nearest centroid",
 "Prediction and assignment give, for every element, the least of its distances to the centroids, a label that reaches it (the first one on a tie) and the centroid of that label; losses and cardinalities are the sums over these assignments, whatever the ties, zero or infinite distances and data.",
 ["inputs"], "every table of distances over a few values between a few elements and centroids",
 "tests check a handful of points without ties, zeros or infinities",
 ["core/clustering.go", "core/algo.go", "core/util.go"], [("assignment", "core/clustering.go")], "enum",
 "Exhaustive over tables of distances of the stated sizes; the reference is the definition.")

prop("C15", "Parallel computations equal sequential ones for every partition",
 "Parallel assignment, losses and averages give the result of their sequential counterpart for every number of elements, of clusters, of processors and every order of the parallel tasks, and every element is processed exactly once by exactly one task.",
 ["inputs", "schedules", "configurations"], "every partition of up to 12 elements in up to 9 parts, every small data set, schedules of the tasks up to the deviation bound, under race detection",
 "tests run one size on the number of processors of the machine",
 ["core/par_assign.go", "core/par_dba.go", "core/par_loss.go", "core/util.go", "kmeans/par.go", "mcmc/par.go"], [("partition of the work", "core/util.go")], "race",
 "Exhaustive over sizes and degrees of parallelism; task orders up to the deviation bound, races reported.")

prop("C16", "Cluster averages are exact weighted barycenters",
 "The average of weighted elements is their barycenter whatever their order and multiplicity, the averages of clusters are those of their own elements, a cluster without element keeps its former centroid, and averaging changes neither the data nor the former centroids.",
 ["inputs"], "every list of up to 4 (5) elements and weights",
 "tests average a few lists of equal weights",
 ["core/clustering.go", "core/util.go", "core/par_dba.go"], [("averages", "core/clustering.go")], "enum",
 "Exhaustive over small lists of elements and positive weights.")

prop("C17", "Vector spaces keep their algebraic laws",
 "The euclidean distance is the norm of the difference, symmetric, zero only between equal vectors and triangular; the cosinus distance is symmetric, non negative, and zero between vectors of the same direction. Combining is the weighted barycenter with weights in the order of the elements, copies are independent, the dimension is that of the elements, and no operation changes its arguments.",
 ["inputs"], "every pair or triple of vectors of a grid in dimensions 1 to 3, every pair of weights up to 4",
 "tests check a few vectors",
 ["euclid/vectors.go", "cosinus/cosinus.go"], [("vector operations", "euclid/vectors.go")], "enum",
 "Exhaustive over grids of vectors; the distance to a null vector by the cosinus is left undefined.")

prop("C18", "Series distance is the least cost over all allowed warping paths",
 "The distance between two series, of any lengths and in any order, is the least cost over all warping paths within the configured window, the longest series being first resized to fit it, is symmetric and zero to itself, and the reported path is allowed, complete, and costs that distance.",
 ["inputs", "configurations"], "every pair of series of lengths 1 to 7 over 2 or 3 points, every window from none to 5",
 "tests check two series in two windows",
 ["dtw/cost.go", "dtw/dtw.go", "dtw/series.go"], [("accumulated cost and path", "dtw/cost.go")], "enum",
 "Exhaustive over the series of the stated lengths; reference by full dynamic programming, itself compared with path enumeration.")

prop("C19", "Series averages and resizing follow the warping path",
 "The weighted average of two series has the weighted average of their lengths and is read on the piecewise linear curve of the averages of the points a least-cost path matches; resizing and interpolating keep the ends and read the piecewise linear curve of the series. No operation changes its arguments or shares memory with them.",
 ["inputs", "configurations"], "every pair of series of lengths 1 to 6, every window and several weights",
 "tests check two averages of two series",
 ["dtw/dtw.go", "dtw/interpolate.go", "dtw/series.go"], [("average along the path", "dtw/dtw.go"), ("interpolation", "dtw/interpolate.go")], "enum",
 "Exhaustive over the series of the stated lengths, weights up to 5; any path of least cost is accepted.")

prop("C20", "Initializers choose data, distinct and by the documented weights",
 "An initializer asked for k clusters among at least k suitable elements gives k copies of elements of the data: the k first ones (given), k distinct draws (rand), or k draws each weighted by its distance to the centroids already chosen, never one of weight zero (k-means++); otherwise it gives an error and no centroids. A weighted choice returns each index exactly for the random numbers of its share. Initializing neither modifies nor shares the data.",
 ["inputs"], "every small data set with duplicates, every k, every outcome of the random draws of the stated resolution",
 "tests fix a seed and see one sequence of draws; zero weights, duplicates and boundary draws are not reached",
 ["kmeans/init.go"], [("initializers and weighted choice", "kmeans/init.go")], "enum",
 "Exhaustive over small data sets and over the draws of a scripted generator.")

prop("C21", "K-means iterations are Lloyd's and never increase the loss",
 "An iteration of k-means moves each centroid to the average of the elements that are nearest to it, leaves a centroid without element where it is, never increases the loss of the data, sequentially and in parallel alike, and modifies neither the data nor the centroids of the iteration before. A run of n iterations gives what n such iterations give from the initial centroids.",
 ["inputs", "configurations"], "every small data set, every position of up to 3 centroids, runs of several iterations, vectors and series",
 "tests compare one data set with expected figures; ties, empty clusters and duplicates are not covered",
 ["kmeans/impl.go", "kmeans/seq.go", "kmeans/par.go", "core/clustering.go"], [("iteration", "kmeans/seq.go"), ("parallel iteration", "kmeans/par.go")], "enum",
 "Exhaustive over small data sets, against Lloyd's iteration written independently.")

prop("C22", "The mcmc chain follows its acceptance rule",
 "Each iteration of mcmc proposes one cluster less, as many or one more within 1, the maximum and the number of elements, from the last centers accepted with that number since the initialization or else from the current ones, moves them by the distribution and one k-means iteration, and accepts the proposal exactly when the random number is below the acceptance ratio, which compares both on the data of the iteration, elements pushed since included. The published centers are those accepted last, a refusal changes nothing, and figures are those of the decision.",
 ["inputs", "histories"], "every sequence of 2 (3) decisions: change of the number of clusters, displacement, random number, element pushed before or not, for several data sets and parameters, sequential and parallel",
 "tests run a random chain and look at its loss: an inverted, stale or misplaced term still converges",
 ["mcmc/impl.go", "mcmc/store.go", "mcmc/seq.go", "mcmc/par.go"], [("proposal and acceptance", "mcmc/impl.go"), ("store of the centers", "mcmc/store.go")], "enum",
 "Exhaustive over the decisions of the chain to the depth, against an independent reference chain.",
 [("current", "last accepted proposal", "mcmc/impl.go")])

prop("C23", "Streaming treats each element once, in order, by its rule",
 "Streaming uses each element it accepted exactly once, in order, one by iteration: an outlier or an element whose relative distance is above the threshold becomes a new cluster, any other moves its nearest center to the average weighted by the number of elements of the cluster; the maximal distance is kept up to date. An element is refused exactly when the buffer is full, and an iteration without waiting element publishes nothing.",
 ["inputs", "histories", "configurations"], "every sequence of 6 (8) elements and iterations for several thresholds, rules of outliers and buffer sizes",
 "tests call one update at a time; weights, counts and the maximal distance along a sequence are not compared",
 ["streaming/impl.go", "streaming/algo.go"], [("treatment of an element", "streaming/impl.go")], "enum",
 "Exhaustive over short sequences, the random threshold being reduced to its mean.",
 [("clust, cards, maxDistance", "clusters", "streaming/impl.go")])

prop("C24", "Finishing conditions mean what they say",
 "A condition on the iterations, on the status or on the failure holds exactly when its meaning does, a conjunction when it is not empty and all of its conditions hold, a disjunction when one of them holds, a missing condition never, however they are nested. A run with a finishing condition ends at the first iteration after which it holds, and a wait for a condition returns once it holds while the run goes on.",
 ["configurations", "inputs"], "every condition and every nesting up to 2 levels of 3 terms, in every status and count",
 "tests check a few conditions; nil, empty and nested ones are not crossed",
 ["core/finish.go", "core/timeout.go", "core/status.go"], [("conditions", "core/finish.go"), ("wait", "core/timeout.go")], "enum",
 "Exhaustive truth tables; runs and waits under every pair of limits up to 5.")

prop("C25", "A late distribution is built once, and shared safely",
 "However many algorithms and copies use a late distribution at the same time, it is built exactly once, from an element given by one of them, before any of them uses it, and every later answer is the one of the distribution that was built, for the arguments given.",
 ["schedules"], "every interleaving, up to the deviation bound, of 2 and 3 clients",
 "the window is between the check and the construction; tests are sequential",
 ["mcmc/latedistrib.go"], [("initialization under a lock", "mcmc/latedistrib.go")], "race",
 "Every schedule up to 3 (6) deviations, data races reported.")

prop("C26", "Invalid configurations are refused, valid ones completed faithfully",
 "A configuration is accepted, by verification, construction or copy alike, if and only if each of its parameters is in its range. A parameter that is given is kept as it is, and one that is missing takes its documented default. A configuration that is refused creates nothing and leaves a copied algorithm as it was.",
 ["configurations"], "every combination of missing, boundary, valid and invalid values of the parameters of all algorithms",
 "tests check one invalid value at a time, by one way in",
 ["core/conf.go", "kmeans/conf.go", "mcmc/conf.go", "streaming/conf.go", "streaming/algo.go"], [("verification", "core/conf.go")], "enum",
 "Exhaustive over a few values of each parameter.")

prop("C27", "A copy is faithful and independent",
 "A copy is a new algorithm, with the given configuration and space, that holds what its original held: every element of its window in order, or, for streaming, its clusters; it behaves as an algorithm made by hand from these elements. Whatever happens to one of them afterwards, the other is not changed, and copying neither changes nor disturbs the original, even while it runs and is fed, even if the copy fails.",
 ["histories", "configurations", "schedules"], "every sequence of operations on an original and its copy up to the depth, every algorithm, several window sizes and moments of the copy",
 "tests copy once and look at the type; shared buffers, order of a window and the old configuration show only afterwards",
 ["core/ctrl.go", "kmeans/impl.go", "mcmc/impl.go", "streaming/impl.go", "core/buffer.go"], [("copies of implementations", "kmeans/impl.go")], "seq",
 "All sequences to depth 2 to 5; the copy is compared with a twin made by hand; copies of running algorithms up to the deviation bound.")

prop("C28", "Proposal distributions are well formed",
 "A sample of the student distribution has the dimension of its center, is finite, follows the center, shrinks as the square root of the time and leaves the center as it was. Its density is symmetric, greatest at the center, decreasing with the distance, of total one, and finite in every dimension. The dirac distribution always answers its center, with density one.",
 ["inputs"], "every sequence of random numbers out of 8 (extremes included), grids of centers, times and degrees of freedom, dimensions up to 4000",
 "tests check one mean and variance; extreme draws and large dimensions are not reached",
 ["mcmc/multivt.go", "mcmc/dirac.go"], [("sample and density", "mcmc/multivt.go")], "enum",
 "Exhaustive over the stated draws and grids; that samples follow the density is not claimed.")

prop("C29", "Published figures count what happened since the initialization",
 "The figures an algorithm publishes are those of what happened since it was initialized: the successful pushes and the date of the last one, the iterations, the total duration of its runs, and the figures given by the last iteration, and only them. They are kept across pauses, stops, failures and further runs, and start again from nothing when a finished algorithm is initialized again.",
 ["histories", "configurations"], "every sequence of 4 (6) operations for runs ended by their limits, a timeout, a failure or a stop, on the virtual clock",
 "tests look at one figure after one run; durations depend on real time there, and stale or double counted figures need a second run",
 ["core/ctrl.go", "core/figures.go", "core/model.go"], [("figures of a run", "core/ctrl.go"), ("reset at initialization", "core/ctrl.go")], "seq",
 "All operation sequences to the depth and schedules with 1 deviation; durations are exact up to the tenth of a second a run takes to end, which may be counted or not.",
 [("figures", "last published figures", "core/algo.go")], ["RuntimeFigures()"])

prop("C30", "A run is determined by its data, configuration and seed",
 "With the same data, configuration and seed, a run gives the same centroids and the same figures however it is scheduled, paused and resumed, whatever clients read, copy or run aside, whatever other algorithms do, and whether the data were given at the construction or pushed before the run. The degree of parallelism changes nothing but rounding.",
 ["schedules", "configurations", "histories"], "every schedule up to the deviation bound, for every algorithm, initializer, seed, degree of parallelism, way of running and client aside",
 "tests fix a seed and run once; a draw shared between algorithms or made by a reader, or an iteration that depends on the schedule, shows only when they interleave",
 ["core/ctrl.go", "kmeans/impl.go", "kmeans/init.go", "mcmc/impl.go", "mcmc/store.go", "mcmc/multivt.go", "streaming/impl.go"], [("draws from the configured generator", "mcmc/seq.go"), ("iteration loop", "core/ctrl.go")], "conc",
 "Each run is compared with the same implementation initialized and iterated by hand; deviations are bounded.")

prop("C31", "A new initialization is a fresh start",
 "An algorithm that is initialized again after it finished behaves as a new one made by hand from the elements it holds, in order, with the same configuration and generator: k-means and mcmc hold their window of elements, streaming those it accepted and did not use yet. No centroid, cluster, count, stored proposal or figure of a former life shows in the new one.",
 ["histories", "configurations"], "every sequence of operations of a former life, then of a new one, for every algorithm, initializer and frame",
 "tests run one life of an algorithm; what a former life leaves inside an implementation shows only in the decisions of a second one",
 ["core/ctrl.go", "kmeans/impl.go", "mcmc/impl.go", "mcmc/store.go", "streaming/impl.go", "core/buffer.go"], [("initialization of an implementation", "mcmc/impl.go"), ("reset of a finished algorithm", "core/ctrl.go")], "seq",
 "Compared after every operation with an algorithm made by hand whose generator is in the same state; up to 3 (4) operations in each life.")

prop("C32", "What has ended leaves no task behind",
 "A run that ended, stopped, failed or timed out, a wait that returned, a command that was answered or refused, a push, a copy and a parallel computation leave no task behind, whatever they raced with: an algorithm that does not run keeps at most the tasks of its notifications, and an algorithm that runs one more for its run and one for its timeout until it elapses.",
 ["histories", "schedules"], "every sequence of operations up to the depth, and every schedule of two clients up to the deviation bound, for endless, finite, failing and timed runs",
 "a blocked goroutine changes no result: tests pass while a server that creates algorithms for months fills its memory",
 ["core/ctrl.go", "core/algo.go", "core/timeout.go", "core/util.go"], [("acknowledged commands", "core/ctrl.go"), ("end of a run", "core/ctrl.go"), ("join of parallel tasks", "core/util.go")], "conc",
 "Live threads are counted when nothing can move any more and compared with those an idle algorithm needs.")
