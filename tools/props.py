"""Source of properties.jsonl; tools/gen.py writes it."""
PROPS = []
NA = {}
COL = 'modules/collections/src/'


def S(pid, title, statement, over, q, why, *mech, obs=()):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, q=q, why=why, mech=mech, obs=list(obs)))


S('C01', 'Array list behaves as a sequence under any history of operations',
  'After any sequence of append, insert, remove, replace, pop, find, remove-by-value and clear, an array list holds exactly the elements a '
  'plain sequence would hold, in the same order. Positions outside the list are rejected without changing anything, and no memory outside '
  'the list is touched, leaked or freed twice.',
  ['histories', 'inputs'], 'every operation sequence, position and element value, including growth and shrinking of the buffer',
  'the unit tests run two fixed scripts; growth boundaries, shrinking clears and failing positions depend on the order of operations',
  ('growing buffer', COL + 'list.c:array_list_append'), ('shifting', COL + 'list.c:array_list_remove_at'), ('clear', COL + 'list.c:array_list_clear'))
S('C02', 'A failed allocation leaves a list intact',
  'When memory cannot be obtained while a list is created or grown, the operation reports failure, and the list still holds all the elements '
  'it held before and remains usable and destroyable.',
  ['fault_sequences', 'histories'], 'any single failing allocation at any point of any fill level',
  'no test makes an allocation fail', ('growing buffer', COL + 'list.c:array_list_grow'), ('creation', COL + 'list.c:array_list_init'))
S('C04', 'Set holds each inserted element exactly once',
  'A set contains exactly the elements inserted and not removed since, each once, whatever the order of operations. Membership queries agree with it, and '
  'memory is balanced.',
  ['histories', 'inputs'], 'every sequence of insertions and removals of any values', 'the tests use one ascending script, which never exercises the search below the middle of the set',
  ('sorted insertion', COL + 'set.c:set_insert'), ('removal', COL + 'set.c:set_remove'))
S('C05', 'Sorting permutes a list into order and searching finds the first match',
  'Sorting a list yields its elements in non-decreasing order, each exactly as often as before. Searching a list for a value returns the first position that holds it (any such position when the list is searched as sorted), or failure when there is none.',
  ['inputs'], 'every list content, duplicates included', 'tests sort one list', ('sorting', COL + 'list.c:array_list_sort'), ('search', COL + 'list.c:array_list_find'))
S('C06', 'Hash table behaves as a map for every key type',
  'After any history of insert, lookup, membership, remove and clear, a hash table holds exactly the last value stored for each key present, whether or not '
  'keys fall into the same bucket and whatever the key and value types. Removed and absent keys are reported as absent.',
  ['histories', 'inputs', 'configurations'], 'every operation sequence and key/value for all key types, collisions included',
  'the tests insert a fixed set of keys; removal from shared buckets and negative or floating keys are not reached',
  ('bucket chains', COL + 'hashtable.c:hashtable_insert'), ('removal', COL + 'hashtable.c:hashtable_remove'), ('hash functions', COL + 'hashtable.c:int_hash'))
S('C07', 'Destroying or clearing a hash table destroys each owned object once',
  'When a table with key or value destructors is cleared or destroyed, every key and value it owns at that moment is passed to its destructor exactly once, and nothing else is. Objects of entries removed before are not touched.',
  ['histories', 'configurations'], 'every number of entries, collision pattern, previous removal and destructor combination', 'the tests do not count destructor calls',
  ('clear', COL + 'hashtable.c:hashtable_clear'), ('destroy', COL + 'hashtable.c:hashtable_destroy'))
S('C08', 'Comparison orders values totally and equal keys hash to the same bucket',
  'For every value type, comparison is negative, zero or positive exactly as the first value is below, equal to or above the second, without overflow. Equal keys fall into the same bucket, which always lies within the table.',
  ['inputs'], 'every pair of values of every supported type and every small bucket count', 'boundary values that overflow a subtraction or produce negative remainders are not sampled',
  ('comparison functions', 'modules/utils/src/utils.c:int_compare'), ('hash functions', COL + 'hashtable.c:long_hash'))
S('C09', 'Linked list keeps its elements through any history of insert and remove',
  'After any sequence of insertions and removals, the doubly linked list holds exactly the remaining elements in order, can be walked in both directions, and never leaks or reuses a removed node.',
  ['histories', 'inputs'], 'every sequence of operations and element values', 'the tests remove from one fixed position',
  ('unhooking', COL + 'linkedlist.c:linkedlist_node_unhook'))
S('C10', 'Bucket counts are the exact neighbouring primes',
  'The chosen bucket count for a request is the largest prime below it, and at least three. The next-prime search returns a prime above its argument.',
  ['inputs'], 'every request', 'the tests try a few values', ('table and search', COL + 'primes.c:find_prime_less_than'))
S('D01', 'Pairwise distances are Euclidean for every datatype',
  'The distance stored for each pair of points is the Euclidean distance of their coordinates, whatever the numeric type of the data set. No pair is missed or mixed up, and no difference overflows.',
  ['inputs', 'configurations'], 'every value of every supported datatype, for every pair of points of a small data set', 'the tests check one data set of doubles',
  ('pairwise distances', 'src/distance.c:distance_compute'))
S('D02', 'Looking up a distance gives the value of exactly that pair of points',
  'For every number of points and every pair of points, in either order, a distance lookup reads the entry that was stored for this pair and no other, inside the distance table. The distance of a point to itself is zero.',
  ['inputs'], 'every pair of points of data sets of up to 100000 points', 'offsets overflow or collide only for sizes no test uses',
  ('lookup', 'src/distance.c:distance_get'))
S('D03', 'Core distance is the distance to the k-th nearest other point',
  'The core distance of each point is the distance to its k-th nearest other point, where k is one less than the minimum cluster size, for every distance table including tied distances. It is zero when k is zero.',
  ['inputs'], 'every distance table of a small data set and every neighbour count', 'tests compare one data set without ties',
  ('core distances', 'src/distance.c:distance_get_core_distances'))
S('M01', 'The tree built is a minimum spanning tree of mutual reachability',
  'The graph built from distances and core distances is a spanning tree over all points whose edge weights are mutual reachability distances and whose total weight is minimal. Exactly when self edges are requested it also holds one edge per point to itself, weighted with its core distance.',
  ['inputs', 'configurations'], 'every table of distances and core distances of a small data set', 'tests check one data set; ties and degenerate trees are not covered',
  ('tree construction', 'src/hdbscan.c:hdbscan_construct_mst'))
S('M02', 'Sorting the edges keeps every edge together with its weight',
  'Sorting the edges of a graph by weight leaves the weights in non-decreasing order, and every edge keeps its two endpoints and its weight. Graphs without edges are sorted as well.',
  ['inputs'], 'every edge list up to a length, tied weights included', 'tests sort one graph', ('edge sorting', 'src/undirected_graph.c:graph_quicksort_by_edge_weight'))
S('M03', 'Adjacency of a graph follows its edges and their removal',
  'Each vertex of a graph lists exactly its neighbours, for parallel and self edges too. Removing an edge, in either direction and in any order, removes it at both ends and leaves all others.',
  ['inputs', 'histories'], 'every small graph and every order of removals', 'tests remove no edge twice and build no self edges',
  ('adjacency', 'src/undirected_graph.c:graph_init'), ('removal', 'src/undirected_graph.c:graph_remove_edge'))
H = 'src/hdbscan.c:'
S('H01', 'Every hierarchy level is the set of density-connected components',
  'For any spanning tree and minimum cluster size, the clusters recorded at each weight level are exactly the connected components of at least that many points which the remaining edges form; all other points are noise. '
  'Every level that changes a cluster is recorded, in decreasing order of weight; a cluster keeps its label while it shrinks, and a split gives its parts new consecutive labels. The compact hierarchy holds a correct subset of these levels.',
  ['inputs', 'configurations'], 'every tree shape and every weight assignment, tied weights included, of small point sets, with and without self edges',
  'the tests compare one data set without ties at one cluster size',
  ('hierarchy', H + 'hdbscan_compute_hierarchy_and_cluster_tree'), ('splitting', H + 'hdbscan_create_new_cluster'))
S('H02', 'Cluster tree accounts for every point: birth, death, noise and stability',
  'For every cluster, birth and death level, parent, and the set of points that left it as noise agree with the recorded hierarchy. Its stability is the sum over its members of 1/level at which each leaves minus 1/birth level, '
  'and the noise level and last cluster reported for each point are those at which the point actually leaves.',
  ['inputs', 'configurations'], 'every tree shape and weight assignment of small point sets', 'the tests check label counts of one data set, not levels or stabilities',
  ('detaching points', 'src/cluster.c:cluster_detach_points'), ('hierarchy', H + 'hdbscan_compute_hierarchy_and_cluster_tree'))
S('H03', 'Cluster selection maximises constraints, then stability, over the tree',
  'The clusters selected for the flat result are an antichain of the cluster tree in which each cluster is preferred over its descendants exactly when it satisfies more constraints or, if equal, is at least as stable as the best choice among them. '
  'Each cluster also knows the lowest death level below it, and an infinite stability is reported to the caller.',
  ['inputs', 'histories'], 'every cluster tree shape and every assignment of stabilities and satisfied constraints', 'the tests cover one tree of clusters',
  ('propagation', 'src/cluster.c:cluster_propagate'), ('tree walk', H + 'hdbscan_propagate_tree'))
S('H04', 'Flat labels follow from the selected clusters',
  'Each point is labelled with the selected cluster it belonged to when that cluster was formed, and with noise exactly when it belonged to none. The selected clusters never contain one another.',
  ['inputs', 'configurations'], 'every tree, weight assignment and stability of the clusters', 'the tests compare the labels of one data set',
  ('flat labels', H + 'hdbscan_find_prominent_clusters'))
S('H05', 'Outlier scores lie in [0,1], are sorted and cover each point once',
  'The outlier score of a point is one minus the lowest death level below the last cluster it belonged to divided by the level at which it became noise, and lies between 0 and 1. Each point has exactly one entry, carrying its core distance, and the entries are ordered by score, core distance and point.',
  ['inputs', 'configurations'], 'every tree, weight assignment and core distances', 'the tests check neither values nor order of the scores',
  ('outlier scores', H + 'hdbscsan_calculate_outlier_scores'), ('order', 'src/outlier_score.c:outlier_score_compare'))
S('E01', 'Clustering a distance table yields its density-connected components',
  'For any table of distances and minimum cluster size m, two points share a cluster at a recorded level exactly when a chain of points connects them whose steps and core distances do not exceed that level, and a point is in a cluster exactly when at least m points are so connected to it. '
  'No level at which a cluster changes is skipped, every flat cluster is one such component, and the outlier scores cover each point once.',
  ['inputs', 'configurations'], 'every table of distances with small integral values', 'tests run the whole pipeline on a single data set and compare label counts',
  ('pipeline', H + 'hdbscan_do_run'), ('re-clustering', H + 'hdbscan_rerun'))
S('L01', 'Any data set can be clustered without memory errors or leaks',
  'Clustering succeeds for every data set of at least one point and every minimum cluster size of at least two, including data sets smaller than that size, identical points and values whose distances overflow. No memory outside the owned buffers is read or written, and destroying the object frees everything exactly once.',
  ['inputs', 'configurations'], 'every small data set, storage layout and cluster size', 'tests cluster one data set of 150 points; tiny and degenerate ones follow other paths',
  ('run', H + 'hdbscan_run'), ('cleaning', H + 'hdbscan_clean'), ('initialisation', H + 'hdbscan_init'))
S('L02', 'Results do not depend on what a clustering object did before',
  'After any history of running, running again on the same or other data, re-clustering with another size and cleaning, the labels, scores, hierarchy and clusters equal those of a fresh object given the last data set and size. Nothing is leaked on the way.',
  ['histories', 'inputs'], 'every history of up to two further steps on every pair of small data sets', 'tests re-cluster one data set and compare label counts',
  ('run', H + 'hdbscan_run'), ('re-clustering', H + 'hdbscan_rerun'), ('cleaning', H + 'hdbscan_minimal_clean'))
S('L03', 'Results do not depend on how the same values are stored',
  'The same coordinates stored as any supported numeric type give the same labels, scores and hierarchy. A matrix treated as single elements is clustered as one point per element, and the data of the caller is never modified.',
  ['inputs', 'configurations'], 'every small data set of values that all types represent', 'tests use one type', ('run', H + 'hdbscan_run'), ('distances', 'src/distance.c:distance_compute'))
S('A01', 'Cluster map lists exactly the positions of every label',
  'Grouping a range of labels gives one entry per label that occurs in that range, noise included, holding exactly the positions which carry it, in ascending order. Labels that do not occur are absent.',
  ['inputs'], 'every short label sequence and every sub-range', 'tests check one labelling', ('grouping', H + 'hdbscan_create_cluster_map'))
S('A02', 'Distance extremes of each cluster are those of its members',
  'For every cluster of at least two points, the smallest and largest distances between its points and the smallest and largest core distances of its points are reported, zero distances not counting as smallest. The result does not depend on the order of the points.',
  ['inputs'], 'every table of distances, core distances and labels of small point sets', 'tests check one labelling', ('extremes', H + 'hdbscan_get_min_max_distances'))
S('A03', 'Cluster statistics are the sample moments of the distance ratios',
  'Mean, largest value, sample variance, standard deviation, skewness and excess kurtosis reported for a clustering are those of the ratios between largest and smallest distances of its clusters, for both kinds of distance. The confidence of each cluster is how far its ratio lies below the largest one, in percent.',
  ['inputs'], 'every number of clusters and assignment of extremes within bounds', 'tests check no values of the statistics', ('statistics', H + 'hdbscan_calculate_stats'), ('moments', H + 'hdbscan_calculate_stats_helper'))
S('A05', 'Clustering validity follows the signs of skewness and kurtosis',
  'The validity of a clustering is the sum over both kinds of distance of 2 when skewness and kurtosis are positive, 1 when only kurtosis is, 0 when only skewness is, and -1 otherwise; it lies between -2 and 4.',
  ['inputs'], 'every combination of skewness and kurtosis values', 'tests check one combination', ('validity', H + 'hdbscan_analyse_stats'))
S('A06', 'Sorting clusters returns each requested cluster once, in order',
  'Sorting clusters by confidence or by size returns exactly the requested clusters, or all of them when none are given, each once and in ascending order. It terminates for clusters of identical points too, whose confidence is not a number, and leaves the clusters unchanged.',
  ['inputs', 'configurations'], 'every confidence or size of up to four clusters and every list of requested clusters', 'tests sort one clustering', ('by confidence', H + 'hdbscan_sort_by_similarity'), ('by size', H + 'hdbscan_sort_by_length'))

S('P01', 'Printing results of any magnitude stays within its buffers',
  'Printing cluster maps, cluster sizes, distance extremes, statistics, hierarchies, outlier scores, distance tables and graphs, and writing log messages, never writes outside a buffer, whatever the magnitude of the values or the length of a file name or message. Nothing is leaked.',
  ['inputs'], 'every value of the printed numbers, every short file name and message', 'no test prints large values',
  ('statistics', H + 'hdbscan_print_stats'), ('extremes', H + 'hdbscan_print_distance_map'), ('graph', 'src/undirected_graph.c:graph_print'), ('log', 'modules/utils/src/logger.c:logger_write'))
S('K01', 'The C++ interface gives the results of the C interface',
  'Running, re-running, grouping, extremes, statistics, validity and sorting through the C++ classes give the labels, clusters, hierarchy, scores and values that the C functions give for the same data. Objects may be cleaned before they are destroyed, and nothing is leaked or released twice.',
  ['inputs', 'histories'], 'every small data set, minimum number of points and sub-range of labels', 'tests of the C++ interface check one data set, and never against the C interface',
  ('class', 'src/hdbscan.cpp:hdbscan::run'), ('free functions', 'src/hdbscan.cpp:getMinMaxDistances'), ('distance class', 'src/distance.cpp:Distance::getCoreDistances'), ('graph class', 'src/undirected_graph.cpp:UndirectedGraph::UndirectedGraph'))
S('N01', 'A cluster accounts for its points, constraints and virtual members',
  'A cluster loses exactly the points detached from it, gains the stability of each detachment, and dies at the level at which its last point leaves; detaching more points than it has fails and changes nothing. '
  'Counted constraints add up, its virtual members are exactly the points added to it, releasing them leaves its parent alone, and clusters are ordered by their labels.',
  ['histories', 'inputs'], 'every history of these operations, numbers of points, levels and labels', 'the tests have no test of clusters',
  ('detaching', 'src/cluster.c:cluster_detach_points'), ('virtual members', 'src/cluster.c:cluster_add_points_to_virtual_child_cluster'), ('release', 'src/cluster.c:cluster_release_virtual_child'), ('order', 'src/cluster.c:cluster_compare'))
S('N02', 'Outlier scores are ordered by score, then core distance, then point',
  'For any two outlier scores, the comparison is negative, zero or positive exactly as the first has the smaller, equal or larger score; among equal scores the core distances decide, and among equal core distances the point numbers, over their whole range.',
  ['inputs'], 'every two scores, core distances and point numbers', 'the tests have no test of outlier scores', ('comparison', 'src/outlier_score.c:outlier_score_compare'))
J = 'modules/java/src/Hdbscan.cpp:Java_bw_co_roguesystems_Hdbscan_'
S('J01', 'The Java binding labels every row as the core does and balances its memory',
  'For every rectangular data set, the native methods behind the Java class return one label per row, the ones the core gives for those rows and that minimum number of points, also after running or creating again. '
  'Data sets that are empty or whose rows are missing or of different lengths raise an exception. Every array borrowed from the virtual machine is given back unchanged, and cleaning releases all memory.',
  ['histories', 'inputs'], 'every small data set and history of native calls, and whether the virtual machine lends arrays or copies of them', 'the binding has no tests and is not built by default',
  ('clustering', J + 'runImpl'), ('again', J + 'reRunImpl'), ('creation', J + 'initHdbscan'), ('cleaning', J + 'cleanHdbscan'))
Y = 'modules/python/src/PyHdbscan.c:PyHdbscan_'
S('Y01', 'Python objects give the results of the core, each its own',
  'For every array of a supported type, contiguous or not, a Python object holds the labels, cluster maps over any range and hierarchy levels that the core gives for its own data and minimum number of points, whatever other objects do. '
  'Results handed out stay valid and unchanged after later runs and after the object is gone. All references and memory are balanced.',
  ['histories', 'inputs', 'configurations'], 'every small data set, element type, layout and history of calls on up to two objects', 'the binding has no tests and is not built by default',
  ('clustering', Y + 'run'), ('again', Y + 'rerun'), ('cluster map', Y + 'getClusterMap'), ('hierarchy', Y + 'getHierarchies'), ('lifetime', Y + 'dealloc'))
S('Y02', 'Misuse of the Python binding raises exceptions and harms nothing',
  'Unsuitable data sets, minimum numbers of points below two, wrong arguments, ranges outside the labels and calls before any clustering raise a Python exception. The object keeps its results and remains usable, and nothing crashes, leaks or is released twice.',
  ['histories', 'inputs'], 'every mixture of proper calls and misuse up to the bound', 'the binding has no tests and is not built by default',
  ('creation', Y + 'init'), ('data sets', Y + 'run'), ('ranges', Y + 'getClusterMap'), ('lifetime', Y + 'dealloc'))
S('G01', 'Every offered type configuration keeps the guarantees',
  'Built with any of the label, index and distance types that the build options offer (unsigned short, unsigned int, unsigned long; double, float), the clustering pipeline, its histories, analysis, sorting, printing, interfaces and bindings keep the guarantees of the default build. Nothing is read or written with the size of another type.',
  ['configurations', 'inputs'], 'every offered type, one option changed at a time and all at once, on every small input', 'tests are built with the default types only',
  ('types', 'config.h.in:label_t'), ('comparators', H + 'hdbscan_create_cluster_map'), ('tree walk', H + 'hdbscan_find_prominent_clusters'), ('graph', 'src/undirected_graph.c:graph_init'))
S('G02', 'Debug builds give the results of release builds',
  'Built with debugging enabled, the clustering pipeline, its histories, analysis, sorting, printing and both interfaces keep the guarantees of the default build once the log is open. Diagnostics never write outside a buffer.',
  ['configurations', 'inputs'], 'every small input in a debug build', 'tests are built without debugging',
  ('diagnostics', H + 'hdbscan_run'), ('log', 'modules/utils/src/logger.c:logger_write'))
S('O01', 'Parallel execution gives the results of serial execution, without races',
  'Clustering, re-clustering and analysing on several threads give the labels, scores, hierarchy, clusters, extremes and statistics that one thread gives, whatever the order in which threads run. No two threads access the same memory without ordering when one of them writes.',
  ['schedules', 'inputs'], 'every small data set, thread count and order of threads', 'a race shows only under particular timing, and tests run one data set on one machine',
  ('distances', 'src/distance.c:distance_compute'), ('core distances', 'src/distance.c:distance_get_core_distances'), ('tree walk', H + 'hdbscan_propagate_tree'), ('new clusters', H + 'hdbscan_create_new_cluster'), ('statistics', H + 'hdbscan_calculate_stats'))
