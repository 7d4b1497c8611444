"""The table of checks: which harnesses decide which property, with which bounds."""
COMMON_ASSUMPTIONS = [
    'The LLVM IR produced by clang 18 at -O1 (passes disabled, then sroa/early-cse/simplifycfg) stands for the program; '
    'the executor, z3 and the C library models in rt/vf_libc.c are trusted.',
    'Allocation succeeds unless the harness makes it fail.']
CHECKS = {}


def P(pid, *runs, **kw):
    CHECKS[pid] = dict(runs=list(runs), **kw)


def R(harness, bounds='', **kw):
    return dict(harness=harness, bounds=bounds, **kw)


SHORT = {'ELT': 'short', 'ECMP': 'short_compare'}
LONG = {'ELT': 'long', 'ECMP': 'long_compare'}
DBL = {'ELT': 'double', 'ECMP': 'double_compare', 'FLT': 1}
FLT = {'ELT': 'float', 'ECMP': 'float_compare', 'FLT': 1}

P('C01',
  R('c01_seq.c', 'initial capacity 1..2, 0..2 preloaded elements, then 3 (thorough 4) arbitrary operations, 32-bit elements',
    defs={'OPS': 3, 'PRE': 1}, tdefs={'OPS': 4, 'PRE': 2}, thorough={'time': 1500}),
  R('c01_seq.c', 'as above with 2 operations after 0..3 elements, 64-bit elements', defs=dict(LONG, OPS=2, PRE=3), tdefs={"PRE": 4, "CAP0": 3}),
  R('c01_seq.c', '17 known elements appended, then 2 operations', defs={'PRE0': 17, 'PRE': 17, 'KNOWN': 1, 'OPS': 2, 'CAP0': 1}),
  R('c01_seq.c', '65 (thorough 129) known elements appended, then one operation', defs={'PRE0': 65, 'PRE': 65, 'KNOWN': 1, 'OPS': 1, 'CAP0': 1}, tdefs={'PRE0': 129, 'PRE': 129}))
P('C02', R('c02_fail.c', 'capacity 1..5 (thorough 8), any fill, any single failing allocation', reach=['end', 'failed'], defs={'CAPM': 5}, tdefs={'CAPM': 8}))
P('C04',
  R('c04_set.c', '4 (thorough 5) operations', defs={'OPS': 4}, tdefs={'OPS': 5}, thorough={'time': 1500}),
  R('c04_set.c', '3 operations, 16-bit', defs=dict(SHORT, OPS=3)),
  R('c04_set.c', '8 known elements, then 2 operations', defs={'BIG': 8, 'OPS': 2}), R('c04_set.c', '33 known elements, then one operation', defs={'BIG': 33, 'OPS': 1}))
P('C05',
  R('c05_sort.c', 'lists of 0..4 (thorough 5) arbitrary elements', tdefs={'LEN': 5}, reach=['end', 'found']),
  R('c05_sort.c', 'lists of 0..3 doubles, no NaN', defs=dict(DBL, LEN=3)),
  R('c05_sort.c', 'lists of 0..9 elements 0..1', defs=dict(LEN=9, VK=1), reach=['end', 'found']), R('c05_sort.c', 'lists of 0..6 16-bit elements 0..2', defs=dict(SHORT, LEN=6, VK=2), reach=['end', 'found']))
KL = {'KT': 'long', 'KH': 'H_LONG', 'KCMP': 'long_compare'}
KS = {'KT': 'short', 'KH': 'H_SHORT', 'KCMP': 'short_compare'}
KD = {'KT': 'double', 'KH': 'H_DOUBLE', 'KCMP': 'double_compare'}
KF = {'KT': 'float', 'KH': 'H_FLOAT', 'KCMP': 'float_compare'}
KC = {'KT': 'char', 'KH': 'H_CHAR', 'KCMP': 'char_compare'}
MAPR = ['end', 'replaced', 'removed', 'collided', 'emptied']
P('C06',
  R('c06_map.c', '3 (thorough 4) operations, any 32-bit keys and values, 2 buckets', defs={'OPS': 3}, tdefs={'OPS': 4}, reach=MAPR),
  R('c06_map.c', '4 operations, keys -2..2, 3 buckets, pointer-size values', defs={'OPS': 4, 'BUCKETS': 3, 'KRANGE': 2, 'DT': 'long', 'DH': 'H_LONG'}, tdefs={'OPS': 5}, reach=MAPR, thorough={'time': 1500}),
  R('c06_map.c', '3 operations, 64-bit keys, double values, 1 bucket', defs=dict(KL, OPS=3, BUCKETS=1, DT='double', DH='H_DOUBLE'), reach=MAPR),
  R('c06_map.c', '3 operations, 16-bit keys, char values', defs=dict(KS, OPS=3, DT='char', DH='H_CHAR'), reach=MAPR),
  R('c06_map.c', '3 operations, 8-bit keys, short values', defs=dict(KC, OPS=3, DT='short', DH='H_SHORT'), reach=MAPR),
  R('c06_map.c', '3 operations, double keys -2..2', defs=dict(KD, OPS=3, KRANGE=2, DT='float', DH='H_FLOAT'), reach=MAPR),
  R('c06_map.c', '3 operations, float keys -2..2', defs=dict(KF, OPS=3, KRANGE=2), reach=MAPR),
  R('c06_map.c', 'three colliding keys inserted, then 2 operations, 1 bucket, keys 0..3', defs={'OPS': 5, 'PRE': 3, 'DISTINCT': 1, 'BUCKETS': 1, 'KRANGE': 3}, tdefs={'OPS': 6}, reach=MAPR, thorough={'time': 1500}),
  R('c06_map.c', '9 known keys in 3 buckets, then 2 operations', defs={'OPS': 11, 'PRE': 9, 'KNOWN': 1, 'DISTINCT': 1, 'BUCKETS': 3}, reach=MAPR),
  R('c06_map.c', '17 known keys in 5 buckets, then one operation', defs={'OPS': 18, 'PRE': 17, 'KNOWN': 1, 'DISTINCT': 1, 'BUCKETS': 5}, reach=MAPR),
  R('c06_str.c', 'two string keys of 0..2 characters', reach=['end', 'same', 'different']))
P('C07',
  R('c07_dtor.c', '0..3 owned keys and values, distinct, in 2 buckets, optional removal first, all destructor combinations', reach=['end', 'removed']),
  R('c07_dtor.c', '0..4 in 3 buckets', defs={'M': 4, 'BUCKETS': 3}, reach=['end', 'removed']))
BM = {'BM': 6}
P('C08', *[R('c08_cmp.c', 'two arbitrary values (no NaN); bucket counts 1..6', defs=dict(T=t, CMP=n + '_compare', PCMP=n + '_ptr_compare', HASH=n + '_hash', HT=h, **BM))
           for t, n, h in (('int', 'int', 'H_INT'), ('long', 'long', 'H_LONG'), ('short', 'short', 'H_SHORT'), ('char', 'char', 'H_CHAR'))],
  *[R('c08_cmp.c', 'two arbitrary values (no NaN)', defs=dict(T=n, CMP=n + '_compare', PCMP=n + '_ptr_compare', HT=h)) for n, h in (('double', 'H_DOUBLE'), ('float', 'H_FLOAT'))],
  R('c08_ptr.c', 'pointers into one object; strings of up to 4 characters'))
P('C09', R('c09_links.c', 'six elements appended, then 2 (thorough 3) operations', defs={'OPS': 8, 'PRE': 6}, tdefs={'OPS': 9}, reach=['end', 'removed'], thorough={'time': 1500}), R('c09_links.c', '3 (thorough 4) operations on 32-bit elements', defs={'OPS': 3}, tdefs={'OPS': 4}, reach=['end', 'removed']))
P('C10', R('c10_prime.c', 'requests 4..1217'), R('c10_prime.c', 'requests down to -2^31', defs={'LO': '-2147483648l', 'HI': 3, 'LOW': 1}),
  R('c10_prime.c', 'requests 1218..1250 (thorough 2500), each value', defs={'LO': 1218, 'HI': 1250, 'EACH': 1}, tdefs={'HI': 2500}),
  R('c10_prime.c', 'requests 46340..46343, each value', defs={'LO': 46340, 'HI': 46343, 'EACH': 1}), R('c10_prime.c', 'the last eight requests, each value', defs={'LO': 2147483640, 'HI': 2147483647, 'EACH': 1}),
  R('c10_next.c', '-5..60', defs={'LO': -5, 'HI': 60}), R('c10_next.c', '1200..1240', defs={'LO': 1200, 'HI': 1240}))
TD = {'double': 'H_DOUBLE', 'float': 'H_FLOAT', 'int': 'H_INT', 'long': 'H_LONG', 'short': 'H_SHORT', 'char': 'H_CHAR'}
P('D01',
  *[R('d01_dist.c', f'2 points of 2 coordinates, any {t} value', defs=dict(T=t, HT=TD[t], NBR=1, **({'WIDE': 1} if t == 'long' else {}))) for t in ('int', 'long', 'short', 'char')],
  *[R('d01_dist.c', f'2 points of 2 coordinates, {t} integers up to 2^{b}', defs=dict(T=t, HT=TD[t], NBR=1, RANGE=1 << b)) for t, b in (('double', 24), ('float', 10))],
  *[R('d01_dist.c', f'3 points of 2 coordinates, {t} values -3..3', defs=dict(T=t, HT=TD[t], NBR=1, ROWS=3, RANGE=3), qfbv=True) for t in TD if t != 'long'],
  R('d01_dist.c', '4 points of 1 coordinate, -7..7', defs=dict(T='double', HT='H_DOUBLE', NBR=1, ROWS=4, COLS=1, RANGE=7), qfbv=True),
  R('d01_dist.c', '6 points of 1 coordinate, -1..1', defs=dict(T='double', HT='H_DOUBLE', NBR=1, ROWS=6, COLS=1, RANGE=1), qfbv=True),
  *[R('d01_dist.c', f'2 points of {c} coordinates, any {t}', defs=dict(T=t, HT=TD[t], NBR=1, COLS=c)) for t, c in (('int', 3), ('int', 9), ('short', 7), ('char', 5))],
  *[R('d01_dist.c', f'2 points of {c} coordinates, {t} values -3..3', defs=dict(T=t, HT=TD[t], NBR=1, COLS=c, RANGE=3), qfbv=True) for t, c in (('double', 6), ('float', 5))])
LARGE = ['end', 'self', 'large']
P('D02', R('d02_index.c', '2..100000 points, any pair', defs={'MAXN': 100000}, reach=LARGE),
  *[R('d02_index.c', f'{n} points, any pair', defs={'N': n}, reach=LARGE) for n in (7, 65536)])
P('D03', R('d03_core.c', '3 points, any non-negative distances, every neighbour count', defs={'VN': 3}),
  R('d03_core.c', '5 points, any integral distances up to 2^20 of any one point, every neighbour count', defs={'VN': 5, 'VK': 1 << 20, 'ONE': 1}, tdefs={'VN': 6}, thorough={'time': 1500}),
  R('d03_core.c', '6 points, distances 0..3 of any one point', defs={'VN': 6, 'VK': 3, 'ONE': 1}, qfbv=True, tdefs={'VN': 7}, thorough={'time': 1500}),
  R('d03_core.c', '4 points, distances 0..2', defs={'VN': 4, 'VK': 2}, qfbv=True))
P('M01', R('m01_mst.c', '3 points, any distances and core distances in [0,2), with and without self edges', defs={'VN': 3, 'SELF0': 0, 'SELF1': 1}),
  R('m01_mst.c', '4 points, distances and core distances 0..2, with and without self edges', defs={'VN': 4, 'VK': 2, 'SELF0': 0, 'SELF1': 1}, qfbv=True, tdefs={'VK': 15}, thorough={'time': 1800}),
  R('m01_mst.c', '5 points, distances and core distances 0..1, with and without self edges', defs={'VN': 5, 'VK': 1, 'SELF0': 0, 'SELF1': 1}, qfbv=True, tdefs={'VK': 2}, thorough={'time': 1800}),
  R('m01_mst.c', '4 points, distances and core distances 0, 1, infinite or undefined, with and without self edges', defs={'VN': 4, 'FAR': 3, 'SELF0': 0, 'SELF1': 1}, qfbv=True),
  R('m01_mst.c', '5 points, distances and core distances 0, 1 or infinite', defs={'VN': 5, 'FAR': 2, 'SELF0': 0, 'SELF1': 0}, qfbv=True),
  R('m01_mst.c', '2 points', defs={'VN': 2, 'SELF0': 0, 'SELF1': 1}), R('m01_mst.c', '1 point', defs={'VN': 1, 'SELF0': 1, 'SELF1': 1}))
P('M02', R('m02_sort.c', '0..4 edges, any weights', defs={'EN': 4}), R('m02_sort.c', '0..6 edges, weights 0..2', defs={'EN': 6, 'VK': 2}, qfbv=True, tdefs={'EN': 7, 'VK': 6}, thorough={'time': 1800}), R('m02_sort.c', '0..9 edges, weights 0..1', defs={'EN': 9, 'VK': 1}, qfbv=True), R('m02_sort.c', '30..40 edges, weights of two of them 0..4, the others known', defs={'EN': 40, 'E0': 30, 'VK': 4, 'FREE': 2}))
P('M03', R('m03_graph.c', '1..3 edges on 3 vertices, all removal orders'))
SPLIT = ['end', 'split', 'tie']
P('H01', R('h01_tree.c', 'all trees on 5 points, any weights in [0,2), minPts 2..5, compact or not', defs={'VN': 5}, reach=SPLIT),
  R('h01_tree.c', 'a path of 7 points, any weights in [0,2), minPts 2..3, compact or not', defs={'VN': 7, 'PATH': 1, 'MINHI': 3}, reach=SPLIT, tdefs={'VN': 8, 'MINHI': 4}, thorough={'time': 1800}),
  R('h01_tree.c', 'all trees on 4 points with self edges, any weights, minPts 2', defs={'VN': 4, 'SELF': 1, 'MINHI': 2}, reach=SPLIT, tdefs={'MINHI': 4}, thorough={'time': 1800}),
  R('h01_tree.c', 'all trees on 3 points with self edges, any weights, minPts 2..3', defs={'VN': 3, 'SELF': 1}),
  R('h01_tree.c', 'a path of 8 (thorough 9) points, up to 3 levels of weight, minPts 2..3, compact or not', defs={'VN': 8, 'PATH': 1, 'MINHI': 3, 'LEVELS': 3}, tdefs={'VN': 9, 'LEVELS': 4}, reach=SPLIT, thorough={'time': 1800}),
  R('h01_tree.c', 'a path of 20 points, any weights of its 4 heaviest edges, the others known, minPts 2..4', defs={'VN': 20, 'PATH': 1, 'KNOWN': 15, 'MINHI': 4}, reach=SPLIT, tdefs={'KNOWN': 14}, thorough={'time': 1800}),
  R('h01_tree.c', 'four paths of two points from one point, any weights of the 5 heaviest edges, the others known, minPts 2..3', defs={'VN': 9, 'PATH': 1, 'LEGS': 4, 'KNOWN': 3, 'KMUL': 5, 'KADD': 4, 'MINHI': 3}, reach=SPLIT),
  R('h01_tree.c', 'six paths of two points from one point, any weights of the 4 heaviest edges, the others known, minPts 2..4', defs={'VN': 13, 'LEGS': 6, 'KNOWN': 8, 'MINHI': 4, 'PATH': 1, 'KMUL': 5, 'KADD': 4}, reach=SPLIT),
  R('h01_tree.c', 'six paths of two points from the last point, any weights of the 4 heaviest edges, the others known, minPts 2..4', defs={'VN': 13, 'LEGS': 6, 'KNOWN': 8, 'REVERSED': 1, 'MINHI': 4, 'PATH': 1, 'KMUL': 5, 'KADD': 4}, reach=SPLIT),
  R('h01_tree.c', 'three paths of four points from the last point, any weights of the 4 heaviest edges, the others known, minPts 2..4', defs={'VN': 13, 'LEGS': 3, 'KNOWN': 8, 'REVERSED': 1, 'MINHI': 4, 'PATH': 1, 'KMUL': 5, 'KADD': 4}, reach=SPLIT),
  R('h01_tree.c', 'a binary tree of 12 points, any weights of the 4 heaviest edges, the others known, minPts 2..4', defs={'VN': 12, 'BINARY': 1, 'KNOWN': 7, 'REVERSED': 1, 'MINHI': 4, 'PATH': 1, 'KMUL': 5, 'KADD': 4}, reach=SPLIT),
  R('h01_tree.c', 'four paths of two points from the last point, any weights of the 4 heaviest edges, the others known, minPts 2..3', defs={'VN': 9, 'PATH': 1, 'LEGS': 4, 'REVERSED': 1, 'KNOWN': 4, 'KMUL': 5, 'KADD': 4, 'MINHI': 3}, reach=SPLIT),
  R('h01_tree.c', 'a binary tree of 8 points, up to 3 levels of weight, minPts 2..3', defs={'VN': 8, 'PATH': 1, 'BINARY': 1, 'LEVELS': 3, 'MINHI': 3}, reach=SPLIT),
  R('h01_tree.c', 'all trees on 6 points, any weights, minPts 2..3', defs={'VN': 6, 'MINHI': 3}, reach=SPLIT, tier='thorough', time=3000))
P('H02', R('h01_tree.c', 'all trees on 4 points, any weights', defs={'VN': 4, 'ACCT': 1}, reach=SPLIT),
  R('h01_tree.c', 'a path of 7 points, any weights in [0,2), minPts 2..3', defs={'VN': 7, 'PATH': 1, 'MINHI': 3, 'ACCT': 1}, reach=SPLIT),
  R('h01_tree.c', 'a path of 8 (thorough 9) points, up to 3 levels of weight, minPts 2..3', defs={'VN': 8, 'PATH': 1, 'MINHI': 3, 'LEVELS': 3, 'ACCT': 1}, tdefs={'VN': 9, 'LEVELS': 4}, reach=SPLIT, thorough={'time': 1800}),
  R('h01_tree.c', 'a path of 20 points, any weights of its 4 heaviest edges, the others known, minPts 2..4', defs={'VN': 20, 'PATH': 1, 'KNOWN': 15, 'MINHI': 4, 'ACCT': 1}, reach=SPLIT),
  R('h01_tree.c', 'a path of 24 points, weights 1, 2, 4 of its 4 heaviest edges, the others known, minPts 2..5', defs={'VN': 24, 'PATH': 1, 'KNOWN': 19, 'MINHI': 5, 'ACCT': 2, 'EXACT': 3}, reach=SPLIT),
  R('h01_tree.c', 'six paths of two points from the last point, any weights of the 4 heaviest edges, the others known, minPts 2..4', defs={'VN': 13, 'LEGS': 6, 'KNOWN': 8, 'REVERSED': 1, 'MINHI': 4, 'PATH': 1, 'KMUL': 5, 'KADD': 4, 'ACCT': 1}, reach=SPLIT),
  R('h01_tree.c', 'three paths of four points from the last point, any weights of the 4 heaviest edges, the others known, minPts 2..4', defs={'VN': 13, 'LEGS': 3, 'KNOWN': 8, 'REVERSED': 1, 'MINHI': 4, 'PATH': 1, 'KMUL': 5, 'KADD': 4, 'ACCT': 1}, reach=SPLIT),
  R('h01_tree.c', 'a binary tree of 12 points, any weights of the 4 heaviest edges, the others known, minPts 2..4', defs={'VN': 12, 'BINARY': 1, 'KNOWN': 7, 'REVERSED': 1, 'MINHI': 4, 'PATH': 1, 'KMUL': 5, 'KADD': 4, 'ACCT': 1}, reach=SPLIT),
  R('h01_tree.c', 'four paths of two points from the last point, any weights of the 4 heaviest edges, the others known, minPts 2..3', defs={'VN': 9, 'PATH': 1, 'LEGS': 4, 'REVERSED': 1, 'KNOWN': 4, 'KMUL': 5, 'KADD': 4, 'MINHI': 3, 'ACCT': 1}, reach=SPLIT),
  R('h01_tree.c', 'four paths of two points from one point, any weights of the 5 heaviest edges, the others known, minPts 2..3', defs={'VN': 9, 'PATH': 1, 'LEGS': 4, 'KNOWN': 3, 'KMUL': 5, 'KADD': 4, 'MINHI': 3, 'ACCT': 1}, reach=SPLIT),
  R('h01_tree.c', 'a path of 6 points, weights 0, 1, 2, 4, 8, minPts 2..3', defs={'VN': 6, 'PATH': 1, 'MINHI': 3, 'ACCT': 2, 'EXACT': 4}, reach=SPLIT),
  R('h01_tree.c', 'all trees on 5 points, weights 0, 1, 2, 4', defs={'VN': 5, 'ACCT': 2, 'EXACT': 3, 'MINHI': 3}, reach=SPLIT))
P('H03', R('h03_prop.c', '1..6 clusters, stabilities 0..3', defs={'NC': 6}, tdefs={'NC': 7}), R('h03_prop.c', '1..5 clusters, stabilities 0..3 or infinite', defs={'INF': 1}), R('h03_prop.c', '1..4 clusters, 0..1 satisfied constraints each', defs={'NC': 4, 'CONS': 1}, tdefs={'NC': 5, 'CONS': 2}))
FL = ['end', 'clustered', 'noise']
P('H04', R('h04_flat.c', 'all trees on 5 points, any weights, any stabilities 0..3', defs={'VN': 5, 'STAB': 3, 'COMPACT': 0}, reach=FL),
  R('h04_flat.c', 'a path of 7 points, any weights, any stabilities 0..3, minPts 2..3', defs={'VN': 7, 'PATH': 1, 'STAB': 3, 'COMPACT': 0, 'MINHI': 3}, reach=FL, tdefs={'VN': 8}, thorough={'time': 1800}),
  R('h04_flat.c', 'a path of 8 points, up to 3 levels of weight, any stabilities 0..3, minPts 2', defs={'VN': 8, 'PATH': 1, 'STAB': 3, 'COMPACT': 0, 'MINHI': 2, 'LEVELS': 3}, tdefs={'VN': 9, 'LEVELS': 4}, reach=FL, thorough={'time': 1800}),
  R('h04_flat.c', 'a path of 24 points, any weights of its 4 heaviest edges, the others known, any stabilities 0..3, minPts 2..3', defs={'VN': 24, 'PATH': 1, 'KNOWN': 19, 'STAB': 3, 'COMPACT': 0, 'MINHI': 3}, reach=FL),
  R('h04_flat.c', 'three paths of four points from the last point, any weights of the 3 heaviest edges, the others known, any stabilities 0..2, minPts 2..4', defs={'VN': 13, 'LEGS': 3, 'KNOWN': 9, 'REVERSED': 1, 'MINHI': 4, 'PATH': 1, 'KMUL': 5, 'KADD': 4, 'STAB': 2, 'COMPACT': 0}, reach=FL),
  R('h04_flat.c', 'four paths of two points from one point, any weights of the 5 heaviest edges, the others known, any stabilities 0..3, minPts 2..3', defs={'VN': 9, 'PATH': 1, 'LEGS': 4, 'KNOWN': 3, 'KMUL': 5, 'KADD': 4, 'STAB': 3, 'COMPACT': 0, 'MINHI': 3}, reach=FL),
  R('h04_flat.c', 'a path of 6 points, any weights, any stabilities 0..3, compact hierarchy', defs={'VN': 6, 'PATH': 1, 'STAB': 3, 'COMPACT': 1}, reach=FL),
  R('h04_flat.c', 'all trees on 4 points with self edges, any weights, minPts 2', defs={'VN': 4, 'SELF': 1, 'STAB': 3, 'COMPACT': 0, 'MINHI': 2}, reach=FL))
P('H05', R('h04_flat.c', 'all trees on 4 points, weights 0, 1, 2, 4, core distances 0..2', defs={'VN': 4, 'EXACT': 3, 'COMPACT': 0, 'OUTL': 1}, reach=FL),
  R('h04_flat.c', 'a path of 20 points, weights 1, 2 of its 3 heaviest edges, core distances 0..2 of two points, the others known', defs={'VN': 20, 'PATH': 1, 'KNOWN': 16, 'EXACT': 2, 'COMPACT': 0, 'OUTL': 1, 'MINHI': 3}, reach=FL),
  R('h04_flat.c', 'a path of 6 points, weights 0, 1, 2, core distances 0..2', defs={'VN': 6, 'PATH': 1, 'EXACT': 2, 'COMPACT': 0, 'OUTL': 1, 'MINHI': 3}, reach=FL, tdefs={'EXACT': 4}))

P('E01', R('e01_e2e.c', '4 points, distances 0..4, minPts 2', defs={'VN': 4, 'VK': 4}, reach=['end', 'clustered']),
  R('e01_e2e.c', '4 points, distances 0..4, minPts 3', defs={'VN': 4, 'VK': 4, 'VM': 3}),
  R('e01_e2e.c', '5 points, distances 0..2, minPts 2', defs={'VN': 5, 'VK': 2}, reach=['end', 'clustered'], tdefs={'VK': 4}, thorough={'time': 3000}),
  R('e01_e2e.c', '6 points, distances 0..1, minPts 3', defs={'VN': 6, 'VK': 1, 'VM': 3}, reach=['end', 'clustered']),
  R('e01_e2e.c', '7 points 0..4 on a line, minPts 2', defs={'VN': 7, 'LINE': 4}, reach=['end', 'clustered']),
  R('e01_e2e.c', '8 points 0..3 on a line, minPts 3', defs={'VN': 8, 'LINE': 3, 'VM': 3}, reach=['end', 'clustered'], tdefs={'LINE': 4}, thorough={'time': 1800}),
  R('e01_e2e.c', '9 points 0..2 on a line, minPts 4', defs={'VN': 9, 'LINE': 2, 'VM': 4}, reach=['end', 'clustered'], tdefs={'LINE': 3}, thorough={'time': 1800}),
  R('e01_e2e.c', '30 points on a line, one of them anywhere from 0 to 25, the others known, minPts 3', defs={'VN': 30, 'LINE': 1, 'FREE': 1, 'VK': 25, 'VM': 3}, reach=['end', 'clustered']),
  R('e01_e2e.c', '24 points on a line, two of them anywhere from 0 to 25, the others known, minPts 4', defs={'VN': 24, 'LINE': 1, 'FREE': 2, 'VK': 25, 'VM': 4}, reach=['end', 'clustered']),
  R('e01_e2e.c', '5 points, distances 0..2, minPts 3', defs={'VN': 5, 'VK': 2, 'VM': 3}, tier='thorough'),
  R('e01_e2e.c', '6 points, distances 0..1, minPts 2', defs={'VN': 6, 'VK': 1}, tier='thorough'))
RR = ['end', 'rerun', 'again']
P('L01', R('l01_life.c', '1..5 points of 1..2 coordinates 0..1, minPts 2..3', defs=dict(MAXR=5, MAXC=2, MAXM=3, ROWWISE2=0, STEPS=0, VK=1), tdefs={'MAXR': 6}, thorough={'time': 1800}),
  R('l01_life.c', '1..4 rows of 1..2 elements 0..1, rows or single elements as points, minPts 2..3', defs=dict(MAXR=4, MAXC=2, MAXM=3, ROWWISE2=1, STEPS=0, VK=1)),
  R('l01_life.c', '1..5 points on a line from 0, 1, -1, 1e200, -1e200, 1e-200, minPts 2..4', defs=dict(MAXR=5, MAXC=1, MAXM=4, ROWWISE2=0, STEPS=0, SPECIAL=5)),
  R('l01_life.c', '1..4 points on a line from the same, infinity and NaN, minPts 2..3', defs=dict(MAXR=4, MAXC=1, MAXM=3, ROWWISE2=0, STEPS=0, SPECIAL=7)),
  R('l01_life.c', '1..12 identical points, minPts 2..12', defs=dict(MAXR=12, MAXC=1, MAXM=12, ROWWISE2=0, STEPS=0, VK=0), tdefs={'MAXR': 20}),
  R('l01_life.c', '8 points 0..1 on a line, minPts 2..3', defs=dict(MINR=8, MAXR=8, MAXC=1, MAXM=3, ROWWISE2=0, STEPS=0, VK=1)),
  R('l01_life.c', '30 points on a line, one of them anywhere from 0 to 25, the others known, minPts 2..4', defs=dict(MINR=30, MAXR=30, MAXC=1, MAXM=4, ROWWISE2=0, STEPS=0, FREE=1, VK=25)),
  R('l01_life.c', '1..6 (thorough 7) points 0..2 on a line, minPts 2..4', defs=dict(MAXR=6, MAXC=1, MAXM=4, ROWWISE2=0, STEPS=0, VK=2), tdefs={'MAXR': 7, 'MAXM': 5}, thorough={'time': 1800}))
P('L02', R('l01_life.c', '1..3 points 0..2 on a line, minPts 2..3, one more step of: other size, other data set, same data set', defs=dict(MAXR=3, MAXC=1, MAXM=3, ROWWISE2=0, STEPS=1, VK=2), tdefs={'MAXR': 4}, reach=RR, thorough={'time': 1800}),
  R('l01_life.c', '1..4 points 0..1 on a line, minPts 2..4, one more step', defs=dict(MAXR=4, MAXC=1, MAXM=4, ROWWISE2=0, STEPS=1, VK=1), tdefs={'MAXR': 5}, reach=RR, thorough={'time': 1800}),
  R('l01_life.c', '1..3 points 0..1 on a line, minPts 2..3, two more steps', defs=dict(MAXR=3, MAXC=1, MAXM=3, ROWWISE2=0, STEPS=2, VK=1), reach=RR),
  R('l01_life.c', '4 points 0..1 on a line, minPts 2, two more steps', defs=dict(MINR=4, MAXR=4, MAXC=1, MAXM=2, ROWWISE2=0, STEPS=2, VK=1), reach=['end', 'again']),
  R('l01_life.c', '28..30 points on a line, one of them anywhere from 0 to 6, the others known, minPts 2..3, one more step', defs=dict(MINR=28, MAXR=30, MAXC=1, MAXM=3, ROWWISE2=0, STEPS=1, FREE=1, VK=6), reach=RR),
  R('l01_life.c', '1..2 points 0..1 on a line, minPts 2..3, two more steps, constraints given to the object before each', defs=dict(MAXR=2, MAXC=1, MAXM=3, ROWWISE2=0, STEPS=2, VK=1, CONS=1, CLEANED=1), reach=RR),
  R('l01_life.c', '24 points on a line, one of them anywhere from 0 to 2, the others known, minPts 2..4, two more steps', defs=dict(MINR=24, MAXR=24, MAXC=1, MAXM=4, ROWWISE2=0, STEPS=2, FREE=1, VK=2), reach=RR),
  R('l01_life.c', '1..2 rows of 1..2 int elements, rows or elements as points, one more step, then cleaned and run again', defs=dict(MAXR=2, MAXC=2, MAXM=3, ROWWISE2=1, STEPS=1, VK=1, CLEANED=1, T='int', HT='H_INT'), reach=RR))
P('L03', *[R('l03_type.c', f'1..3 points of 1..2 coordinates -1..1 (0..2 for char), minPts 2..3, {t} against double', defs=dict(VN=3, VC=2, VM=3, LO=0 if t == 'char' else -1, HI=2 if t == 'char' else 1, T=t, HT=TD[t])) for t in ('int', 'char', 'float', 'long', 'short')],
  *[R('l03_type.c', f'4 points of 2 coordinates 0..1, minPts 2, {t} against double', defs=dict(VN=4, NMIN=4, VC=2, CMIN=2, VM=2, LO=0, HI=1, T=t, HT=TD[t])) for t in ('int', 'long', 'short')],
  R('l03_type.c', '1..2 rows of 1..2 elements 0..3 stored flat or as single elements', defs=dict(VN=2, VC=2, VM=3, LO=0, HI=3, T='int', HT='H_INT', FLAT=1)),
  R('l03_type.c', '1..5 points 0..1 on a line, short against double', defs=dict(VN=5, VC=1, VM=3, LO=0, HI=1, T='short', HT='H_SHORT'), tdefs={'HI': 2}, thorough={'time': 1800}))
P('A01', R('a01_map.c', '4 labels 0..2, any sub-range of positions', defs=dict(VN=4, LK=2), tdefs={'VN': 5}, reach=['end', 'absent']),
  R('a01_map.c', '3 labels 0..8, any sub-range of positions', defs=dict(VN=3, LK=8), reach=['end', 'absent']),
  R('a01_map.c', '7 labels 0..1, any sub-range of positions', defs=dict(VN=7, LK=1), reach=['end', 'absent']),
  R('a01_map.c', '5 labels 0..4, any sub-range of positions', defs=dict(VN=5, LK=4), reach=['end', 'absent']),
  R('a01_map.c', '24 labels, one of them any of 0..3, the others known, any sub-range of positions', defs=dict(VN=24, LK=3, FREE=1), reach=['end', 'absent']),
  R('a01_map.c', '3 labels of any value, any sub-range of positions', defs=dict(VN=3), reach=['end', 'absent'], tier='thorough', time=1800))
P('A02', R('a02_minmax.c', '3 points in 2 clusters, any distances and core distances in [0,2)', defs=dict(VN=3, LK=1), reach=['end', 'pair']),
  R('a02_minmax.c', '4 points in 2 clusters, distances and core distances 0..2', defs=dict(VN=4, LK=1, VK=2), qfbv=True, reach=['end', 'pair']),
  R('a02_minmax.c', '5 points in 2 clusters, distances and core distances 0..1', defs=dict(VN=5, LK=1, VK=1), qfbv=True, reach=['end', 'pair']),
  R('a02_minmax.c', '12 points in 3 clusters, any one distance and one core distance arbitrary, the others known', defs=dict(VN=12, LK=2, ONE=1), reach=['end', 'pair']), R('a02_minmax.c', '12 points in 3 clusters, any one distance and one core distance 0..8, the others known', defs=dict(VN=12, LK=2, ONE=1, VK=8), reach=['end', 'pair']),
  R('a02_minmax.c', '4 points in 2 clusters, any distances and core distances in [0,2)', defs=dict(VN=4, LK=1), reach=['end', 'pair'], tier='thorough', time=1800))
P('A03', R('a03_stats.c', '1..3 clusters, ratios of small integers', defs=dict(KC=3, VK=3), reach=['end', 'spread']),
  R('a03_stats.c', '1..5 clusters, ratios of 1 and 2', defs=dict(KC=5, VK=2), tdefs={'KC': 6}, reach=['end', 'spread']),
  R('a03_stats.c', '1..2 clusters, symbolic ratios of small integers', defs=dict(KC=2, VK=3, SYM=1), reach=['end', 'spread']))
P('A05', R('a05_valid.c', 'any skewness and kurtosis values, NaN and infinities included'))
P('A06', R('a06_sort.c', '1..4 clusters, any confidences, NaN included, every list of clusters or none', defs=dict(KC=4, LENGTH=0, ANY=1), tdefs={'KC': 5}, reach=['end', 'nan'], thorough={'time': 1800}),
  R('a06_sort.c', '1..4 clusters of 1..3 members, every list of clusters or none', defs=dict(KC=4, LENGTH=1), tdefs={'KC': 5}, thorough={'time': 1800}),
  R('a06_sort.c', '1..7 clusters of 1..2 members, all or none', defs=dict(KC=7, LENGTH=1, MODES=1, LHI=2)), R('a06_sort.c', '1..9 clusters, confidences 0..1, all', defs=dict(KC=9, LENGTH=0, VK=1, MODES=0)))
PRR = ['end', 'map', 'sizes', 'distances', 'stats', 'scores', 'levels', 'file', 'table', 'graph', 'log', 'components']
P('P01', R('p01_print.c', 'up to 2 clusters, levels, scores, edges or 3 distances of any value; log messages and file names of up to 39 and 20 characters', reach=PRR))
SV = ['end', 'several']
P('O01', R('o01_par.c', '4 points of 2 coordinates 0..1, minPts 2..4, 1 thread against 2..3 in either order, with analysis', defs=dict(VN=4, VC=2, VM=4, VK=1, ANALYSE=1), omp=1, reach=SV),
  R('o01_par.c', '5 points 0..2 on a line, minPts 2..3, 2..3 threads, re-clustering and analysis', defs=dict(VN=5, VM=3, VK=2, RERUN=1, ANALYSE=1), omp=1, reach=SV),
  R('o01_par.c', '6 points 0..1 on a line, minPts 2..4, 2..4 threads, re-clustering and analysis', defs=dict(VN=6, VM=4, VK=1, RERUN=1, ANALYSE=1, THR=4), omp=1, reach=SV),
  R('o01_par.c', '24 points on a line, one of them anywhere from 0 to 25, the others known, minPts 2..3, 2..3 threads, re-clustering and analysis', defs=dict(VN=24, VM=3, FREE=1, VK=25, THR=3, RERUN=1, ANALYSE=1), omp=1, reach=SV),
  R('o01_par.c', '5 points 0..3 on a line, minPts 2..5, 2 threads, re-clustering and analysis', defs=dict(VN=5, VM=5, VK=3, RERUN=1, ANALYSE=1, THR=2), omp=1, reach=SV, tier='thorough', time=1800),
  R('k01_cxx.cpp', 'C++ interface, 1..4 points 0..1 on a line, minPts 2, 1 or 2 threads in either order', defs=dict(VN=4, VM=2, VK=1, THR=2), omp=1, cxx=True, reach=SV))
CXR = ['end', 'several', 'cleaned']
P('K01', R('k01_cxx.cpp', '1..4 points 0..2 on a line, minPts 2, every sub-range of labels', defs=dict(VN=4, VM=2, VK=2), cxx=True, reach=CXR, tdefs={'VK': 3}),
  R('k01_cxx.cpp', '1..5 points 0..1 on a line, minPts 2, every sub-range of labels', defs=dict(VN=5, VM=2, VK=1), cxx=True, reach=CXR, tdefs={'VK': 2}, thorough={'time': 1800}),
  R('k01_cxx.cpp', '1..4 points 0..2 on a line, minPts 2..3, with re-clustering', defs=dict(VN=4, VM=3, VK=2), cxx=True, reach=CXR + ['rerun'], tdefs={'VM': 4}),
  R('k01_cxx.cpp', '1..3 points of 2 coordinates 0..1, minPts 2', defs=dict(VN=3, VC=2, VM=2, VK=1), cxx=True, reach=['end', 'rerun', 'cleaned'], tdefs={'VN': 4}),
  R('k01_cxx.cpp', '30 points on a line, one of them anywhere from 0 to 25, the others known, minPts 2..3', defs=dict(VN=30, NMIN=30, FREE=1, VM=3, VK=25), cxx=True, reach=CXR + ['rerun']),
  R('k01_cxx.cpp', '1..4 points 0..1 on a line, minPts 2, with printing', defs=dict(VN=4, VM=2, VK=1, PRINTS=1), cxx=True, reach=['end', 'printed', 'cleaned']),
  R('k01_cxx.cpp', '1..4 points 0..2 on a line, minPts 2..3, step by step; tables of 1..3 int or float points', defs=dict(VN=4, VM=3, VK=2, PARTS=1), cxx=True, reach=['end', 'steps', 'table']))

JAVA = dict(cxx=True, jni=True, extra=['modules/java/src/Hdbscan.cpp'], inc=['modules/java/src'])
PY = dict(py=True, extra=['modules/python/src/PyHdbscan.c'])
JR = ['end', 'rerun', 'cleaned']
YR = ['end', 'run', 'rerun', 'map', 'levels']
P('N01', R('n01_cluster.c', 'clusters of 0..2 points, 3 (thorough 4) operations, any labels', defs=dict(VN=2, STEPS=3), tdefs={'STEPS': 4}, reach=['end', 'refused', 'dead', 'members', 'released'], thorough={'time': 1800}),
  R('n01_cluster.c', 'clusters of 0..6 points, 2 operations, any labels', defs=dict(VN=6, STEPS=2), reach=['end', 'refused', 'dead', 'members', 'released']))
P('N02', R('n02_score.c', 'any two scores, NaN excluded', reach=['end', 'compared']))
P('J01', R('j01_java.cpp', '1..4 rows of one value 0..1, minPts 2..3, with re-clustering', defs=dict(VN=4, VM=3, VK=1, RUNS=1, LIVES=1, RAGGED=0), reach=JR, tdefs={'VN': 5}, **JAVA),
  R('j01_java.cpp', '1..2 rows of 1..2 values 0..1, up to two objects, malformed data sets', defs=dict(VN=2, VC=2, VM=2, VK=1, RUNS=1, LIVES=2, RAGGED=1), reach=JR + ['malformed', 'again'], **JAVA),
  R('j01_java.cpp', '1..2 rows of one value 0..1, up to two objects and two runs each, malformed data sets', defs=dict(VN=2, VM=2, VK=1, RUNS=2, LIVES=2, RAGGED=1), reach=JR + ['malformed', 'again'], tdefs={'LIVES': 3}, thorough={'time': 1800}, **JAVA),
  R('j01_java.cpp', '4 rows of one value 0..1, minPts 2, up to two runs', defs=dict(VN=4, NMIN=4, VM=2, VK=1, RUNS=2, LIVES=1, RAGGED=0), reach=JR, **JAVA),
  R('j01_java.cpp', '4 rows of one value 0..1, minPts 2, up to two objects', defs=dict(VN=4, NMIN=4, VM=2, VK=1, RUNS=1, LIVES=2, RAGGED=0), reach=JR + ['again'], **JAVA),
  R('j01_java.cpp', '4 rows of 1..2 values 0..1, minPts 2', defs=dict(VN=4, NMIN=4, VC=2, VM=2, VK=1, RUNS=1, LIVES=1, RAGGED=0), reach=JR, **JAVA),
  R('j01_java.cpp', '25..26 rows of one value, that of one row any of 0..6, the others known, minPts 2..3, with re-clustering', defs=dict(VN=26, NMIN=25, VM=3, VK=6, FREE=1, RUNS=1, LIVES=1, RAGGED=0), reach=JR, **JAVA),
  R('j01_java.cpp', '1..3 rows of one value 0..1, 2 threads', defs=dict(VN=3, VM=2, VK=1, RUNS=1, LIVES=1, RAGGED=0, THR=2), reach=JR, omp=1, **JAVA))
P('Y01', R('y01_python.c', 'two objects, 1..2 values 0..1 each, minPts 2, one more call', defs=dict(VN=2, VM=2, VK=1, LOOSE=0, MISUSE=0, OBJECTS=2, STEPS=1), reach=YR, tdefs={'STEPS': 2}, thorough={'time': 1800}, **PY),
  R('y01_python.c', '1..2 rows of 1..2 values 0..1 of every supported type, contiguous or not, one more call', defs=dict(VN=2, VC=2, VM=2, VK=1, LOOSE=1, KINDS=5, MISUSE=0, OBJECTS=1, STEPS=1), reach=YR, **PY),
  R('y01_python.c', '4 rows of 1..2 values 0..1 of every supported type, in row order, column order or with gaps', defs=dict(VN=4, NMIN=4, VC=2, VM=2, VK=1, LOOSE=1, KINDS=5, MISUSE=0, OBJECTS=1, STEPS=0), reach=['end', 'run'], **PY),
  R('y01_python.c', 'two objects, 4 values 0..1 each, minPts 2, one more call', defs=dict(VN=4, NMIN=4, VM=2, VK=1, LOOSE=0, MISUSE=0, OBJECTS=2, STEPS=1), reach=YR, **PY),
  R('y01_python.c', '25 values, one of them any of 0..6, the others known, minPts 2..3, one more call', defs=dict(VN=25, NMIN=25, VM=3, VK=6, FREE=1, LOOSE=0, MISUSE=0, OBJECTS=1, STEPS=1), reach=YR, **PY),
  R('y01_python.c', '1..3 values 0..1, minPts 2..3, two more calls', defs=dict(VN=3, VM=3, VK=1, LOOSE=0, MISUSE=0, OBJECTS=1, STEPS=2), reach=YR, tdefs={'STEPS': 3}, thorough={'time': 1800}, **PY),
  R('y01_python.c', '1..4 values 0..1, minPts 2..3, one more call', defs=dict(VN=4, VM=3, VK=1, LOOSE=0, MISUSE=0, OBJECTS=1, STEPS=1), reach=YR, tdefs={'VN': 5}, thorough={'time': 1800}, **PY))
P('Y02', R('y01_python.c', 'proper calls and misuse in any order, 1..2 values 0..1, 2 calls', defs=dict(VN=2, VM=2, VK=1, LOOSE=0, MISUSE=1, OBJECTS=1, STEPS=2), reach=YR + ['refused', 'initialised-again'], **PY),
  R('y01_python.c', 'proper calls and misuse in any order, 1..2 values 0, 3 calls', defs=dict(VN=2, VM=2, VK=0, LOOSE=0, MISUSE=1, OBJECTS=1, STEPS=3), reach=YR + ['refused', 'initialised-again'], **PY))

# every build configuration the options of CMakeLists.txt offer, on small bounds of the other properties
SMALL = [('whole pipeline on 4 points with distances 0..2', 'e01_e2e.c', dict(VN=4, VK=2), {}),
         ('histories of 1..4 points', 'l01_life.c', dict(MAXR=4, MAXC=1, MAXM=3, ROWWISE2=0, STEPS=1, VK=1), dict(reach=RR)),
         ('histories of 24 points, one of them anywhere from 0 to 6', 'l01_life.c', dict(MINR=24, MAXR=24, MAXC=1, MAXM=3, ROWWISE2=0, STEPS=1, FREE=1, VK=6), dict(reach=RR)),
         ('3 labels', 'a01_map.c', dict(VN=3, LK=2), {}),
         ('extremes of 3 points', 'a02_minmax.c', dict(VN=3, LK=1, VK=2), dict(qfbv=True, reach=['end', 'pair'])),
         ('statistics of 1..3 clusters', 'a03_stats.c', dict(KC=3, VK=2), dict(reach=['end', 'spread'])),
         ('sizes of 1..3 clusters', 'a06_sort.c', dict(KC=3, LENGTH=1), {}),
         ('confidences of 1..3 clusters', 'a06_sort.c', dict(KC=3, LENGTH=0, ANY=1), dict(reach=['end', 'nan'])),
         ('spanning trees of 3 points', 'm01_mst.c', dict(VN=3, VK=2, SELF0=0, SELF1=1), {}),
         ('4 edges of any weight', 'm02_sort.c', dict(EN=4), {}),
         ('graphs of 3 edges', 'm03_graph.c', dict(VN=3, EN=3), {}),
         ('core distances of 4 points', 'd03_core.c', dict(VN=4, VK=2), {}),
         ('1..4 clusters', 'h03_prop.c', dict(NC=4), {}),
         ('trees on 4 points, 3 levels', 'h01_tree.c', dict(VN=4, LEVELS=3, MINHI=3), {}),
         ('trees on 4 points, weights 0..2, scores', 'h04_flat.c', dict(VN=4, EXACT=2, COMPACT=0, OUTL=1, MINHI=3), {}),
         ('printing', 'p01_print.c', {}, dict(reach=PRR)),
         ('C++ interface, 1..4 points 0..1', 'k01_cxx.cpp', dict(VN=4, VM=2, VK=1), dict(cxx=True, reach=['end', 'cleaned']))]
BIND = [('Java binding, 3..4 rows', 'j01_java.cpp', dict(VN=4, NMIN=3, VM=2, VK=1, RUNS=1, LIVES=1, RAGGED=0), dict(reach=JR, **JAVA)),
        ('Python binding, 1..4 values, one more call', 'y01_python.c', dict(VN=4, VM=2, VK=1, LOOSE=0, MISUSE=0, OBJECTS=1, STEPS=1), dict(reach=YR, **PY)),
        ('clusters of 0..2 points', 'n01_cluster.c', dict(VN=2, STEPS=2), {}), ('any two scores', 'n02_score.c', {}, {})]


def configured(name, cfg):
    return [R(h, f'{name}: {what}', defs=d, config=cfg, **kw) for what, h, d, kw in SMALL + BIND]


P('G01', *[r for t, v in (('LABEL_TYPE', 'unsigned short'), ('LABEL_TYPE', 'unsigned long'), ('INDEX_TYPE', 'unsigned short'), ('INDEX_TYPE', 'unsigned long')) for r in configured(f'{t} {v}', {t: v})],
  *configured('DISTANCE_TYPE float', {'DISTANCE_TYPE': 'float', 'D_MAX': 'FLT_MAX', 'D_MIN': 'FLT_MIN'}),
  *configured('float and unsigned short', {'DISTANCE_TYPE': 'float', 'D_MAX': 'FLT_MAX', 'D_MIN': 'FLT_MIN', 'INDEX_TYPE': 'unsigned short', 'LABEL_TYPE': 'unsigned short'}))
P('G02', *configured('DEBUG_ENABLE', {'DEBUG': '1'}))
