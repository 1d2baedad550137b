import z3
import irvc, irbv
from irvc import *
from omt import *
from order import *
from suite import Group, Native
PROP = 'C04'
EXPLAIN = ('The 24 comparators are proved to return -1 exactly when the first index comes first by (value in the direction, index) and 1 otherwise; that relation is proved to be a strict total order for integers and for floats other than NaN; '
           'getCompareFunction is proved to return the comparator of its direction and type; omTensorSort is proved, for every rank up to 6, shape, strides and element size, to leave every slice in the comparator order (five nested loop invariants over the slices done so far), '
           'the indices of every slice distinct and in range, and everything outside the slices unchanged; quick_sort_partition (other platforms) partitions around the pivot and permutes.')
ASSUMPTIONS = ['no NaN among the data', 'the order tensor starts with distinct positions 0..n-1 in every slice', 'the slices of the order buffer do not overlap (dense or padded strides)', 'dimensions are below 2^31-1 and byte offsets fit in 64 bits',
               'a permutation of 0..n-1 is a vector of n distinct numbers in that range (pigeonhole)', 'quick_sort_custom (index stack) is not used on Linux and only monitored, with its partition function proved']
TRUSTED = ['qsort_r rearranges exactly the given entries into the order of a strict total comparator', 'a call through the comparator pointer behaves as the contract proved for each comparator of the table', 'om_f16_to_f32 (proved under C10) is a function of its argument', 'rand returns a non-negative int']


def groups(tier):
    return [Group('comparators', [('src/Runtime/OMSort.c', ['.'])], [c_compare(nm, d, kind, cls, size) for nm, code, kind, cls, size in TYPES for d in ('Ascending', 'Descending')], models={'om_f16_to_f32': m_h2f}),
            Group('comparator table', [('src/Runtime/OMSort.c', ['.'])], [c_getcompare()]),
            Group('quick sort', [('src/Runtime/OMSort.c', ['.'])], [c_partition()], models={'rand': m_rand_plain})] + [
            Group('slice walk, %d byte elements' % es, [('src/Runtime/OMSort.c', ['.'])], [c_getcompare_use(), c_sort(es)], models=walk_models(es)) for es in (1, 2, 4, 8)]


def extra_obligations(tier, tmp, budget):
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8) as pool:
        res = pool.map(irbv.decide, order_lemmas(tier), chunksize=1)
    return [{'group': 'lemmas', 'fn': 'strict total order', 'obls': res}]


def natives(tier):
    S = ['native/sort.c', 'src/Runtime/OMSort.c', 'src/Runtime/OMTopK.c', 'src/Runtime/OMTensor.c', 'src/Runtime/OnnxDataType.c', 'src/Support/SmallFPConversion.c']
    return [Native('sort', S, 'ranks 1 to 6, axis length at most 12 (300 for some)', libs=['-lm'], quick=['n=20000'], thorough=['n=400000', 'max=600'], deep=['n=60000'])]
