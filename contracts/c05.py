import z3
import irvc, irbv
from irvc import *
from omt import *
from order import *
from suite import Group, Native
PROP = 'C05'
EXPLAIN = ('heap_sift_down is proved to restore heap order below its start (with the entry that comes last in the output order at the root), make_heap to establish it, both permuting only their range; omTensorTopK is proved, for every rank up to 6, shape, strides, k and element size, '
           'to leave in every slice k entries that all come before all the others in the comparator order, in that order when sorted is requested, with the indices of every slice distinct and in range and everything outside the slices unchanged, on the heap path and on the full-sort path.')
ASSUMPTIONS = ['no NaN among the data', 'the order tensor starts with distinct positions 0..n-1 in every slice', 'the slices of the order buffer do not overlap', 'dimensions are below 2^31-1 and byte offsets fit in 64 bits; 0 <= k <= n',
               'quick tier: element sizes 1 and 8, thorough tier: 1, 2, 4 and 8']
TRUSTED = ['qsort_r rearranges exactly the given entries into the order of a strict total comparator', 'the contracts of getCompareFunction, of the comparators and of omTensorSort (proved under C04)', 'the last step of the induction "the heap root comes last" (its base and step are proved as lemmas)']


def groups(tier):
    return [Group('heap', [('src/Runtime/OMTopK.c', ['.'])], [c_sift(), c_make()])] + [
            Group('slice walk, %d byte elements' % es, [('src/Runtime/OMTopK.c', ['.'])], [c_getcompare_use(), c_sort(es, False), trusted(c_sift()), trusted(c_make()), c_topk(es)], models=walk_models(es)) for es in ((1, 8) if tier == 'quick' else (1, 2, 4, 8))]


def trusted(c):
    c.trusted = True        # proved in the heap group of this check
    return c


def extra_obligations(tier, tmp, budget):
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8) as pool:
        res = pool.map(irbv.decide, heap_lemmas(tier) + order_lemmas(tier), chunksize=1)
    return [{'group': 'lemmas', 'fn': 'heap and order', 'obls': res}]


def natives(tier):
    S = ['native/sort.c', 'src/Runtime/OMSort.c', 'src/Runtime/OMTopK.c', 'src/Runtime/OMTensor.c', 'src/Runtime/OnnxDataType.c', 'src/Support/SmallFPConversion.c']
    return [Native('topk', S, 'ranks 1 to 6, axis length at most 12 (300 for some)', libs=['-lm'], quick=['topk=1', 'n=30000'], thorough=['topk=1', 'n=600000', 'max=600'], deep=['topk=1', 'n=60000'])]
