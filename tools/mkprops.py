"""Writes properties.jsonl (run by hand when the properties change)."""
import json
import os
I = 'biggus/_init.py'
D = 'biggus/experimental/dask_engine.py'
K = 'biggus/experimental/key_grouper.py'


def P(id, title, statement, over, text, why, mech, files=(I,), state=(),
      observe=()):
    return dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors=dict(
            files=list(files),
            state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            mechanism=[dict(zip(('name', 'where'), m)) for m in mech],
            observe_at=list(observe), hook_needed=None))


PROPS = [
P('C01', 'Indexing any virtual array selects what its contents would',
  'Indexing a virtual array, however it was composed, gives a virtual array whose realised contents are exactly the orthogonal (per-dimension) selection of the contents the original realises to, in both plain and masked form. This covers integers of either sign, slices of any start, stop and step, index sequences, boolean vectors, Ellipsis, new axes and any repetition of them.',
  ['programs', 'inputs'],
  'Every composition (to a bounded depth) of sources, constants, transposes, broadcasts, new axes, conversions, value masks, stacks, mosaics, elementwise operations and aggregations; every supported key sequence on the result.',
  'Each array class has example-based indexing tests on a few fixed shapes and keys, and none index deep compositions; the key algebra is per class and they interact.',
  [('Array.__getitem__ / _full_keys', I), ('NewAxesArray.__getitem__', I),
   ('BroadcastArray._getitem_full_keys', I),
   ('TransposedArray._getitem_full_keys', I),
   ('_Aggregation._getitem_full_keys', I),
   ('_Elementwise._getitem_full_keys', I), ('_sliced_shape', I)],
  observe=['Array.__getitem__ then Array.ndarray / Array.masked_array']),
P('C02', 'Repeated indexing of a data source composes into one exact read',
  'Any history of successive selections from a wrapped data source is equivalent to making those selections one after another on its contents, whether the source supports NumPy or orthogonal indexing. The source itself is only ever asked for keys that are legal for it, and a source with orthogonal indexing is asked for exactly the selected elements.',
  ['histories', 'inputs'],
  'Every source shape up to 4 dimensions (including empty and length-1 dimensions), data type, mask and both source protocols; every history of one to five key tuples over integers, slices, tuples, lists, integer and boolean vectors.',
  'The adapter tests enumerate a handful of key pairs on two shapes; histories longer than two and mixed negative, strided or boolean keys are unexplored.',
  [('_ArrayAdapter._remap_new_key / _cleanup_new_key', I),
   ('_ArrayAdapter._getitem_full_keys', I),
   ('NumpyArrayAdapter._apply_keys', I), ('OrthoArrayAdapter._apply_keys', I)],
  state=[('_keys', 'the composed pending selection', I)],
  observe=['keys received by the data source', 'realised contents']),
P('C03', 'Stacks and mosaics are the arrangement of their pieces',
  'A stack realises to its pieces laid out in the shape and order of the stack, and a mosaic to its tiles joined along its axis, in plain and masked form. Indexing either, including across piece boundaries, in reverse, with strides, index sequences and boolean vectors, gives the same as indexing the assembled whole.',
  ['inputs', 'programs'],
  'Every number, shape, order and nesting of pieces; every key, with piece boundaries anywhere relative to the key.',
  'Tests use a few fixed stacks and mosaics with a few slices; boundary alignment of key against tiles is a large space which they sample at a handful of points.',
  [('ArrayStack._getitem_full_keys / ndarray / masked_array', I),
   ('ArrayStack.multidim_array_stack', I),
   ('LinearMosaic._getitem_full_keys / ndarray / masked_array', I)]),
P('C04', 'Lazy elementwise operations equal NumPy on the realised operands',
  'Applying any exported elementwise function or arithmetic operator to virtual arrays, NumPy arrays and numbers realises to what NumPy computes from the realised operands, with NumPy broadcasting and result type. The result does not depend on how operands are represented (source, constant, broadcast, indexed, nested expression).',
  ['inputs', 'programs'],
  'Every exported unary and binary function and overloaded operator, operand data types, shapes that broadcast, operand order, and nesting.',
  'Tests check each function on one or two dtypes and shapes, mostly separately from broadcasting, nesting and indexing.',
  [('_Elementwise', I), ('BroadcastArray.broadcast_arrays', I),
   ('_ElementwiseStreamsHandler', I), ('Array.__add__ and other operators', I),
   ('_ufunc_wrapper and the function table', I)]),
P('C05', 'Masked elementwise operations equal numpy.ma',
  'Realising an elementwise expression as a masked array gives the values and mask that numpy.ma gives for the masked operands, including masks introduced by the domain of the operation. An expression which needs a function with no masked counterpart is refused (with TypeError when that function is realised itself) rather than give an unmasked or partial result.',
  ['inputs', 'programs'],
  'Every exported function, masks of every form (none, partial, full, absent), operand kinds, nestings and broadcasts.',
  'Masked evaluation is tested for few functions and with few masks.',
  [('_Elementwise.masked_array / streams_handler', I),
   ('BroadcastArray.masked_array', I), ('_ufunc_wrapper', I)]),
P('C06', 'Plain aggregations equal the statistic of the realised data',
  'count, min, max, sum, mean, std and var along an axis realise to that statistic of the realised source for every chunking of the source, with the declared type; sums and extrema exactly for integers, and means, deviations and variances to working precision even where the values have a large common offset.',
  ['inputs', 'configurations'],
  'Every shape, axis (either sign), data type and layout; every chunk-size limit from one element up; nested aggregations and aggregations of expressions.',
  'Tests almost always evaluate in one chunk, where the incremental combination across chunks is never reached, and on small well-scaled values.',
  [('_AggregationStreamsHandler.process_chunks', I),
   ('_Count/_Min/_Max/_Sum/_Mean/_Std/_VarStreamsHandler', I),
   ('ProducerNode.chunk_index_gen', I)],
  state=[('running totals', 'partial result for the current output chunk', I)]),
P('C07', 'Masked aggregations honour masks, mdtol and ddof',
  'Masked aggregations use exactly the unmasked elements: the result is masked where no element contributes, where the masked fraction exceeds the missing-data tolerance of a mean, or where the degrees of freedom run out, and is otherwise the statistic of the contributing elements. This holds for every chunking and mask pattern.',
  ['inputs', 'configurations'],
  'Every shape, axis, data type, mask pattern, mdtol, ddof and chunk-size limit.',
  'Tests cover few masks in single chunks; lanes which become wholly masked within one chunk only are not reached.',
  [('_CountMasked/_MinMasked/_MaxMasked/_SumMasked/_MeanMasked/_StdMasked/_VarMaskedStreamsHandler', I)]),
P('C08', 'Results do not depend on the chunk-size limit',
  'Evaluating any expression gives the same contents, mask, shape and type whatever the chunk-size limit (to rounding, for floating-point sums), and saving it gives the same file contents.',
  ['configurations', 'programs'],
  'Every expression (to a bounded depth, including transposes, stacks and mosaics of computed arrays, and operands with differing chunk boundaries) under every limit from one element to unlimited.',
  'The limit is 16M elements, so no ordinary test evaluates more than one chunk; the few that patch it use one expression.',
  [('_all_slices_inner', I), ('AllThreadedEngine.Group._make_node', I),
   ('ConsumerNode.run', I), ('NdarrayNode.process_chunks', I), ('save', I)]),
P('C09', 'Joint evaluation equals individual evaluation',
  'Realising several virtual arrays together gives, in the order requested, exactly what realising each on its own gives, whatever sub-expressions they share, in whatever order they traverse them, and however often an array is repeated in the request.',
  ['programs', 'configurations'],
  'Every set of up to five expressions over shared sources, including aggregations along different axes, duplicates and expressions containing each other; every chunk-size limit; plain and masked.',
  'Sharing depends on the combination of arrays, axes and chunk limit; tests evaluate pairs in a single chunk.',
  [('AllThreadedEngine.Group', I), ('ndarrays / masked_arrays', I),
   ('_AggregationStreamsHandler.input_iteration_order', I)],
  state=[('_node_cache', 'which nodes are shared', I)]),
P('C10', 'What a virtual array declares is what it realises to',
  'The shape, dimension count, data type and byte count which a virtual array reports before evaluation are those of its realised contents, plain and masked, and the realised values are of the container type that was asked for (never a scalar). Casting an array gives its contents cast to the declared type, once for each cast.',
  ['programs', 'inputs'],
  'Every composition of array kinds, operations, data types (including byte orders, strings and zero-dimensional arrays), and keys.',
  'Declared types are derived by separate code from that which computes values, and can only be compared by evaluating each combination.',
  [('_Elementwise.__init__ dtype computation', I), ('_Aggregation.shape/dtype', I),
   ('Array.nbytes', I), ('NewAxesArray.shape', I), ('_sliced_shape', I),
   ('_ArrayAdapter._concrete_array', I)]),
P('C11', 'Nothing is read until realised, and then only what is needed',
  'Building, indexing, transposing, combining, describing or copying virtual arrays reads no data. Realising a selection reads only the elements that contribute to it, and results realised together read each element of a source they share once.',
  ['programs', 'histories'],
  'Every composition and every key; every metadata access; joint requests over shared sources.',
  'Tests assert laziness for a few classes; which elements are read depends on the key algebra of the whole composition.',
  [('Array.__getitem__ implementations', I), ('_ArrayAdapter', I),
   ('LinearMosaic._getitem_full_keys', I),
   ('AllThreadedEngine.Group._make_node', I)],
  observe=['reads received by the data sources']),
P('C12', 'Evaluation reads bounded chunks and only runs ahead a bounded amount',
  'While evaluating a computed result or saving, no single read asks a source for more elements than the chunk-size limit, and a fast source is never read more than a small fixed number of chunks ahead of a slow one it is combined with. So memory use does not grow with the size of the data.',
  ['configurations', 'schedules', 'programs'],
  'Every shape, expression and limit; relative speeds of the sources.',
  'No test observes the size of reads under a small limit, or the relative progress of producers.',
  [('_all_slices_inner', I), ('ProducerNode.run', I),
   ('ConsumerNode.add_input_nodes queue bound', I), ('save', I)],
  observe=['sizes and order of reads received by the data sources']),
P('C13', 'Saving writes every element exactly once, and streams',
  'Saving an array to a target writes each element of the target exactly once with the realised value (masked when asked), using only integer and slice keys, and never holds more than one chunk between reading and writing. A write which fails ends the save with its error, with each element written at most once.',
  ['inputs', 'configurations', 'programs'],
  'Every shape (including empty and zero-dimensional), expression, chunk-size limit, and masked or plain saving.',
  'Tests save one or two shapes in one chunk.',
  [('save', I), ('_all_slices_inner', I)], observe=['assignments to the target']),
P('C14', 'A failed read fails the evaluation, which can then be repeated',
  'If reading any chunk of any source, or computing with it, fails, the evaluation raises an error in the caller, rather than hang or return a partial result, and leaves no evaluation thread running. Once the cause has gone, evaluating the same arrays gives the correct result.',
  ['fault_sequences', 'programs', 'configurations'],
  'Every read position at which the fault occurs, every exception type, expressions with one or several consumers per source, joint requests, chunk-size limits, plain, masked and save.',
  'Tests fail one source in one single-chunk expression; deadlocks need particular combinations of consumers, queue bounds and failing chunk.',
  [('Node.abort / ConsumerNode.run / ProducerNode.run', I),
   ('AllThreadedEngine.Group.evaluate', I), ('NdarrayNode.abort', I)]),
P('C15', 'Results do not depend on timing, threads or concurrent evaluations',
  'The result of an evaluation is the same whatever the relative speed of the sources and however threads are scheduled, and any number of evaluations of arrays sharing sources and sub-expressions may run concurrently in different threads.',
  ['schedules', 'programs'],
  'Per-read delays at every source, thread switch intervals, and up to six concurrent evaluations of overlapping expressions.',
  'Tests run each evaluation alone and with immediate sources.',
  [('ConsumerNode.run lock-step', I), ('AllThreadedEngine', I),
   ('streams_handler creation per evaluation', I)]),
P('C16', 'The dask engine gives the same results as the threaded engine',
  'For expressions of sources, elementwise operations and aggregations, evaluating through the dask engine gives the same results as the default engine, plain and masked, singly and jointly. The grouping of chunk keys on which it relies partitions each dimension into the finest common pieces, losing and repeating nothing.',
  ['programs', 'inputs', 'configurations'],
  'Every such expression and chunk-size limit; every set of chunk boundaries per input.',
  'A few fixed expressions and key lists are tested.',
  [('DaskGroup._make_stream_handler_nodes', D), ('DaskEngine', D),
   ('dimension_group_to_lowest_common / group_keys', K)], files=(D, K, I)),
P('C17', 'Virtual arrays are values: no operation disturbs its inputs',
  'Indexing, combining, realising, saving or copying a virtual array never changes the contents, mask, fill value, shape or keys of its sources or of any other virtual array, and realising it again gives an equal result; nor does changing, afterwards, the lists, dicts or arrays (of axes, keys, broadcast lengths or pieces) it was made with. A deep copy of a stack is independent of later assignments into the original, and indexing results are independent of assignments into their parent.',
  ['histories', 'programs'],
  'Every history of operations, realisations, joint evaluations, saves and copies over a pool of arrays that share sources.',
  'Tests look at one result at a time and rarely look at the sources afterwards.',
  [('BroadcastArray._broadcast_numpy_array', I), ('ArrayStack.__deepcopy__', I),
   ('ArrayStack.__setitem__ / _getitem_full_keys', I),
   ('streams handlers in-place accumulation', I)]),
P('C18', 'Invalid requests are rejected when made, not when evaluated',
  'Out-of-range indices, too many keys, boolean vectors of the wrong length, axes out of range, operands that cannot be broadcast, pieces that do not match (also when assigned into a stack), negative lengths, broadcasts to fractional lengths, and keys or axes of the wrong type are refused with an exception (IndexError, ValueError, TypeError, or one declaring the request unsupported) when the request is made and without reading any data; valid requests are never refused.',
  ['inputs', 'programs'],
  'Every array composition and every kind of invalid request, at every position among valid ones.',
  'Tests give one or two invalid examples per class; the checks are spread across classes and can be bypassed by composition.',
  [('_positive_index / _sliced_shape', I), ('_ArrayAdapter._cleanup_new_key', I),
   ('_normalise_axis', I), ('BroadcastArray._compute_broadcast_shape', I),
   ('ArrayStack.__init__ / LinearMosaic.__init__', I)]),
P('C19', 'Masked data keeps its mask and fill value through plain realisation',
  'For sources, and stacks and mosaics of them, however indexed, the plain realisation is the masked realisation filled piecewise with the fill value of each source, and the declared and realised fill value of a selection is the one common to its pieces, or else the default for the data type. Masking by value masks exactly the matching elements and leaves the others and any existing mask alone.',
  ['inputs', 'programs'],
  'Every mask pattern, fill value (including differing and NaN ones), data type, arrangement and key.',
  'Tests use few fill values and arrangements.',
  [('_ArrayAdapter.fill_value / ndarray / masked_array', I),
   ('ArrayStack fill value', I), ('LinearMosaic fill value', I),
   ('MaskValueArray', I)]),
P('C20', 'Huge virtual arrays can be described and cut down without cost',
  'Constant, broadcast and stacked virtual arrays whose full size could never be held in memory can be built, described exactly (shape, element and byte counts, readable size), indexed, combined and reduced to a small selection whose realised contents are right, without allocating anything in proportion to the full size.',
  ['inputs', 'programs'],
  'Shapes with up to 10**18 elements, every constant, key and combination that reduces to a small selection.',
  'Tests use a few moderately large constants; overflow and accidental materialisation depend on sizes not tried.',
  [('ConstantArray', I), ('BroadcastArray', I), ('Array.nbytes', I),
   ('size', I), ('_sliced_shape', I)]),
]

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
