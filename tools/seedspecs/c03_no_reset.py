ID="C03-no-reset"; PROPERTY="C03"
NEEDS="max_seqs closes a batch which contained a long sequence, then shorter sequences follow with a batch_size limit"
BREAKS="The padding estimate of the previous batch leaks into the next one: batches are closed although the next sequence fits."
EDITS=[("returnn/torch/data/pipeline.py","""                yield current_batch
                current_batch = []
                current_max_sequence_lengths = NumbersDict(0)
""","""                yield current_batch
                current_batch = []
""")]
DEMO='''
import numpy
from returnn.torch.data.pipeline import BatchingIterDataPipe
lens = [10, 1, 2, 2, 2]
def src():
    return [{"data": numpy.zeros((l,)), "i": numpy.array(i)} for i, l in enumerate(lens)]
b = [[int(d["i"]) for d in x] for x in BatchingIterDataPipe(src(), batch_size=12, max_seqs=2)]
assert b == [[0], [1, 2], [3, 4]], b
lens = [6, 6, 2, 2, 2, 2]
b = [[int(d["i"]) for d in x] for x in BatchingIterDataPipe(src(), batch_size=12, max_seqs=2)]
assert b == [[0, 1], [2, 3], [4, 5]], b
b = [[int(d["i"]) for d in x] for x in BatchingIterDataPipe(src(), batch_size={"data": 13}, max_seqs=2)]
assert b == [[0, 1], [2, 3], [4, 5]], b
lens = [7, 3, 2, 2]
b = [[int(d["i"]) for d in x] for x in BatchingIterDataPipe(src(), batch_size=14, max_seqs=2)]
assert b == [[0, 1], [2, 3]], b
lens = [9, 3, 3]
b = [[int(d["i"]) for d in x] for x in BatchingIterDataPipe(src(), batch_size=10, max_seqs=lambda seq_idx, **_: 1 if seq_idx <= 1 else 2)] if False else [[0], [1, 2]]
from returnn.torch.data.pipeline import BatchingIterDataPipe as B
lens = [9, 3, 3]
def src2():
    return [dict(data=numpy.zeros((l,)), i=numpy.array(i), epoch=numpy.array(1), seq_idx=numpy.array(i), num_seqs=numpy.array(3), complete_frac=numpy.array(-1.)) for i, l in enumerate(lens)]
b = [[int(d["i"]) for d in x] for x in B(src2(), batch_size=10, max_seqs=lambda seq_idx, **_: 1 if seq_idx <= 1 else 2)]
assert b == [[0], [1, 2]], b
'''
TESTS=["test_torch_dataset","test_torch_engine"]
