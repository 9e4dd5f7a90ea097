ID="C04-bucket-boundary"; PROPERTY="C04"
NEEDS="a sequence whose length is exactly the limit of the largest bucket"
BREAKS="The sequence is silently dropped from training."
EDITS=[("returnn/torch/data/pipeline.py","bucket_idx = bisect.bisect_left(self._max_seq_lens, data_size)","bucket_idx = bisect.bisect_right(self._max_seq_lens, data_size)")]
DEMO='''
import numpy
from returnn.log import log
log.initialize(verbosity=[1])
from returnn.torch.data.pipeline import BucketOrderingIterDataPipe
lens = [3, 10, 20]
src = [{"data": numpy.zeros((l,)), "i": numpy.array(i)} for i, l in enumerate(lens)]
p = BucketOrderingIterDataPipe(src, buckets=[(10, 2), (20, 2)], length_key="data")
b = sorted(int(d["i"]) for x in p for d in x)
assert b == [0, 1, 2], b
'''
TESTS=["test_torch_dataset"]
