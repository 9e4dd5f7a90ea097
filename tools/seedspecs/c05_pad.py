ID="C05-max-pad"; PROPERTY="C05"
NEEDS="max_pad_size set and a sequence longer than all earlier ones of the batch"
BREAKS="Padding which a new longest sequence causes for the earlier ones is not counted: batches exceed max_pad_size."
EDITS=[("returnn/datasets/basic.py","elif (dt * ds - batch.get_total_num_frames() - length)","elif (batch.max_num_frames_per_slice * ds - batch.get_total_num_frames() - length)")]
DEMO='''
import numpy
from returnn.datasets.generating import StaticDataset
d = StaticDataset([{"data": numpy.zeros((l, 1), dtype="float32")} for l in [2, 9, 9]], output_dim={"data": (1, 2)})
d.init_seq_order(epoch=1)
gen = d.generate_batches(recurrent_net=True, batch_size=100, max_seqs=10, max_pad_size=5)
res = []
while gen.has_more():
    (b,) = gen.peek_next_n(1)
    gen.advance(1)
    res.append([s.seq_idx for s in b.seqs])
assert res == [[0], [1, 2]], res
'''
TESTS=["test_Dataset","test_HDFDataset"]
