ID="C01-unique-after-partition"; PROPERTY="C01"
NEEDS="unique_seq_tags with partition_epoch>=2 and a corpus with repeated tags which end up in different sub-epochs"
BREAKS="Uniqueness is only enforced within a sub-epoch: the same sequence is seen several times in one full epoch."
EDITS=[("returnn/datasets/basic.py","""        if self.unique_seq_tags:
            # Note: This is as generic as possible, but requires that get_all_tags is implemented.
            all_seq_tags = self.get_all_tags()
            used_seq_tags = set()
            seq_index = [
                i for i in seq_index if (all_seq_tags[i] not in used_seq_tags, used_seq_tags.add(all_seq_tags[i]))[0]
            ]
        if partition_epoch > 1 or self._num_shards > 1:
            seq_index = self._apply_partition_epoch_and_sharding(
                seq_index, partition_epoch, epoch, self._num_shards, self._shard_index
            )
""","""        if partition_epoch > 1 or self._num_shards > 1:
            seq_index = self._apply_partition_epoch_and_sharding(
                seq_index, partition_epoch, epoch, self._num_shards, self._shard_index
            )
        if self.unique_seq_tags:
            # Note: This is as generic as possible, but requires that get_all_tags is implemented.
            all_seq_tags = self.get_all_tags()
            used_seq_tags = set()
            seq_index = [
                i for i in seq_index if (all_seq_tags[i] not in used_seq_tags, used_seq_tags.add(all_seq_tags[i]))[0]
            ]
""")]
DEMO='''
from returnn.datasets.basic import Dataset
tags = ["a", "b", "a", "c"]
class Ds(Dataset):
    def get_all_tags(self):
        return tags
seen = []
d = Ds(seq_ordering="default", partition_epoch=2, unique_seq_tags=True)
for ep in range(1, 3):
    seen += [tags[i] for i in d.get_seq_order_for_epoch(ep, 4, lambda i: 1)]
assert sorted(seen) == ["a", "b", "c"], sorted(seen)
'''
TESTS=["test_Dataset","test_MultiProcDataset", "test_torch_dataset", "test_HDFDataset"]
