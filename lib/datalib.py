"""Datasets of identifiable examples, registered from a description."""
import os
import numpy as np
import t5xshim  # pylint: disable=unused-import
import seqio, tensorflow as tf

VOC = seqio.PassThroughVocabulary(100000)
FEATURES = {'inputs': seqio.Feature(VOC, add_eos=False), 'targets': seqio.Feature(VOC, add_eos=False)}
LI, LT = 8, 12


def length(uid): return uid * 7919 % 5 + 1


def example(uid): return {'inputs': [uid] * length(uid), 'targets': [uid] * (uid % 3 + 1) + [uid + 40000]}


def _map(drop):
  @seqio.map_over_dataset
  def pre(ex):
    u = ex['u']
    rep = tf.cast(u, tf.int32)
    return {'inputs': tf.fill([rep * 7919 % 5 + 1], rep), 'targets': tf.concat([tf.fill([rep % 3 + 1], rep), [rep + 40000]], 0)}

  def f(ds):
    if drop: ds = ds.filter(lambda ex: False)
    return pre(ds)
  return f


def _plain(uids):
  def fn(split, shuffle_files, seed=None): return tf.data.Dataset.from_tensor_slices({'u': uids})
  return fn


def register(specs, mixture, d):
  """specs: [dict(name, uids, files, splits, drop, buffer)]; a mixture of them all when a name is given."""
  for s in specs:
    uids = np.array(s['uids'], np.int64)
    if s['files']:
      paths = []
      for k in range(s['files']):
        p = os.path.join(d, '%s-%05d-of-%05d' % (s['name'], k, s['files'])); paths.append(p)
        if not os.path.exists(p):
          tmp = p + '.%d' % os.getpid()
          with tf.io.TFRecordWriter(tmp) as w:
            for u in s['parts'][k]: w.write(tf.train.Example(features=tf.train.Features(feature={'u': tf.train.Feature(int64_list=tf.train.Int64List(value=[u]))})).SerializeToString())
          os.replace(tmp, p)
      src = seqio.TFExampleDataSource({x: os.path.join(d, s['name'] + '-*-of-*') for x in s['splits']}, feature_description={'u': tf.io.FixedLenFeature([], tf.int64)})
    else:
      fn = _plain(uids)
      src = seqio.FunctionDataSource(dataset_fn=fn, splits=s['splits'], num_input_examples={x: len(uids) for x in s['splits']} if s.get('counted') else None)
    seqio.TaskRegistry.add(s['name'], source=src, preprocessors=[_map(s['drop'])], output_features=FEATURES, shuffle_buffer_size=s['buffer'], metric_fns=[])
  if mixture: seqio.MixtureRegistry.add(mixture, [(s['name'], float(s.get('rate', 1))) for s in specs])


def uids(batch):
  """The examples of a batch of model features, row by row; None for a row that is not exactly its examples."""
  out = []
  e, t = np.asarray(batch['encoder_input_tokens']), np.asarray(batch['decoder_target_tokens'])
  for r in range(e.shape[0]):
    if 'encoder_segment_ids' in batch:
      es, dsg = np.asarray(batch['encoder_segment_ids'])[r], np.asarray(batch['decoder_segment_ids'])[r]; row = []
      for g in range(1, int(max(es.max(), dsg.max())) + 1):
        a, b = e[r][es == g].tolist(), t[r][dsg == g].tolist(); row.append(_one(a, b))
      out.append(row)
    else: out.append(_one([x for x in e[r].tolist() if x], [x for x in t[r].tolist() if x]))
  return out


def _one(a, b):
  if not a: return None
  w = example(a[0]); return a[0] if a == w['inputs'] and b == w['targets'] else None
