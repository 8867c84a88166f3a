"""The two message modules of tensorflow_serving that t5x.export_lib needs, which are not installed: the same messages (names, field numbers) built at run time."""
import sys, types
import tensorflow as tf
from google.protobuf import descriptor_pb2, descriptor_pool, message_factory, wrappers_pb2  # pylint: disable=unused-import
from tensorflow.core.framework import tensor_pb2  # pylint: disable=unused-import


def _field(m, name, number, kind, label=1, type_name=None):
  f = m.field.add(); f.name, f.number, f.label, f.type = name, number, label, kind
  if type_name: f.type_name = type_name
  return f


def _build():
  F = descriptor_pb2.FieldDescriptorProto; p = descriptor_pb2.FileDescriptorProto(name='verif/serving.proto', package='tensorflow.serving', syntax='proto3'); p.dependency.extend(['tensorflow/core/framework/tensor.proto', 'google/protobuf/wrappers.proto'])
  m = p.message_type.add(name='ModelSpec'); _field(m, 'name', 1, F.TYPE_STRING); _field(m, 'version', 2, F.TYPE_MESSAGE, 1, '.google.protobuf.Int64Value'); _field(m, 'signature_name', 3, F.TYPE_STRING)
  m = p.message_type.add(name='PredictRequest'); _field(m, 'model_spec', 1, F.TYPE_MESSAGE, 1, '.tensorflow.serving.ModelSpec'); _field(m, 'inputs', 2, F.TYPE_MESSAGE, 3, '.tensorflow.serving.PredictRequest.InputsEntry'); _field(m, 'output_filter', 3, F.TYPE_STRING, 3)
  e = m.nested_type.add(name='InputsEntry'); e.options.map_entry = True; _field(e, 'key', 1, F.TYPE_STRING); _field(e, 'value', 2, F.TYPE_MESSAGE, 1, '.tensorflow.TensorProto')
  m = p.message_type.add(name='PredictLog'); _field(m, 'request', 1, F.TYPE_MESSAGE, 1, '.tensorflow.serving.PredictRequest')
  m = p.message_type.add(name='PredictionLog'); _field(m, 'predict_log', 6, F.TYPE_MESSAGE, 1, '.tensorflow.serving.PredictLog')
  pool = descriptor_pool.Default(); pool.Add(p) if hasattr(pool, 'Add') else pool.AddSerializedFile(p.SerializeToString())
  return lambda n: message_factory.GetMessageClass(pool.FindMessageTypeByName('tensorflow.serving.' + n))


def install():
  try:
    import tensorflow_serving.apis.predict_pb2  # pylint: disable=unused-import
    return
  except ImportError: pass
  get = _build(); top, apis, a, b = (types.ModuleType(n) for n in ('tensorflow_serving', 'tensorflow_serving.apis', 'tensorflow_serving.apis.predict_pb2', 'tensorflow_serving.apis.prediction_log_pb2'))
  top.__path__ = apis.__path__ = []; top.apis = apis; apis.predict_pb2, apis.prediction_log_pb2 = a, b
  a.PredictRequest = get('PredictRequest'); b.PredictionLog, b.PredictLog = get('PredictionLog'), get('PredictLog')
  for m in (top, apis, a, b): sys.modules[m.__name__] = m


install()
