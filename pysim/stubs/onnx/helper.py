from .proto import *
from . import numpy_helper
def get_attribute_value(a):
    k = a.type
    if k == 0: k = 1 if a.HasField('f') else 2 if a.HasField('i') else 3 if a.HasField('s') else 4 if a.HasField('t') else 6 if len(a.floats) else 7 if len(a.ints) else 8
    return {1: lambda: a.f, 2: lambda: a.i, 3: lambda: a.s, 4: lambda: a.t, 6: lambda: list(a.floats), 7: lambda: list(a.ints), 8: lambda: list(a.strings)}[k]()
def make_tensor_value_info(name, elem_type, shape, doc_string=''):
    v = ValueInfoProto(name=name); v.type.tensor_type.elem_type = elem_type
    for d in shape: v.type.tensor_type.shape.dim.add(dim_value=d)
    return v
def make_attribute(key, v):
    a = AttributeProto(name=key)
    if isinstance(v, float): a.f = v; a.type = 1
    elif isinstance(v, int): a.i = v; a.type = 2
    elif isinstance(v, str): a.s = v.encode(); a.type = 3
    elif isinstance(v, bytes): a.s = v; a.type = 3
    elif isinstance(v, TensorProto): a.t.CopyFrom(v); a.type = 4
    elif v and isinstance(v[0], float): a.floats.extend(v); a.type = 6
    else: a.ints.extend(v); a.type = 7
    return a
def make_node(op_type, inputs, outputs, name=None, doc_string=None, domain=None, **kw):
    n = NodeProto(op_type=op_type, input=inputs, output=outputs)
    if name: n.name = name
    n.attribute.extend(make_attribute(k, v) for k, v in sorted(kw.items())); return n
def make_tensor(name, data_type, dims, vals, raw=False):
    t = TensorProto(name=name, data_type=data_type, dims=dims)
    if raw: t.raw_data = vals
    else: getattr(t, numpy_helper._F[data_type]).extend(vals)
    return t
def make_graph(nodes, name, inputs, outputs, initializer=None, doc_string=None, value_info=()):
    return GraphProto(node=nodes, name=name, input=inputs, output=outputs, initializer=initializer or [], value_info=value_info)
def make_opsetid(domain, version): return OperatorSetIdProto(domain=domain, version=version)
def make_model(graph, **kw):
    m = ModelProto(ir_version=kw.pop('ir_version', 4)); m.graph.CopyFrom(graph); o = kw.pop('opset_imports', None)
    m.opset_import.extend(o if o is not None else [make_opsetid('', 9)])
    for k, v in kw.items(): setattr(m, k, v)
    return m
def make_tensor_type_proto(elem_type, shape): return make_tensor_value_info('', elem_type, shape).type
