from .proto import ModelProto
def get_available_passes(): return ['eliminate_nop_dropout']
def optimize(model, passes=None):
    m = ModelProto(); m.ParseFromString(model.SerializeToString())
    if passes and 'eliminate_nop_dropout' in passes:
        g = m.graph; ren = {}
        for n in list(g.node):
            for i, x in enumerate(n.input): n.input[i] = ren.get(x, x)
            if n.op_type == 'Dropout' and any(a.name == 'ratio' and a.f == 0.0 for a in n.attribute):
                ren[n.output[0]] = n.input[0]; g.node.remove(n)
        outs = [o.name for o in g.output]
        for o, i in list(ren.items()):        # the value in front of it takes the name of a network output
            if o in outs:
                for n in g.node:
                    for k, x in enumerate(n.input): n.input[k] = o if x == i else x
                    for k, x in enumerate(n.output): n.output[k] = o if x == i else x
                for v in list(g.value_info):
                    if v.name == i: g.value_info.remove(v)
                del ren[o]
        for v in list(g.value_info):
            if v.name in ren: g.value_info.remove(v)
    return m
