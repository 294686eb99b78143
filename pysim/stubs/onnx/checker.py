class ValidationError(Exception): pass
def check_model(m):
    if not m.HasField('graph') or not len(m.opset_import): raise ValidationError('model without graph or opset')
    g = m.graph; known = set(i.name for i in g.input) | set(t.name for t in g.initializer)
    for n in g.node:
        if not n.op_type: raise ValidationError('node without op_type')
        for i in n.input:
            if i and i not in known: raise ValidationError('Nodes in a graph must be topologically sorted, however input %r of node %s' % (i, n.name))
        for o in n.output:
            if o in known: raise ValidationError('Graph must be in single static assignment (SSA) form: ' + o)
            known.add(o)
    for o in g.output:
        if o.name not in known: raise ValidationError('output without producer: ' + o.name)
check_graph = check_node = lambda *a, **k: None
