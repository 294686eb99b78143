class BackendRep(object):
    def run(self, inputs, **kwargs): return ()
class Backend(object):
    pass
