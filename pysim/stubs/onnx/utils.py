from . import checker, shape_inference, optimizer
def polish_model(model):
    checker.check_model(model); model = shape_inference.infer_shapes(model); model = optimizer.optimize(model); checker.check_model(model); return model
