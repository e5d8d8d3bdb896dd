def on_options(req, rep, **kwa):
    pass
