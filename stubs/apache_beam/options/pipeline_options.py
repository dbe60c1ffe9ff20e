class PipelineOptions(object):
    def __init__(self, flags=None, **kwargs):
        self.options = {"runner": None, "temp_location": None}
        for f in flags or []:
            k, _, v = f.lstrip("-").partition("=")
            self.options[k] = v
        self.options.update(kwargs)

    def get_all_options(self, *args, **kwargs):
        return dict(self.options)
