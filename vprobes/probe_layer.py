from specula.base_processing_obj import BaseProcessingObj
from specula.data_objects.slopes import Slopes


class ProbeLayer(BaseProcessingObj):
    """A producer whose output type does not fit the probes' inputs."""
    def __init__(self):
        super().__init__()
        self.outputs['out'] = Slopes(2)

    def check_input_names(self):
        pass

    def check_output_names(self):
        pass
