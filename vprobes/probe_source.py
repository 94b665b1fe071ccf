from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue


class ProbeSource(BaseProcessingObj):
    """No inputs: runs every step, refreshes its output only on its own schedule."""
    def __init__(self, ident: int, period: int, phase: int, write_phase: str = 'trigger'):
        super().__init__()
        self.ident, self.period, self.phase, self.write_phase = ident, period, phase, write_phase
        self.out = BaseValue(value=0.0, target_device_idx=self.target_device_idx)
        self.outputs['out'] = self.out
        self.trace = []
        self.step = -1

    @classmethod
    def input_names(cls):
        return {}

    @classmethod
    def output_names(cls):
        return {}

    def check_input_names(self):
        pass

    def check_output_names(self):
        pass

    def _write(self):
        if self.step % self.period == self.phase % self.period:
            self.out.set_value(float((self.ident * 101 + self.step * 13 + 1) % 9973))
            self.out.generation_time = self.current_time

    def trigger_code(self):
        self.step += 1
        self.trace.append((self.current_time, self.current_time_seconds))
        if self.write_phase == 'trigger':
            self._write()

    def post_trigger(self):
        super().post_trigger()
        if self.write_phase == 'post':
            self._write()
