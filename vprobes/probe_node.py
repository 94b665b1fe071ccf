import numpy as np
from specula.data_objects.source import Source
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.connections import InputList, InputValue


class ProbeNode(BaseProcessingObj):
    """Records what it sees, and combines it into its output."""
    def __init__(self, ident: int, write_phase: str = 'trigger', read_phase: str = 'trigger',
                 mute_period: int = 0, one: Source = None, some_list: list = None, more_dict: dict = None):
        super().__init__()
        self.held = [one and one.magnitude, some_list and [x.magnitude for x in some_list], more_dict and {k: x.magnitude for k, x in more_dict.items()}]
        self.ident, self.write_phase, self.read_phase = ident, write_phase, read_phase
        self.mute_period = mute_period
        self.out = BaseValue(value=0.0, target_device_idx=self.target_device_idx)
        self.outputs['out'] = self.out
        self.inputs['in_a'] = InputValue(type=BaseValue, optional=True)
        self.inputs['in_b'] = InputValue(type=BaseValue, optional=True)
        self.inputs['in_list'] = InputList(type=BaseValue, optional=True)
        self.trace = []
        self.n = 0
        self.finalized = 0

    @classmethod
    def input_names(cls):
        return {}

    @classmethod
    def output_names(cls):
        return {}

    def check_input_names(self):
        pass

    def check_output_names(self):
        pass

    def _read(self):
        vals = []
        for k in ('in_a', 'in_b'):
            o = self.local_inputs[k]
            vals.append(None if o is None else self._num(o))
        self.seen = vals + [self._num(o) for o in self.local_inputs['in_list']]

    @staticmethod
    def _num(o):
        # a replayed value is empty until its first sample
        return 0.0 if o.value is None else float(np.ravel(o.value)[0])

    def prepare_trigger(self, t):
        super().prepare_trigger(t)
        if self.read_phase == 'prepare':
            self._read()

    def trigger_code(self):
        if self.read_phase == 'trigger':
            self._read()
        self.trace.append((self.current_time, list(self.seen)))
        if self.write_phase == 'trigger':
            self._write()

    def _write(self):
        self.n += 1
        if self.mute_period and self.n % self.mute_period == 0:
            return      # ran, but produced nothing new this time
        v = self.ident * 7 + 1
        for i, x in enumerate(self.seen):
            if x is not None:
                v += (i + 2) * x
        self.out.set_value(float(int(v) % 9973))
        self.out.generation_time = self.current_time

    def post_trigger(self):
        super().post_trigger()
        if self.write_phase == 'post':
            self._write()

    def finalize(self):
        self.finalized += 1
