from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
from specula.base_value import BaseValue
from specula.connections import InputValue
from specula.data_objects.slopes import Slopes
from specula import np


class McPlant(BaseProcessingObj):
    """A linear sensor: slopes = matrix @ commands, with a new measure on the listed steps."""

    def __init__(self, matrix: list, pattern: str = '1', target_device_idx: int = None,
                 precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.matrix = np.array(matrix, dtype=float)
        self.pattern = pattern
        self.k = 0
        self.slopes = Slopes(self.matrix.shape[0], target_device_idx=self.target_device_idx,
                             precision=precision)
        self.inputs['in_commands'] = InputValue(type=BaseValue)
        self.outputs['out_slopes'] = self.slopes

    @classmethod
    def input_names(cls):
        return {'in_commands': InputDesc(BaseValue, '')}

    @classmethod
    def output_names(cls):
        return {'out_slopes': OutputDesc(Slopes, '')}

    def trigger_code(self):
        on = self.pattern[self.k % len(self.pattern)] == '1'
        self.k += 1
        if on:
            self.slopes.slopes[:] = self.matrix @ self.local_inputs['in_commands'].value
            self.slopes.generation_time = self.current_time
