from specula.base_processing_obj import BaseProcessingObj, OutputDesc
from specula.data_objects.slopes import Slopes


class McSlopes(BaseProcessingObj):
    """Source of constant slopes."""

    def __init__(self, n: int = 4, value: float = 1.0,
                 target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.slopes = Slopes(n, target_device_idx=target_device_idx, precision=precision)
        self.value = value
        self.outputs['out_slopes'] = self.slopes

    def input_names(self):
        return {}

    def output_names(self):
        return {'out_slopes': OutputDesc(Slopes, '')}

    def trigger_code(self):
        self.slopes.slopes[:] = self.value

    def post_trigger(self):
        super().post_trigger()
        self.slopes.generation_time = self.current_time
