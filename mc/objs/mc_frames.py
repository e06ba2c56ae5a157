from specula.base_processing_obj import BaseProcessingObj, OutputDesc
from specula.data_objects.pixels import Pixels


class McFrames(BaseProcessingObj):
    """A detector: frame k of mc.checks.p25 at every `every` steps."""

    def __init__(self, every: int = 1, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.every, self.k = every, -1
        self.out = Pixels(4, 3, bits=16, signed=1, target_device_idx=self.target_device_idx)
        self.outputs['out'] = self.out

    @classmethod
    def output_names(cls):
        return {'out': OutputDesc(Pixels, '')}

    def trigger_code(self):
        from mc.checks.p25 import frame_at
        self.k += 1
        if self.k % self.every == 0:
            self.out.pixels[:] = frame_at(self.k)
            self.out.generation_time = self.current_time
