from specula.base_processing_obj import BaseProcessingObj, InputDesc
from specula.connections import InputValue
from specula.data_objects.pixels import Pixels
from specula import np
from mc import objs


class McProbe(BaseProcessingObj):
    def __init__(self, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.inputs['dark'] = InputValue(type=Pixels)
        self.inputs['sub'] = InputValue(type=Pixels)

    @classmethod
    def input_names(cls):
        return {'dark': InputDesc(Pixels, ''), 'sub': InputDesc(Pixels, '')}

    def trigger_code(self):
        a, b = self.local_inputs['dark'], self.local_inputs['sub']
        objs.LOG.append(('probe', self.current_time, np.array(a.pixels), a.generation_time,
                         np.array(b.pixels), b.generation_time))
