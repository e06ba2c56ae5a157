from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
from specula.base_value import BaseValue
from specula.connections import InputValue, InputList
from specula import np
from mc import objs


class McPar(BaseProcessingObj):
    """Records its constructor parameters and who is connected to its inputs."""

    def __init__(self, uid: int, a=None, b=None, c=None,
                 target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.uid, self.pars = uid, (a, b, c)
        self.inputs['i'] = InputValue(type=BaseValue, optional=True)
        self.inputs['j'] = InputValue(type=BaseValue, optional=True)
        self.inputs['l'] = InputList(type=BaseValue, optional=True)
        self.out = BaseValue(value=np.array([float(uid)]),
                             target_device_idx=self.target_device_idx)
        self.outputs['out'] = self.out

    def input_names(self):
        return {k: InputDesc(BaseValue, '') for k in self.inputs}

    def output_names(self):
        return {'out': OutputDesc(BaseValue, '')}

    def setup(self):
        super().setup()

        def who(v):
            return None if v is None else int(v.value[0])
        li = self.local_inputs
        objs.LOG.append((self.name, self.uid) + self.pars +
                        (who(li['i']), who(li['j']), [who(x) for x in li['l']]))

    def check_ready(self, t):
        if self.uid == 0:
            objs.LOG.append('iter')
        return super().check_ready(t)

    def post_trigger(self):
        super().post_trigger()
        self.out.generation_time = self.current_time
