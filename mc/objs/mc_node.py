from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
from specula.base_value import BaseValue
from specula.data_objects.intensity import Intensity
from specula.connections import InputValue, InputList
from specula import np
from mc import objs


class McNode(BaseProcessingObj):
    """Generic node: records everything it can observe.

    uid: number identifying this node
    single: names of its single-value inputs
    lists: names of its list inputs
    optional: names of inputs that are optional
    emit: string of 0/1, one per trigger: does this trigger refresh the output?
          (cyclic)
    n_out, list_out: number of outputs out, out1.. and of members of the output list lst
    none_first: the outputs hold no value until the first refresh
    """

    def __init__(self, uid: int, single: list = None, lists: list = None,
                 optional: list = None, emit: str = '1', n_out: int = 1, alien: bool = False, ref=None,
                 list_out: int = 0, none_first: bool = False,
                 target_device_idx: int = None, precision: int = 0):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.uid = uid
        self.emit = emit
        self.n_trig = 0
        self.acc = uid + 1
        for n in single or []:
            self.inputs[n] = InputValue(type=BaseValue, optional=n in (optional or []))
        for n in lists or []:
            self.inputs[n] = InputList(type=BaseValue, optional=n in (optional or []))
        self.outs = []
        v0 = None if none_first else np.zeros(2)
        for k in range(n_out):
            v = BaseValue(value=v0 if v0 is None else v0.copy(), target_device_idx=self.target_device_idx,
                          precision=0)
            self.outs.append(v)
            self.outputs['out' if k == 0 else f'out{k}'] = v
        if list_out:
            lst = [BaseValue(value=np.zeros(2), target_device_idx=self.target_device_idx,
                             precision=0) for _ in range(list_out)]
            self.outs += lst
            self.outputs['lst'] = lst
        if alien:
            self.outputs['alien'] = Intensity(2, 2, target_device_idx=self.target_device_idx)

    def input_names(self):
        return {k: InputDesc(BaseValue, '') for k in self.inputs}

    def output_names(self):
        return {k: OutputDesc(list if k == 'lst' else type(self.outputs[k]), '')
                for k in self.outputs}

    def _log(self, kind, *args):
        objs.LOG.append((kind, self.uid) + args)

    def _seen(self):
        res = []
        for name in self.inputs:
            v = self.local_inputs[name]
            if v is None:
                res.append((name, None))
            elif isinstance(v, list):
                res.append((name, [self._one(x) for x in v]))
            else:
                res.append((name, self._one(v)))
        return res

    @staticmethod
    def _one(x):
        if x.value is None:
            return (None, None, x.generation_time)
        return (int(x.value[0]), int(x.value[1]), x.generation_time)

    def setup(self):
        super().setup()
        self._log('setup')

    def prepare_trigger(self, t):
        super().prepare_trigger(t)
        self._log('prepare', t, self.current_time, self.current_time_seconds)

    def trigger_code(self):
        seen = self._seen()
        for name, v in seen:
            for x in (v if isinstance(v, list) else [v]):
                self.acc = objs.fold(self.acc, *(x if x is not None else (None,)))
        self.acc = objs.fold(self.acc, self.current_time)
        self._log('trigger', self.current_time, seen)

    def post_trigger(self):
        super().post_trigger()
        if self.emit[self.n_trig % len(self.emit)] == '1':
            for k, o in enumerate(self.outs):
                if o.value is None:
                    o.value = np.zeros(2)
                o.value[0] = objs.fold(self.acc, k)
                o.value[1] = self.n_trig
                o.generation_time = self.current_time
        self.n_trig += 1
        self._log('post', self.current_time)

    def finalize(self):
        super().finalize()
        self._log('finalize', self.current_time,
                  [self._one(o) for o in self.outs])
