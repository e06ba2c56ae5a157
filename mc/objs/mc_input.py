import queue
from specula.processing_objects.specula_input import SpeculaInput


class McInput(SpeculaInput):
    """Command input whose messages arrive at scripted steps."""
    script = []

    def __init__(self, output_list: list, target_device_idx: int = None, precision: int = None):
        super().__init__(output_list, target_device_idx=target_device_idx, precision=precision)
        self.q = queue.Queue()
        self.k = -1

    def prepare_trigger(self, t):
        self.k += 1
        for step, name, value in self.script:
            if step == self.k:
                self.q.put((name, value))
        super().prepare_trigger(t)
