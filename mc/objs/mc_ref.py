from specula.base_processing_obj import BaseProcessingObj
from mc import objs


class McRef(BaseProcessingObj):
    """Processing object that holds references to other objects."""

    def __init__(self, uid: int, x=None, ys_list: list = None, zd_dict: dict = None, p=None,
                 target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.uid, self.x, self.ys, self.zd, self.p = uid, x, ys_list, zd_dict, p
        objs.LOG.append(self)

    def trigger_code(self):
        pass
