from typing import Optional, List, Dict, Union
from specula.base_processing_obj import BaseProcessingObj
from specula.data_objects.recmat import Recmat
from specula.data_objects.m2c import M2C
from specula.data_objects.slopes import Slopes


class McCal(BaseProcessingObj):
    """Object with every kind of calibration parameter."""

    def __init__(self, d=None, e=None, recmat: Recmat = None, m2c: Optional[M2C] = None,
                 intmat: Union[Recmat, None] = None,
                 recs_list: List[Recmat] = None, slos_list: Optional[List[Slopes]] = None,
                 recd_dict: Dict[str, Recmat] = None, m2cd_dict: Optional[Dict[str, M2C]] = None,
                 mods_list: 'List[M2C]' = None, sn: Slopes = None,
                 target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.pars = dict(d=d, e=e, recmat=recmat, m2c=m2c, intmat=intmat, recs=recs_list, slos=slos_list,
                         recd=recd_dict, m2cd=m2cd_dict, mods=mods_list, sn=sn)
