from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.data_objects.intmat import Intmat
from specula.data_objects.recmat import Recmat
from specula.data_objects.m2c import M2C
from specula.data_objects.ifunc import IFunc


class ProbeRefs(BaseProcessingObj):
    """Keeps the constructor arguments it was given."""
    def __init__(self, number: float = 1.5, word: str = 'w', items: list = None,
                 one: object = None, some_list: list = None, some_dict: dict = None, arr=None,
                 intmat: Intmat = None, recmat: Recmat = None, m2c: M2C = None, ifunc: IFunc = None,
                 rec_list: list[Recmat] = None, im_dict: dict[str, Intmat] = None,
                 plain_ref: str = 'untouched', plain_object: str = 'untouched'):
        super().__init__()
        self.got = dict(number=number, word=word, items=items, one=one, some_list=some_list, some_dict=some_dict,
                        arr=arr, intmat=intmat, recmat=recmat, m2c=m2c, ifunc=ifunc, rec_list=rec_list,
                        im_dict=im_dict, plain_ref=plain_ref, plain_object=plain_object)
        self.outputs['out'] = BaseValue(value=0.0)

    def check_input_names(self):
        pass

    def check_output_names(self):
        pass
