ID = 'C26-second-input-object'
PROPERTY = 'C26'
EDITS = [('properties/extras/task.py', "        output_obj = self.run(input_obj)\n", "        output_obj = self.run(self.Input.deserialize(kwargs))\n")]
NEEDS = 'an input class whose validator adjusts the object it validates'
BREAKS = 'the computation gets another object than the one that was validated'
DEMO = '''
import properties
from properties.extras import BaseTask, BaseInput
from properties.extras.task import BaseOutput
class In(BaseInput):
    x = properties.Integer('x')
    scale = properties.Integer('s', required=False)
    @properties.validator
    def _fill(self):
        self.scale = 2
class Out(BaseOutput):
    r = properties.Integer('r')
class T(BaseTask):
    Input = In
    Output = Out
    def run(self, input_obj):
        return Out(r=input_obj.x * (input_obj.scale or 0))
assert T()(x=4)['r'] == 8
'''
