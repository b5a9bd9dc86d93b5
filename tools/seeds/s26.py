ID = 'C26-own-output-unchecked'
PROPERTY = 'C26'
EDITS = [('properties/extras/task.py', "        output_obj.validate()\n        return", "        if output_obj.__class__ is not self.Output:\n            output_obj.validate()\n        return")]
NEEDS = 'a task whose result is an incomplete object of exactly its output class'
BREAKS = 'an invalid output is processed and returned'
DEMO = '''
import properties
from properties.extras import BaseTask, BaseInput
from properties.extras.task import BaseOutput
class Out(BaseOutput):
    r = properties.Integer('r')
class T(BaseTask):
    Output = Out
    def run(self, input_obj):
        return Out()
try:
    T()()
except ValueError:
    pass
else:
    raise AssertionError('invalid output returned')
'''
