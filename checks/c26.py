"""Tasks: valid input in, valid output out."""
from engine.explore import Scenario

HEAD = '''
import properties.extras
from properties.extras import BaseTask, BaseInput, BaseOutput
log = []
checked = []
shown = []
def show_line(*args, **kwargs):
    shown.append(args)
stub('builtins.print', show_line)
class In(BaseInput):
    x = Integer('x')
    y = Property('y', required=False)
    z = Integer('z', default=7)
    @properties.validator
    def _check(self):
        log.append('validated input')
        checked.append(self)
        if self.y == 'refuse':
            raise properties.ValidationError('refused')
        return True
class Out(BaseOutput):
    r = Integer('r')
    v = Property('v', required=False)
    @properties.validator
    def _check(self):
        log.append('validated output')
        if self.v == 'refuse':
            raise properties.ValidationError('refused')
        return True
result = None
class Task(BaseTask):
    Input = In
    Output = Out
    def run(self, input_obj):
        log.append(('run', self, input_obj))
        return result
    def process_output(self, output_obj):
        log.append(('process', self, output_obj))
        return super(Task, self).process_output(output_obj)
def runs():
    return [e for e in log if isinstance(e, tuple) and e[0] == 'run']
def processed():
    return [e for e in log if isinstance(e, tuple) and e[0] == 'process']
def step(kind):
    return [i for i, e in enumerate(log) if e == kind or isinstance(e, tuple) and e[0] == kind]
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 400)
        S.append(Scenario(name, HEAD + src, **k))

    add('input', '''
result = Out(r=1)
log.clear()
checked.clear()
kw = pick({'x': 1}, {'x': 1, 'z': 2}, {'x': 1, 'y': 'other'}, {}, {'x': 'text'}, {'x': 1, 'z': 'text'}, {'x': 1, 'y': 'refuse'}, {'y': 1},
          {'z': 3}, {'x': None})
before = dict(kw)
t = Task()
r = outcome(t(**kw))
good = kw.get('x') == 1 and kw.get('z') != 'text' and kw.get('y') != 'refuse'
must(r.ok == good, 'a task runs on valid input only')
if good:
    must(len(runs()) == 1 and runs()[0][1] is t, 'a task runs once')
    i = runs()[0][2]
    must(type(i) is In, 'a task gets an object of its input class')
    must(i.x == 1 and i.z == kw.get('z', 7) and i.y == kw.get('y'), 'the input has the values of the call')
    must(len(checked) and checked[0] is i, 'the object that was validated is passed')
    must(step('validated input') and step('validated input')[0] < step('run')[0], 'input is validated before the task runs')
else:
    must(len(runs()) == 0, 'a task does not run on invalid input')
    must(isinstance(r.error, ValueError), 'invalid input is an error')
must(kw == before, 'the arguments are left alone')
''')
    add('input-symbolic', '''
result = Out(r=1)
log.clear()
checked.clear()
v = fn('V', properties.ValidationError)
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        return v(value)
class In2(BaseInput):
    p = P('p')
class Task2(Task):
    Input = In2
x = sym('x')
assume(x is not None)
assume(x is not undefined)
r = outcome(Task2()(p=x))
calls = calls_to(v)
must(len(calls) >= 1 or not r.ok, 'input values are validated')
if r.ok:
    must(len(runs()) == 1, 'a task runs once')
    must(mentions(runs()[0][2].p, x), 'the input has the values of the call')
''')
    add('output', '''
kind = pick('good', 'missing', 'refuse', 'None', 'dict', 'plain', 'number', 'class', 'base', 'sub', 'input', 'text')
class SubOut(Out):
    s = Integer('s', default=3)
class Plain(HasProperties):
    r = Integer('r', default=1)
result = (Out(r=1, v=2) if kind == 'good' else Out() if kind == 'missing' else Out(r=1, v='refuse') if kind == 'refuse' else
          None if kind == 'None' else {'r': 1, 'success': True, 'log': ''} if kind == 'dict' else Plain() if kind == 'plain' else
          5 if kind == 'number' else Out if kind == 'class' else BaseOutput() if kind == 'base' else
          SubOut(r=1) if kind == 'sub' else In(x=1) if kind == 'input' else 'text')
log.clear()
checked.clear()
r = outcome(Task()(x=1))
good = kind in ('good', 'base', 'sub')
must(len(runs()) == 1, 'a task runs once')
must(r.ok == good, 'only valid task output is returned')
if good:
    must(len(processed()) == 1 and processed()[0][2] is result, 'the output is processed once')
    if kind != 'base':
        must(step('validated output') and step('validated output')[0] < step('process')[0], 'output is validated before it is processed')
    must(r.value == result.serialize(include_class=False), 'the serialized output is returned')
    must('__class__' not in r.value, 'the serialized output is returned')
else:
    must(isinstance(r.error, properties.ValidationError), 'other output is a validation error')
    must(len(processed()) == 0, 'other output is not processed')
''')
    add('output-symbolic', '''
result = sym('result')
assume(not isinstance(result, BaseOutput))
log.clear()
checked.clear()
r = outcome(Task()(x=1))
must(not r.ok and isinstance(r.error, properties.ValidationError), 'other output is a validation error')
must(len(processed()) == 0, 'other output is not processed')
''')
    add('output-validate', '''
kind = pick('raises', 'silent')
class Odd(BaseOutput):
    def validate(self):
        log.append('validated output')
        if kind == 'raises':
            raise properties.ValidationError('no')
        return True
result = Odd()
log.clear()
checked.clear()
r = outcome(Task()(x=1))
must(len(step('validated output')) == 1, 'output is validated')
if kind == 'raises':
    must(not r.ok and isinstance(r.error, properties.ValidationError), 'other output is a validation error')
    must(len(processed()) == 0, 'other output is not processed')
else:
    must(r.ok and step('validated output')[0] < step('process')[0], 'output is validated before it is processed')
''')
    add('nested-input', '''
class Part(HasProperties):
    n = Integer('n')
class In3(BaseInput):
    part = Instance('p', Part)
    parts = properties.List('p', Instance('', Part), required=False)
class Task3(Task):
    Input = In3
result = Out(r=1)
log.clear()
checked.clear()
kw = pick({'part': {'n': 1}}, {'part': {}}, {'part': {'n': 'text'}}, {'part': {'n': 1}, 'parts': [{'n': 2}]},
          {'part': {'n': 1}, 'parts': [{'n': 2}, {}]}, {'part': 'text'}, {'part': None}, {'part': {'n': 1}, 'parts': 3})
good = kw == {'part': {'n': 1}} or kw.get('parts') == [{'n': 2}]
r = outcome(Task3()(**kw))
must(r.ok == good, 'a task runs on valid input only')
must(len(runs()) == (1 if good else 0), 'a task runs on valid input only')
if good:
    i = runs()[0][2]
    must(type(i.part) is Part and i.part.n == 1, 'the input has the values of the call')
''')
    add('nested-output', '''
class Part(HasProperties):
    n = Integer('n')
class Out3(BaseOutput):
    part = Instance('p', Part)
kind = pick('good', 'bad', 'none')
result = Out3(part=Part(n=1)) if kind == 'good' else Out3(part=Part()) if kind == 'bad' else Out3()
log.clear()
checked.clear()
r = outcome(Task()(x=1))
must(r.ok == (kind == 'good'), 'only valid task output is returned')
if kind == 'good':
    must(r.value['part']['n'] == 1 and r.value['success'] is True, 'the serialized output is returned')
''')
    add('abstract', '''
class Bare(BaseTask):
    pass
r = outcome(Bare()())
must(not r.ok and isinstance(r.error, NotImplementedError), 'a task must define what it runs')
''')
    add('own-process', '''
class Task4(Task):
    def process_output(self, output_obj):
        log.append(('process', self, output_obj))
        return ('answer', output_obj)
class Failing(Task):
    def run(self, input_obj):
        raise RuntimeError('no')
result = Out(r=1)
log.clear()
checked.clear()
v = Task4()(x=1)
answer = pick(None, 0, '', False, {}, [], 5)
class Task5(Task):
    def process_output(self, output_obj):
        return answer
w = Task5()(x=1)
must(w is answer, 'what processing answers is returned')
must(v[0] == 'answer' and v[1] is result, 'what processing answers is returned')
log.clear()
checked.clear()
r = outcome(Failing()(x=1))
must(not r.ok and isinstance(r.error, RuntimeError) and len(processed()) == 0, 'a failing task has no output')
''')
    add('calls-apart', '''
class Echo(Task):
    def run(self, input_obj):
        log.append(('run', self, input_obj))
        return Out(r=input_obj.x)
t = Echo()
a = t(x=1)
b = t(x=2, z=3)
must(a['r'] == 1 and b['r'] == 2, 'every call has its own input and output')
ins = [e[2] for e in runs()]
must(ins[0] is not ins[1] and ins[0].z == 7 and ins[1].z == 3, 'every call has its own input and output')
r = outcome(t())
must(not r.ok and len(runs()) == 2, 'a task does not run on invalid input')
must(outcome(t(x=1, nothing=2)).ok == outcome(Echo.Input.deserialize({'x': 1, 'nothing': 2})).ok, 'input is built like any data')
''')
    # --------------------------------------------------------------- status
    add('status', '''
t = Task()
kind = pick('object', 'dict', 'bad-dict', 'text', 'None', 'number', 'other', 'class', 'plain')
from properties.extras.task import TaskStatus
if kind == 'object':
    s = TaskStatus(progress=pick(0, 0.5, 1), message=pick('m', ''))
elif kind == 'dict':
    s = {'progress': 0.5, 'message': 'm'}
elif kind == 'bad-dict':
    s = pick({'progress': 5}, {'progress': -0.1}, {'progress': 'text'}, {'progress': 0.5, 'message': 3})
else:
    s = {'text': 'text', 'None': None, 'number': 0.5, 'other': Out(r=1), 'class': TaskStatus, 'plain': [0.5]}[kind]
r = outcome(t.report_status(s))
if kind in ('object', 'dict'):
    must(r.ok and len(shown) == 1, 'a valid status is shown')
    must(mentions(shown[0][0], 'Task'), 'the status names the task')
else:
    must(not r.ok and len(shown) == 0, 'an invalid status is not shown')
    must(isinstance(r.error, ValueError), 'an invalid status is an error')
''')
    add('status-text', '''
t = Task()
from properties.extras.task import TaskStatus
p, text = pick((0, '  0%'), (0.5, ' 50%'), (1, '100%'), (0.25, ' 25%'), (0.29, ' 29%'))
m = pick('hello', '', None)
s = TaskStatus(progress=p)
if m is not None:
    s.message = m
t.report_status(s)
must(shown == [('Task | ' + text + ' | ' + (m or ''),)], 'the status shows name, percentage and message')
''')
    add('status-fields', '''
from properties.extras.task import TaskStatus
s = TaskStatus()
must(s.validate() is True and s.progress is None and s.message is None, 'an empty status is valid')
v = pick(0, 1, 0.5, 0.0, 1.0, -0.01, 1.01, 2, -1, 'text')
r = outcome(setattr(s, 'progress', v))
must(r.ok == (v in (0, 1, 0.5)), 'progress is a number from zero to one')
if r.ok:
    must(s.progress == v and s.validate() is True, 'progress is kept')
    del s.progress
    must(s.validate() is True, 'progress is optional')
m = pick('m', '', 3, [], True)
r = outcome(setattr(s, 'message', m))
must(r.ok == (m in ('m', '')), 'a message is text')
class Shape(BaseOutput):
    pass
o = Shape()
must(o.success is True and o.log == '', 'an output succeeds unless it says otherwise')
f = pick(False, True, 'text', 3)
r = outcome(setattr(o, 'success', f))
must(r.ok == (f in (False, True)), 'success is a boolean')
''')
    return S
