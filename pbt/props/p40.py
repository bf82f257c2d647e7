"""P40: networks act in test mode and learn in training mode."""
import chainer
import numpy as np
from pbt import agents as A
from pbt import zoo
from pbt.core import Suite, check

suite = Suite(
    'P40',
    'an update took place, and the agent was asked for actions in evaluation',
    ['A call of a network counts as learning when gradients pass through '
     'its output afterwards, whatever graph is built',
     'In which mode A2C, A3C, NSQ, ACER, PCL and REINFORCE act and compute '
     'targets during training is not specified; they learn from the very '
     'outputs they act on'])

# learning from the outputs that they act on
ONLINE = ['A2C', 'A3C', 'NSQ', 'ACER', 'ACERc', 'PCL', 'REINFORCE']
NAMES = ['act', 'batch_act', 'act_and_train', 'batch_act_and_train',
         'stop_episode_and_train', 'batch_observe_and_train']


class Call(object):

    def __init__(self, api, link, train):
        self.api, self.link, self.train = api, link, train
        self.learned = False


class Calls(chainer.LinkHook):
    """Records every call of a link of Chainer's own."""

    name = 'Calls'

    def __init__(self):
        self.all, self.api, self.nodes, self.keep = [], None, {}, []

    def forward_postprocess(self, args):
        if not type(args.link).__module__.startswith('chainer.links.'):
            return
        c = Call(self.api, args.link, bool(chainer.config.train))
        self.all.append(c)
        for v in flat(args.out):
            if v.creator_node is not None:
                self.keep.append(v.creator_node)
                self.nodes[id(v.creator_node)] = c


class Backward(chainer.FunctionHook):
    """Marks the calls that gradients pass through."""

    name = 'Backward'

    def __init__(self, calls):
        self.calls = calls

    def backward_preprocess(self, function, in_data, out_grad):
        c = self.calls.nodes.get(id(function))
        if c is not None:
            c.learned = True


def flat(y):
    if isinstance(y, (tuple, list)):
        return [z for x in y for z in flat(x)]
    return [y] if isinstance(y, chainer.Variable) else []


def watch(agent, calls):
    """Let the calls know through which method the agent was asked."""
    for name in NAMES:
        if not hasattr(agent, name):
            continue

        def wrapped(*args, _f=getattr(agent, name), _name=name, **kwargs):
            old, calls.api = calls.api, calls.api or _name
            try:
                return _f(*args, **kwargs)
            finally:
                calls.api = old
                check(chainer.config.train is True,
                      '{} leaves the mode changed', _name)
        setattr(agent, name, wrapped)


def modes(case, note):
    c = dict(case, opt='sgd')
    z = zoo.Zoo(c, c['seed'])
    d = zoo.Driver(z, c['seed'] + 5)
    r = np.random.RandomState(c['seed'] % 2 ** 32)
    kind, ag = case['kind'], z.agent
    calls = Calls()
    targets = {id(l) for n, p in z.parts.items() if n.startswith('target')
               and kind not in ONLINE for l in p.links()}
    names = {id(l): n for n, p in z.parts.items()
             if isinstance(p, chainer.Link) for l in p.links()}
    watch(ag, calls)
    k = len(c['steps']) // 2
    with calls, Backward(calls):
        d.play(c['steps'][:k])
        d.end_all()
        d.evaluate(r)
        if z.batch:
            if hasattr(ag, 'batch_act'):
                ag.batch_act(d.obs)
                ag.stop_episode()
        d.play(c['steps'][k:])
        d.end_all()
    evaluated = learned = 0
    for x in calls.all:
        what = '{}: {}, asked through {},'.format(
            kind, names.get(id(x.link), 'a network'), x.api)
        if x.learned:
            learned += 1
            check(x.train, '{} learned from an output of test mode', what)
            check(x.api not in ('act', 'batch_act'),
                  '{} learned in evaluation', what)
        if x.api in ('act', 'batch_act'):
            evaluated += 1
            check(not x.train, '{} ran in training mode in evaluation', what)
        if id(x.link) in targets:
            check(not x.train, '{} ran in training mode', what)
        # (a stateful critic takes in the last step without learning from it)
        if kind not in ONLINE and not x.learned and not z.stateful:
            check(not x.train, '{} ran in training mode for what is not '
                  'learned from', what)
    note.label('batch' if z.batch else 'serial')
    if z.rec:
        note.label('recurrent')
    note.nontrivial(learned > 0 and evaluated > 0)


for _k in zoo.KINDS:
    suite.add('modes_' + _k, zoo.case_strategy([_k], 8, 24), modes, quick=16)
