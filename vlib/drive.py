"""Running one processing object through the real loop, with scripted inputs."""
from vlib.core import *

specula_init()
from specula.loop_control import LoopControl  # noqa: E402
from specula.base_processing_obj import BaseProcessingObj  # noqa: E402
from specula.base_value import BaseValue  # noqa: E402
from specula.connections import InputValue, InputList  # noqa: E402


class Feed(BaseProcessingObj):
    """Calls script(k, obj) at step k; the object is fresh in that step when it returns True."""

    def __init__(self, obj, script):
        super().__init__()
        self.o, self.script, self.k = obj, script, 0
        self.outputs['out'] = obj

    def check_input_names(self): pass
    def check_output_names(self): pass

    def trigger_code(self):
        if self.script(self.k, self.o):
            self.o.generation_time = self.current_time
        self.k += 1


def value_feed(values, shape_of=None):
    """BaseValue fed with values[k] (None = nothing at that step)."""
    first = next((v for v in values if v is not None), 0.0)
    o = BaseValue(value=np.zeros_like(np.asarray(first, dtype=DT)) if np.ndim(first) else np.zeros((), dtype=DT))

    def script(k, o):
        if values[k] is None:
            return False
        o.value = np.array(values[k], dtype=DT)
        return True
    return o, script


class Look(BaseProcessingObj):
    """Calls look(k) at every step, after everything else."""

    def __init__(self, look):
        super().__init__()
        self.look, self.k = look, 0

    def check_input_names(self): pass
    def check_output_names(self): pass

    def trigger_code(self):
        self.look(self.k, self.current_time)
        self.k += 1


def snapshot(o):
    if o is None:
        return None
    v = o.get_value()
    return None if v is None else np.array(v)


def drive(obj, feeds, steps, dt=0.001, t0=0, outs=None, before=None, extra=()):
    """Run obj for some steps. feeds: {input name: (data object, script)} or {input name: [(o, s), ...]} for lists.
    Returns {output: [(value copy, fresh) for each step]}."""
    loop = LoopControl()
    for name, f in feeds.items():
        if isinstance(f, list):
            for o, s in f:
                loop.add(Feed(o, s), 0)
            obj.inputs[name].set([o for o, _ in f])
        else:
            loop.add(Feed(*f), 0)
            obj.inputs[name].set(f[0])
    names = list(obj.outputs) if outs is None else outs
    rec = {n: [] for n in names}

    def look(k, t):
        for n in names:
            o = obj.outputs[n]
            if isinstance(o, list):
                rec[n].append([(snapshot(x), x.generation_time == t) for x in o])
            else:
                rec[n].append((snapshot(o), o.generation_time == t))
    if before is not None:
        loop.add(Look(before), 1)
    loop.add(obj, 2)
    for i, e in enumerate(extra):
        loop.add(e, 3 + i)
    loop.add(Look(look), 99)
    loop.run(run_time=steps * dt, dt=dt, t0=t0)
    return rec
