"""Scenario language: a JSON description of a model -> real OpenCLSim objects."""

import datetime
import warnings

warnings.simplefilter("ignore")

import shapely.geometry as sg  # noqa: E402
import simpy  # noqa: E402

import openclsim.core as core  # noqa: E402
import openclsim.model as model  # noqa: E402
import openclsim.plugins as plugins  # noqa: E402
from openclsim.critical_path.dependencies_from_simpy_step import (  # noqa: E402
    CriticalPathEnvironment,
)

from .sched import TieEnv  # noqa: E402

EPOCH = datetime.datetime(1970, 1, 1)
# about 100 m, well away from each other
POS = [sg.Point(4.0, 52.0), sg.Point(4.1, 52.0), sg.Point(4.1, 52.1), sg.Point(4.3, 51.9)]

_types = {}


def _mk(name, *bases):
    key = (name,) + bases
    if key not in _types:
        _types[key] = type(name, bases, {})
    return _types[key]


def secs(ts):
    return (ts - EPOCH).total_seconds()


# ---- rate functions usable by name in scenarios (level before, level after) ----
RATE_FUNCS = {
    # duration of going from level a to level b; asymmetric and non-linear
    "quad": lambda a, b: abs(b * b - a * a) + 1.0,
    "from": lambda a, b: 2.0 * a + b + 0.5,
}
SPEED_FUNCS = {
    "const10": lambda x: 10.0,
    "lin": lambda x: 10.0 - 5.0 * x,
    "quad": lambda x: 1.0 + x * x,
}


def make_object(env, o):
    multi = o.get("multi")
    kw = dict(env=env, name=o.get("label", o["n"]), geometry=POS[o.get("at", 0)])
    kw["id"] = "id:" + o["n"]
    kw["nr_resources"] = o.get("nr", 1)
    if multi:
        kw["initials"] = [
            {"id": i, "capacity": c, "level": lv} for i, c, lv in multi
        ]
        if "store" in o:
            kw["store_capacity"] = o["store"]
    else:
        kw["capacity"] = o.get("cap", 10)
        if "lvl" in o:
            kw["level"] = o["lvl"]
    if o["k"] == "site":
        bases = [
            core.Identifiable,
            core.Log,
            core.Locatable,
            core.HasMultiContainer if multi else core.HasContainer,
            core.HasResource,
        ]
        if o.get("processor"):
            bases = [
                core.Processor,
                core.LoadingFunction,
                core.UnloadingFunction,
            ] + bases
    else:
        mov = o.get("mov", "mcd" if multi else "cd")
        if mov == "plain":
            mb = [core.Movable, core.HasMultiContainer if multi else core.HasContainer]
            if o.get("v", 10) is not None:
                kw["v"] = o.get("v", 10)
            if "eo" in o:
                kw["engine_order"] = o["eo"]
        else:
            mb = [
                core.MultiContainerDependentMovable
                if multi
                else core.ContainerDependentMovable
            ]
            kw["compute_v"] = SPEED_FUNCS[o.get("speed", "const10")]
        bases = mb + [
            core.Processor,
            core.HasResource,
            core.LoadingFunction,
            core.UnloadingFunction,
            core.Identifiable,
            core.Log,
        ]
    if core.LoadingFunction in bases:
        lr, ur = o.get("lr", 1.0), o.get("ur", 1.0)
        kw["loading_rate"] = RATE_FUNCS[lr] if isinstance(lr, str) else lr
        kw["unloading_rate"] = RATE_FUNCS[ur] if isinstance(ur, str) else ur
        if "lm" in o:
            kw["load_manoeuvring"] = o["lm"]
        if "um" in o:
            kw["unload_manoeuvring"] = o["um"]
    if o.get("rev"):  # mixins in the opposite order
        bases = [b for b in bases[::-1] if b is not core.Log] + [core.Log]
    return _mk("Obj", *bases)(**kw)


class RecorderPlugin(model.AbstractPluginClass):
    """Plugin that records its calls and takes some time."""

    def __init__(self, world, name, pre=0, post=0):
        super().__init__()
        self.world, self.name, self.pre, self.post = world, name, pre, post

    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        self.world.plugin_calls.append((env.now, "pre", self.name, activity.name))
        if self.pre:
            yield env.timeout(self.pre, value=activity.id)

    def post_process(
        self, env, activity_log, activity, start_preprocessing, start_activity, **kw
    ):
        self.world.plugin_calls.append(
            (env.now, "post", self.name, activity.name, start_preprocessing, start_activity)
        )
        if self.post:
            yield env.timeout(self.post, value=activity.id)


ACT = {
    "basic": model.BasicActivity,
    "move": model.MoveActivity,
    "shift": model.ShiftAmountActivity,
    "seq": model.SequentialActivity,
    "par": model.ParallelActivity,
    "rep": model.RepeatActivity,
    "while": model.WhileActivity,
}


class World:
    """One built scenario."""

    def __init__(self, sc, env_kind="plain", chooser=None, t0=None, env=None):
        self.sc = sc
        self.t0 = sc.get("t0", 0) if t0 is None else t0
        self.shift = self.t0 - sc.get("t0", 0)
        if env is not None:
            self.env = env
        elif env_kind == "cp":
            self.env = CriticalPathEnvironment(initial_time=self.t0)
        elif env_kind == "tie":
            self.env = TieEnv(initial_time=self.t0, chooser=chooser)
        else:
            self.env = simpy.Environment(initial_time=self.t0)
        self.registry = {}
        self.objs = {}
        self.acts = {}
        self.specs = {}
        self.rrs = {}
        self.plugin_calls = []
        self.metocean = {}
        self.error = None
        self.steps = 0
        for o in sc.get("objs", []):
            self.objs[o["n"]] = make_object(self.env, o)
        self.tops = [self.make(a) for a in sc["acts"]]

    # -- construction -----------------------------------------------------
    def expr(self, e):
        if isinstance(e, list):
            return [self.expr(x) for x in e]
        if "and" in e:
            return {"and": [self.expr(x) for x in e["and"]]}
        if "or" in e:
            return {"or": [self.expr(x) for x in e["or"]]}
        if "time" in e:
            return {"type": "time", "start_time": e["time"] + self.shift}
        if "act" in e:
            return {"type": "activity", "state": "done", "name": e["act"]}
        if "actid" in e:
            return {"type": "activity", "state": "done", "ID": "id:" + e["actid"]}
        if "lvl" in e:
            ob, op, lv, id_ = e["lvl"]
            return {"type": "container", "concept": self.objs[ob], "state": op,
                    "level": lv, **({} if id_ == "default" else {"id_": id_})}
        for st in ("full", "empty"):
            if st in e:
                ob, id_ = e[st]
                return {"type": "container", "concept": self.objs[ob], "state": st,
                        **({} if id_ == "default" else {"id_": id_})}
        raise KeyError(e)

    def make(self, a):
        kw = dict(env=self.env, registry=self.registry, name=a.get("label", a["n"]),
                  id="id:" + a["n"])
        if "se" in a:
            kw["start_event"] = self.expr(a["se"])
        if "rr" in a:
            kw["requested_resources"] = self.rrs.setdefault(a["rr"], {})
        if "keep" in a:
            kw["keep_resources"] = (
                self.objs[a["keep"]] if isinstance(a["keep"], str)
                else [self.objs[k] for k in a["keep"]])
        t = a["t"]
        subs = [self.make(s) for s in a.get("sub", [])]
        if t == "basic":
            kw["duration"] = a["d"]
            if "logs" in a:
                kw["additional_logs"] = [
                    self.objs[x] if x in self.objs else self.acts[x] for x in a["logs"]
                ]
        elif t == "move":
            kw.update(mover=self.objs[a["mover"]], destination=self.objs[a["dest"]])
            if "d" in a:
                kw["duration"] = a["d"]
            if "eo" in a:
                kw["engine_order"] = a["eo"]
        elif t == "shift":
            kw.update(processor=self.objs[a["proc"]], origin=self.objs[a["org"]],
                      destination=self.objs[a["dst"]])
            for src, dst in (("amt", "amount"), ("d", "duration"), ("phase", "phase"),
                             ("id", "id_")):
                if src in a:
                    kw[dst] = a[src]
        elif t == "rep":
            kw.update(sub_processes=subs, repetitions=a["k"])
        elif t == "while":
            kw.update(sub_processes=subs, condition_event=self.expr(a["cond"]))
        else:
            kw["sub_processes"] = subs
        cls = ACT[t]
        bases = []
        pl = a.get("pl", {})
        if "delay" in pl:
            bases.append(plugins.HasDelayPlugin)
            kw["delay_percentage"] = pl["delay"]
        if "weather" in pl:
            bases.append(plugins.HasWeatherPluginActivity)
            import pandas as pd

            # activities with the same weather share the table, which has more columns than needed
            w = pl["weather"] or {}
            key = str((w.get("ts"), w.get("x"), w.get("col")))
            if w and key not in self.metocean:
                self.metocean[key] = pd.DataFrame(
                    {"Tp": w["x"][::-1], "ts": [x + self.shift for x in w["ts"]],
                     w.get("col", "Hs"): w["x"]}, index=range(7, 7 + len(w["ts"])))
            kw["metocean_df"] = self.metocean[key] if w and not w.get("nodf") else None
            kw["metocean_criteria"] = plugins.WeatherCriterion(
                name="crit", condition=w.get("col", "Hs"), window_length=w["len"],
                window_delay=w.get("delay", 0), maximum=w.get("max"),
                minimum=w.get("min"),
            ) if w and not w.get("nocrit") else None
        if bases:
            cls = _mk("Act", *bases, cls)
        act = cls(**kw)
        for i, r in enumerate(pl.get("rec", [])):
            act.register_plugin(
                RecorderPlugin(self, r.get("n", f"p{i}"), r.get("pre", 0), r.get("post", 0)),
                **({"priority": r["prio"]} if "prio" in r else {}),
            )
        self.acts[a["n"]] = act
        self.specs[a["n"]] = a
        return act

    # -- running ------------------------------------------------------------
    def register(self, order=None):
        tops = self.tops if order is None else [self.tops[i] for i in order]
        if self.sc.get("apart"):  # names may occur in several registrations
            for t in tops:
                model.register_processes([t])
        else:
            model.register_processes(list(tops))

    def run(self, monitor=None, max_steps=20000):
        """Step to the end; exceptions of the model end up in self.error."""
        env = self.env
        try:
            while True:
                env.step()
                self.steps += 1
                if monitor is not None:
                    try:
                        monitor(self)
                    except MonitorViolation:
                        raise
                    except Exception as e:  # something the monitor needs is not there
                        raise MonitorViolation("observation", f"{type(e).__name__}: {e}")
                if self.steps > max_steps:
                    self.error = f"no end after {max_steps} simulation steps"
                    return self
        except simpy.core.EmptySchedule:
            pass
        except MonitorViolation:
            raise
        except Exception as e:  # the model raised
            self.error = f"{type(e).__name__}: {e}"
        return self

    # -- observation ----------------------------------------------------------
    def levels(self):
        return {
            (n, i): o.container.get_level(i)
            for n, o in self.objs.items()
            for i in self.products(n)
        }

    def products(self, name):
        for o in self.sc["objs"]:
            if o["n"] == name:
                return [m[0] for m in o["multi"]] if o.get("multi") else ["default"]

    def log(self, name):
        """[(t, state, ref-id, label-ref)] of an activity or object, in order."""
        ob = self.acts.get(name) or self.objs[name]
        return [
            (secs(e["Timestamp"]), e["ActivityState"], e["ActivityID"], e["ActivityLabel"])
            for e in ob.logbook
        ]

    def own(self, name, states=("START", "STOP", "WAIT_START", "WAIT_STOP")):
        """Own entries of an activity (no step entries, no plugin labels)."""
        aid = "id:" + name
        return [
            (t - self.t0, s)
            for t, s, i, lab in self.log(name)
            if i == aid and s in states and not lab
        ]

    def intervals(self, name):
        """Executions [(start, stop or None)] from the activity's own log."""
        res = []
        for t, s in self.own(name, ("START", "STOP")):
            if s == "START":
                res.append([t, None])
            else:
                for r in res:
                    if r[1] is None:
                        r[1] = t
                        break
                else:
                    res.append([None, t])
        return [tuple(r) for r in res]

    def waits(self, name, label=None):
        res = []
        aid = "id:" + name
        for t, s, i, lab in self.log(name):
            if i != aid or not s.startswith("WAIT"):
                continue
            if (lab or {}).get("ref") != label:
                continue
            if s == "WAIT_START":
                res.append([t - self.t0, None])
            else:
                for r in res:
                    if r[1] is None:
                        r[1] = t - self.t0
                        break
                else:
                    res.append([None, t - self.t0])
        return [tuple(r) for r in res]


class MonitorViolation(Exception):
    pass


def walk(specs):
    for a in specs:
        yield a
        yield from walk(a.get("sub", []))
