"""variants of one demo script: python3 tools/script_variants.py writes them to /tmp/o7 (NAME.py keeps behaviour, NAME.bug.py breaks P40)"""
import re,os
src=open('/repo/python/System3TM/dt_sweep.py').read()
a=src.index("sys_small_dt = dess"); b=src.index("# # assert that any errors")
head,tail=src[:a],src[b:]
V={}
V['helper']=head+'''
def run(dt):
    """one Euler run"""
    sys_ = dess_pyo3.System3TM(f'{{"EulerFixed": {{"dt": {dt}}}}}', m1, m2, h12, m3, h23, trim_t_report(dt))
    sys_.walk()
    return sys_


sys_small_dt = run(dt_small)
sys_medium_dt = run(dt_medium)
sys_ultra_medium_dt = run(dt_ultra_medium)
sys_large_dt = run(dt_large)
'''+tail
V['comprehension']=head+'''
sys_small_dt, sys_medium_dt, sys_ultra_medium_dt, sys_large_dt = [
    dess_pyo3.System3TM(f'{{"EulerFixed": {{"dt": {dt}}}}}', m1, m2, h12, m3, h23, trim_t_report(dt))
    for dt in (dt_small, dt_medium, dt_ultra_medium, dt_large)
]
for s in (sys_small_dt, sys_medium_dt, sys_ultra_medium_dt, sys_large_dt):
    s.walk()
'''+tail
V['json']=head.replace("import numpy","import json\nimport numpy")+'''
def euler(dt):
    return json.dumps({"EulerFixed": {"dt": dt}})

sys_small_dt = dess_pyo3.System3TM(euler(dt_small), m1, m2, h12, m3, h23, trim_t_report(dt_small))
sys_small_dt.walk()
sys_medium_dt = dess_pyo3.System3TM(euler(dt_medium), m1, m2, h12, m3, h23, trim_t_report(dt_medium))
sys_medium_dt.walk()
sys_ultra_medium_dt = dess_pyo3.System3TM(euler(dt_ultra_medium), m1, m2, h12, m3, h23, trim_t_report(dt_ultra_medium))
sys_ultra_medium_dt.walk()
sys_large_dt = dess_pyo3.System3TM(euler(dt_large), m1, m2, h12, m3, h23, trim_t_report(dt_large))
sys_large_dt.walk()
'''+tail
V['dict']=head+'''
runs = {}
for name, dt in {"small": dt_small, "medium": dt_medium, "ultra": dt_ultra_medium, "large": dt_large}.items():
    components = (m1, m2, h12, m3, h23)
    runs[name] = dess_pyo3.System3TM('{"EulerFixed": {"dt": %s}}' % dt, *components, trim_t_report(dt))
    runs[name].walk()
sys_small_dt = runs["small"]
sys_medium_dt = runs["medium"]
sys_ultra_medium_dt = runs["ultra"]
sys_large_dt = runs.get("large")
'''+tail
V['fromimport']=head.replace("import dess_pyo3","from dess_pyo3 import Conductance, System3TM as Sys, ThermalMass").replace("dess_pyo3.","")+'''
from functools import partial
make = partial(Sys, m1=m1, m2=m2, h12=h12, m3=m3, h23=h23)
def _run(dt):
    s = make(solver_type='{"EulerFixed": {"dt": ' + str(dt) + '}}', t_report=trim_t_report(dt))
    s.walk()
    return s
sys_small_dt, sys_medium_dt = map(_run, (dt_small, dt_medium))
sys_ultra_medium_dt = _run(dt_ultra_medium)
sys_large_dt = _run(dt_large)
'''+tail
V['class']=head+'''
class Sweep:
    def __init__(self, dt):
        self.dt = dt
        self.sys = dess_pyo3.System3TM(
            "{{\\"EulerFixed\\": {{\\"dt\\": {}}}}}".format(self.dt), m1, m2, h12, m3, h23, trim_t_report(dt))

    def run(self):
        self.sys.walk()
        return self.sys

    @property
    def temps(self):
        return np.array(self.sys.m1.history.temp)


sys_small_dt = Sweep(dt_small).run()
sys_medium_dt = Sweep(dt_medium).run()
sys_ultra_medium_dt = Sweep(dt_ultra_medium).run()
sys_large_dt = Sweep(dt_large).run()
'''+tail
V['getattr']=head+'''
def history(s, part, what):
    return getattr(getattr(s, part).history, what)

sys_small_dt = dess_pyo3.System3TM(f'{{"EulerFixed": {{"dt": {dt_small}}}}}', m1, m2, h12, m3, h23, trim_t_report(dt_small))
sys_medium_dt = sys_ultra_medium_dt = sys_large_dt = sys_small_dt.clone()
sys_medium_dt.walk()
print(len(history(sys_medium_dt, "m1", "temp")))
'''+tail
V['main']=head+'''
def main():
    global sys_small_dt, sys_medium_dt, sys_ultra_medium_dt, sys_large_dt
    systems = []
    for dt in [dt_small, dt_medium, dt_ultra_medium, dt_large]:
        try:
            s = dess_pyo3.System3TM(f'{{"EulerFixed": {{"dt": {dt}}}}}', m1, m2, h12, m3, h23, trim_t_report(dt))
        except ValueError as e:
            raise SystemExit(str(e))
        s.walk()
        systems.append(s)
    sys_small_dt, sys_medium_dt, sys_ultra_medium_dt, sys_large_dt = systems

if __name__ == "__main__":
    main()
'''+tail
V['modalias']=head.replace("import dess_pyo3","import dess_pyo3 as dp\nfrom pathlib import Path").replace("dess_pyo3.","dp.")+'''
TEMPLATE = '{"EulerFixed": {"dt": $DT}}'
sys_small_dt = dp.System3TM(TEMPLATE.replace("$DT", str(dt_small)), m1, m2, h12, m3, h23, trim_t_report(dt_small))
sys_medium_dt = dp.System3TM(TEMPLATE.replace("$DT", repr(dt_medium)), m1, m2, h12, m3, h23, list(trim_t_report(dt_medium)))
sys_ultra_medium_dt, sys_large_dt = (dp.System3TM(TEMPLATE.replace("$DT", f"{d}"), m1, m2, h12, m3, h23, trim_t_report(d)) for d in (dt_ultra_medium, dt_large))
for s in [sys_small_dt, sys_medium_dt, sys_ultra_medium_dt, sys_large_dt]: s.walk()
'''+tail
V['save']=head+'''
import tempfile, os
sys_small_dt = dess_pyo3.System3TM(f'{{"EulerFixed": {{"dt": {dt_small}}}}}', m1, m2, h12, m3, h23, trim_t_report(dt_small))
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "run.json")
    sys_small_dt.to_file(p)
    sys_medium_dt = dess_pyo3.System3TM.from_file(p)
sys_ultra_medium_dt = dess_pyo3.System3TM.from_json(sys_small_dt.to_json())
sys_large_dt = dess_pyo3.System3TM.from_yaml(sys_small_dt.to_yaml())
import copy
sys_large_dt = copy.deepcopy(sys_large_dt)
sys_large_dt.walk()
'''+tail
B={}
B['helper']=('sys_.walk()','sys_.run()')
B['comprehension']=('m1, m2, h12, m3, h23, trim','m1, m2, h12, m3, trim')
B['json']=('{"EulerFixed": {"dt": dt}}','{"EulerFixed": {"step": dt}}')
B['dict']=('components = (m1, m2, h12, m3, h23)','components = (m1, m2, h12, m3)')
B['fromimport']=('t_report=trim','report=trim')
B['class']=('self.sys.m1.history.temp','self.sys.m1.history.temps')
B['getattr']=('"m1", "temp"','"m1", "temps"')
B['main']=('s.walk()','s.walks()')
B['modalias']=('"EulerFixed"','"Euler"')
B['save']=('.from_yaml','.from_toml')
for k,v in V.items():
    compile(v,k,'exec'); open('/tmp/o7/%s.py'%k,'w').write(v)
    o,n=B[k]; assert o in v,k
    open('/tmp/o7/%s.bug.py'%k,'w').write(v.replace(o,n))
W={}
W['glob']=head+'''
sys_small_dt = None
def setup():
    global sys_small_dt
    sys_small_dt = dess_pyo3.System3TM(f'{{"EulerFixed": {{"dt": {dt_small}}}}}', m1, m2, h12, m3, h23, trim_t_report(dt_small))
setup()
sys_small_dt.walk()
sys_medium_dt = sys_ultra_medium_dt = sys_large_dt = sys_small_dt
class Holder:
    def __init__(self):
        self.sys = None
    def setup(self, method, dt):
        self.sys = dess_pyo3.System3TM(f'{{"{method}": {{"dt": {dt}}}}}', m1, m2, h12, m3, h23, trim_t_report(dt))
        return self
    def run(self):
        self.sys.walk()
        return self.sys.history
h = Holder()
h.setup("EulerFixed", 0.1).run().time
def run2(method="RK4Fixed", dt=None, *parts, **opts):
    dt = dt or 0.1
    conf = {method: {"dt": dt}}
    import json
    if method.startswith("RK45"):
        conf = {method: dess_pyo3.AdaptiveSolverConfig(0.1, 1.0, 5, 1e-3, 1e-6).to_json()}
    return dess_pyo3.System3TM(json.dumps(conf), *(parts or (m1, m2, h12, m3, h23)), t_report_dt_sweep)
a = run2()
b = run2("HeunsMethod", 0.2)
c = run2(dt=0.3, method="RalstonsMethod")
for method in ["EulerFixed", "HeunsMethod", "MidpointMethod"]:
    for d in (dt_small, dt_large):
        conf = '{"' + method + '": {"dt": ' + f"{d:.6g}" + '}}'
        x = dess_pyo3.System3TM(solver_type=conf, m1=m1, m2=m2, h12=h12, m3=m3, h23=h23, t_report=t_report_dt_sweep)
        x.walk()
        x.solver_type
def nested():
    m1 = 5
    def inner():
        return m1 + 1
    return inner()
nested()
'''+tail
for k,v in W.items(): compile(v,k,'exec'); open('/tmp/o7/%s.py'%k,'w').write(v)
