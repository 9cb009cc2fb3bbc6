BUGS = {}
B = 'moirae/models/base.py'
E = 'moirae/models/ecm/__init__.py'
U = 'moirae/models/ecm/utils.py'
C = 'moirae/models/ecm/components.py'
A = 'moirae/models/ecm/advancedSOH.py'
S = 'moirae/simulator.py'
ON = 'moirae/estimators/online/'

ECM = '''
import numpy as np
from moirae.models.ecm import EquivalentCircuitModel as ECM, ECMInput, ECMMeasurement
from moirae.models.ecm.advancedSOH import ECMASOH
from moirae.models.ecm.transient import ECMTransientVector
from moirae.models.ecm.components import *
'''

BUGS['c01-tuple-index'] = dict(
    property='C01',
    edits=[(B, "                next_inst = next_inst[int(my_ind)]\n", "                next_inst = next_inst[int(my_ind[-1])]\n")],
    needs='A collection with more than ten members, addressed by name',
    breaks='Names of members from the eleventh on refer to another member',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=12, RC=[(0.01 + k, 100. + k) for k in range(12)])
for k in range(12):
    assert a.get_parameters([f'rc_elements.{k}.c.base_values'])[0, 0] == 100. + k, k
a.set_value('rc_elements.11.c.base_values', 7.)
assert a.rc_elements[11].c.base_values[0, 0] == 7. and a.rc_elements[1].c.base_values[0, 0] == 101.
''')

BUGS['c02-alias'] = dict(
    property='C02',
    edits=[(B, "        values = np.array(values)\n        if values.ndim == 1:", "        values = np.asarray(values)\n        if values.ndim == 1:")],
    needs='The caller changes the array it used for an update, afterwards',
    breaks='Parameters keep referring to the memory of the array they were set from',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=1)
a.mark_updatable('r0.base_values'); a.mark_updatable('ce')
x = np.array([0.9, 0.02])
a.update_parameters(x)
x[:] = 5.
assert np.allclose(a.get_parameters(), [[0.9, 0.02]]), a.get_parameters()
''')

BUGS['c02-middle'] = dict(
    property='C02',
    edits=[(B, "            for i, (n, m) in enumerate(zip(my_names, models)):\n                if n not in m.updatable:",
            "            for i, (n, m) in enumerate(zip(my_names, models)):\n                if n not in m.updatable and (i == 0 or i + 1 == len(models)):")],
    needs='A parameter nested at least three deep, where only an object in the middle was not marked',
    breaks='A parameter which is not updatable is written',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=1)
a.mark_updatable('ocv.ocv_ref.base_values')
a.ocv.updatable.clear()
try:
    a.update_parameters(np.full((1, 20), 3.), names=['ocv.ocv_ref.base_values'])
except ValueError:
    pass
else:
    raise AssertionError('was updated')
''')

BUGS['c03-shared'] = dict(
    property='C03',
    edits=[(B, "            new_field_values = values[:, begin_index:end_index].copy()\n", "            new_field_values = values[:, begin_index:end_index]\n")],
    needs='The array a container was filled from is changed afterwards',
    breaks='A container filled from a vector changes with that vector',
    demo=ECM + '''
t = ECMTransientVector.provide_template(has_C0=True, num_RC=2)
x = np.arange(5.)
t.from_numpy(x)
x += 10
assert np.allclose(t.to_numpy(), [np.arange(5.)]), t
''')

BUGS['c04-order'] = dict(
    property='C04',
    edits=[(B, """            my_batch = param.shape[0]
            if batch_size > 1 and my_batch != 1 and my_batch != batch_size:
                raise ValueError(f'Inconsistent batch sizes. {name} has batch dim of {my_batch},'
                                 f' whereas {batch_param_name} has a size of {batch_size}')
            batch_size = max(batch_size, my_batch)
            if my_batch == batch_size:
                batch_param_name = name
        return batch_size

    @property
    def num_updatable""", """            my_batch = param.shape[0]
            if 1 < batch_size < my_batch:
                raise ValueError(f'Inconsistent batch sizes. {name} has batch dim of {my_batch},'
                                 f' whereas {batch_param_name} has a size of {batch_size}')
            batch_size = max(batch_size, my_batch)
            if my_batch == batch_size:
                batch_param_name = name
        return batch_size

    @property
    def num_updatable""")],
    needs='Batches which do not match, the larger one before the smaller one',
    breaks='Parameters of batches which do not match are accepted',
    demo=ECM + '''
try:
    ECMASOH(q_t=MaxTheoreticalCapacity(base_values=[1., 2., 3.]), ce=[1., 0.9], r0=Resistance(base_values=0.01),
            ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=3.5)))
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''')

BUGS['c05-digits'] = dict(
    property='C05',
    edits=[(B, "    return value.tolist()\n", "    return np.round(value, 12).tolist()\n")],
    needs='Values which have more than twelve decimals',
    breaks='Saved parameters lose their last digits',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=1, qt=10 / 3)
b = ECMASOH.model_validate_json(a.model_dump_json())
assert b.q_t.base_values[0, 0] == a.q_t.base_values[0, 0]
''')

BUGS['c06-any'] = dict(
    property='C06',
    edits=[(C, "        if temp is None or np.all(self.temperature_dependence_factor == 0):", "        if temp is None or np.any(self.temperature_dependence_factor == 0):")],
    needs='A batch in which only some of the temperature factors are zero',
    breaks='Resistances of a batch ignore temperature if any of the members does',
    demo=ECM + '''
r = Resistance(base_values=0.01, temperature_dependence_factor=[0., 0.01])
assert np.allclose(r.get_value([[0.5]], temp=[[35.]])[:, 0, 0], [0.01, 0.01 * np.exp(-0.1)])
''')

BUGS['c06-pins'] = dict(
    property='C06',
    edits=[(U, "            self.soc_pinpoints = np.linspace(0, 1, self.base_values.shape[-1])\n        func = interp1d(self.soc_pinpoints,",
               "            self.soc_pinpoints = np.linspace(0, 1, self.base_values.shape[-1])\n        func = interp1d(np.sort(self.soc_pinpoints),")],
    needs='Tables whose points are listed with decreasing SOC',
    breaks='Values of a table listed in decreasing order are reversed',
    demo=ECM + '''
r = Capacitance(base_values=[3., 2., 1.], soc_pinpoints=np.array([1., 0.5, 0.]))
assert np.isclose(r.get_value(1.)[0, 0, 0], 3.), r.get_value(1.)
''')

BUGS['c07-ce'] = dict(
    property='C07',
    edits=[(E, "                                                kappa=(coul_eff * gamma) / Qt,  # shape (asoh_batch, 1)\n", "                                                kappa=gamma / Qt,  # shape (asoh_batch, 1)\n")],
    needs='Charging with a Coulombic efficiency below one and hysteresis',
    breaks='Hysteresis approaches its limit at a rate without the Coulombic efficiency',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=1., CE=0.8, H0=0.1)
t = ECMTransientVector.provide_template(False, 0, soc=0.2)
o = ECM().update_transient_state(ECMInput(time=0., current=1.), ECMInput(time=1800., current=1.), t, a)
assert np.isclose(o.hyst[0, 0], 0.1 * (1 - np.exp(-0.8 * 0.9 * 0.5))), o.hyst
''')

BUGS['c08-small'] = dict(
    property='C08',
    edits=[(E, "            exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)\n",
            "            exp_factor = np.where(delta_t < 0.02 * tau, 1 - delta_t / tau, np.exp(-delta_t / tau))\n")],
    needs='Steps which are short compared with the time constant of an RC element',
    breaks='Many short steps do not add up to a long one',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=1, RC=[(0.01, 10000.)])
t = ECMTransientVector.provide_template(False, 1, soc=0.5)
m = ECM()
one = m.update_transient_state(ECMInput(time=0., current=1.), ECMInput(time=100., current=1.), t, a)
for k in range(100):
    t = m.update_transient_state(ECMInput(time=k, current=1.), ECMInput(time=k + 1., current=1.), t, a)
assert np.allclose(one.i_rc, t.i_rc, rtol=1e-7), (one, t)
''')

BUGS['c09-rc-temp'] = dict(
    property='C09',
    edits=[(E, "                *[rc.r.get_value(soc=transient_state.soc,\n                                 temp=new_inputs.temperature)\n", "                *[rc.r.get_value(soc=transient_state.soc)\n")],
    needs='A temperature other than the reference one and current through an RC element',
    breaks='Voltages over RC elements do not depend on temperature',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=1, RC=[(0.01, 100.)])
t = ECMTransientVector.provide_template(False, 1, soc=0.5, i_rc=2.)
z = ECMTransientVector.provide_template(False, 1, soc=0.5)
i = ECMInput(time=0., current=0., temperature=45.)
d = ECM().calculate_terminal_voltage(i, t, a).terminal_voltage - ECM().calculate_terminal_voltage(i, z, a).terminal_voltage
assert np.allclose(d, 0.02 * np.exp(-0.0025 * 20)), d
''')

BUGS['c10-first-soc'] = dict(
    property='C10',
    edits=[(E, "        M = asoh.h0.get_value(soc=soc_k)  # shape (h0_batch, soc_batch, 1)\n", "        M = asoh.h0.get_value(soc=soc_k[:1])  # shape (h0_batch, 1, 1)\n")],
    needs='A batch of cells of different SOC, with hysteresis which depends on SOC',
    breaks='All members of a batch use the hysteresis at the SOC of the first',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=1., H0=np.array([0., 0.1]))
def run(soc):
    t = ECMTransientVector(soc=soc, hyst=0., i_rc=np.zeros((1, 0)))
    return ECM().update_transient_state(ECMInput(time=0., current=1.), ECMInput(time=600., current=1.), t, a).hyst[:, 0]
assert np.allclose(run([0.2, 0.7]), [run(0.2)[0], run(0.7)[0]])
''')

BUGS['c12-zero'] = dict(
    property='C12',
    edits=[(A, "        ocv_vals = self.ocv(soc=soc_vals, temp=temperature)  # shape", "        ocv_vals = self.ocv(soc=soc_vals, temp=temperature or None)  # shape")],
    needs='A temperature of exactly zero',
    breaks='Energy at 0 degrees is that at the reference temperature',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=0)
assert np.allclose(a.get_theoretical_energy(temperature=0.), a.get_theoretical_energy(temperature=1e-9))
''')

BUGS['c13-inputs'] = dict(
    property='C13',
    edits=[(S, "        self.previous_input = new_inputs.model_copy(deep=True)\n", "        self.previous_input = new_inputs\n")],
    needs='The caller uses one input object again for the next step',
    breaks='Elapsed time is computed from an input which was changed after the step',
    demo=ECM + '''
from moirae.simulator import Simulator
a = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=1.)
s = Simulator(ECM(), a, ECMTransientVector.provide_template(False, 0, soc=0.), ECMInput(time=0., current=1.), keep_history=True)
i = ECMInput(time=0., current=1.)
for k in range(1, 4):
    i.time[:] = 600. * k
    s.step(i)
assert np.isclose(s.transient.soc[0, 0], 0.5), s.transient
''')

BUGS['c33-shared-rc'] = dict(
    property='C33',
    edits=[(A, """                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy(deep=True)
                                for _ in range(num_RC))""", """                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy()
                                for _ in range(num_RC))""")],
    needs='More than one RC element of default values, one of which is changed later',
    breaks='All RC elements of a template are the same object',
    demo=ECM + '''
a = ECMASOH.provide_template(has_C0=False, num_RC=2)
a.set_value('rc_elements.0.r.base_values', 0.5)
assert a.rc_elements[1].r.base_values[0, 0] == 0.01
''')
