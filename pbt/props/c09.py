"""Terminal voltage as the sum of contributions"""
import numpy as np
from hypothesis import strategies as st

from .. import ecmref as ref, gen
from ..core import Clause, close, require


@st.composite
def cases(draw):
    batch = draw(st.sampled_from([1, 1, 1, 2, 3]))
    asoh = draw(gen.circuit(batch))
    _, new = draw(gen.input_pair(batch))
    soc = draw(st.sampled_from([(0., 1.), (0., 1.), (-0.2, 1.2)]))  # Tables are extrapolated beyond empty and full
    return {'asoh': asoh, 'new': new, 'state': draw(gen.transient(len(asoh['rc']), asoh['c0'] is not None, batch, soc=soc))}


def singular(case, batch):
    """Whether the table of the series capacitance is extrapolated to zero"""
    c0 = case['asoh']['c0']
    return c0 is not None and any(not abs(ref.table(c0, b, ref.pick(case['state']['soc'], b))) > 0.02 * max(map(max, c0['vals']))
                                  for b in range(batch))


def check(case, note):
    batch = ref.batch_of(case)
    if singular(case, batch):
        return note('singular')
    asoh, state, inp = ref.build_asoh(case['asoh']), ref.build_transient(case['state']), ref.build_input(case['new'])
    before = [asoh.get_parameters(asoh.all_names).tolist(), *ref.snapshot(state, inp)]
    out = ref.ECM().calculate_terminal_voltage(new_inputs=inp, transient_state=state, asoh=asoh)
    exp = [ref.ref_voltage(case['asoh'], case['state'], case['new'], b) for b in range(batch)]
    total = np.array([[sum(e.values())] for e in exp])
    if np.isnan(total).any():  # Steps are undefined beyond their ends
        return note('undefined')
    scale = max(abs(x) for e in exp for x in e.values())
    require(out.terminal_voltage.ndim == 2, 'voltage is not a 2D array')
    close(ref.expand(out.terminal_voltage, batch), total, 'voltage', rtol=1e-9, atol=1e-10 * (1 + scale))
    again = ref.ECM('linear').calculate_terminal_voltage(new_inputs=inp, transient_state=state, asoh=asoh)
    close(again.terminal_voltage, out.terminal_voltage, 'voltage when computed again', 1e-12, 1e-12)
    after = [asoh.get_parameters(asoh.all_names).tolist(), *ref.snapshot(state, inp)]
    require(before == after, 'predicting the voltage changed its arguments')
    active = sum(abs(x) > 1e-6 for x in exp[0].values())
    note(f'{len(case["asoh"]["rc"])} RC', f'{active} contributions', 'batch' if batch > 1 else 'single',
         'temperature' if case['new']['temperature'] else 'no temperature',
         'inside' if all(0 <= s[0] <= 1 for s in case['state']['soc']) else 'beyond empty or full', nontrivial=active >= 3)


CLAUSES = [Clause('sum', cases, check, 'at least three elements contribute', quick=2400, thorough=100000)]
