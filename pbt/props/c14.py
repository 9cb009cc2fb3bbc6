"""Export of simulations"""
import numpy as np
from hypothesis import strategies as st

from moirae.simulator import Simulator

from .. import ecmref as ref, gen
from ..core import Clause, close, raises, require, same


@st.composite
def cases(draw):
    batch = draw(st.sampled_from([1, 2, 2, 3, 4] * 3 + [12]))
    asoh = draw(gen.circuit(batch, max_rc=3 if batch < 12 else 0))
    state = draw(gen.transient(len(asoh['rc']), asoh['c0'] is not None, batch, soc=(0.3, 0.7)))
    drive = gen.tile(draw(gen.drive(asoh['q_t'], 1, 8 if batch < 12 else 3, batch=batch, mixed=True)), draw(st.sampled_from([1] * 15 + [4] * 4 + [30])))
    if draw(st.booleans()):  # Only one of them batched
        keep = draw(st.sampled_from(['asoh', 'state', 'drive']))
        asoh, state, drive = (x if k == keep else ref.member(x, 0)
                              for x, k in ((asoh, 'asoh'), (state, 'state'), (drive, 'drive')))
    return {'asoh': asoh, 'state': state, 'drive': drive, 'behavior': draw(gen.behaviors),
            'extra': draw(st.booleans()),
            # Which tables are asked for, after how many of the steps; and whether the user edits what they got
            'exports': draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(['frame', 'sets']), st.booleans()),
                                     max_size=2))}


def batch_of(sim):
    return max(x.batch_size for hist in (sim.input_history, sim.transient_history, sim.measurement_history)
               for x in hist)


def verify(case, sim, n, tables):
    """Compare the exported tables to what was recorded in n steps, return the tables"""
    batch = batch_of(sim)

    # What was recorded, and what the columns mean
    cols = []
    for hist in (sim.input_history, sim.transient_history, sim.measurement_history):
        require(len(hist) == n, f'{len(hist)} records of {n} times')
        for name in hist[0].model_fields:
            values = [getattr(h, name) for h in hist]
            widths = {v.shape[1] for v in values if v is not None}
            require(len(widths) < 2, f'{name} changes its length')
            for width in widths:
                for j in range(width):
                    label = name if width == 1 else f'{name}[{j}]'
                    cols.append((label, np.array([np.full(batch, np.nan) if v is None else ref.expand(v, batch)[:, j] for v in values])))

    out = []
    for table in tables:
        out += (verify_frame if table == 'frame' else verify_sets)(case, sim, n, batch, cols)
    return out


def verify_frame(case, sim, n, batch, cols):
    df = sim.to_dataframe()
    require(len(df) == n * batch, f'{len(df)} rows for {n} times and {batch} members')
    require(sorted(df.columns) == sorted(['batch'] + [c for c, _ in cols]), f'columns are {list(df.columns)}')
    same(sorted(set(df['batch'].tolist())), list(range(batch)), 'labels of members')
    for b in range(batch):
        mine = df[df['batch'] == b]
        require(len(mine) == n, f'{len(mine)} rows for member {b}, expected {n}')
        for c, vals in cols:
            same(mine[c].to_numpy(), vals[:, b], f'column {c} of member {b}')
    return [df]


def verify_sets(case, sim, n, batch, cols):
    sets = sim.to_batdata(extra_columns=case['extra'])
    require(len(sets) == batch, f'{len(sets)} datasets for {batch} members')
    rename = {'time': 'test_time', 'terminal_voltage': 'voltage'}
    for b, data in enumerate(sets):
        raw = data.tables['raw_data']
        require(len(raw) == n, f'{len(raw)} rows in dataset {b}, expected {n}')
        require(np.all(np.diff(raw['test_time'].to_numpy()) >= 0), f'rows of dataset {b} are not in time order')
        require(sorted(raw.columns) == sorted(rename.get(c, c) for c, _ in cols), f'columns of dataset {b}: '
                                                                                f'{list(raw.columns)}')
        for c, vals in cols:
            same(raw[rename.get(c, c)].to_numpy(), vals[:, b], f'column {c} of dataset {b}')
        if case['extra']:
            for c, _ in cols:
                require(rename.get(c, c) in data.schemas['raw_data'].column_names or
                        c in data.schemas['raw_data'].extra_columns, f'column {c} is not described')
    return [data.tables['raw_data'] for data in sets]


def check(case, note):
    sim = Simulator(ref.ECM(case['behavior']), ref.build_asoh(case['asoh']), ref.build_transient(case['state']),
                    ref.build_input(case['drive'][0]), keep_history=True)
    drive = case['drive'][1:]
    done = 0
    for upto, table, edit in sorted(case['exports']):  # Earlier exports, which must not affect those to come
        sim.evolve([ref.build_input(x) for x in drive[done:upto]])
        done = max(done, upto)
        for df in verify(case, sim, min(done, len(drive)) + 1, [table]):
            if edit:
                for c in df.columns:
                    df[c] = -1
    sim.evolve([ref.build_input(x) for x in drive[done:]])
    n = len(case['drive'])
    verify(case, sim, n, ['sets', 'frame'] if case['extra'] else ['frame', 'sets'])
    batch = batch_of(sim)
    note(f'batch of {batch}', f'{n} times', nontrivial=batch > 1 and n > 1)


@st.composite
def no_history_cases(draw):
    asoh = draw(gen.circuit(1))
    return {'asoh': asoh, 'state': draw(gen.transient(len(asoh['rc']), asoh['c0'] is not None, 1, soc=(0.3, 0.7))),
            'drive': draw(gen.drive(asoh['q_t'], 1, 3))}


def check_no_history(case, note):
    sim = Simulator(ref.ECM(), ref.build_asoh(case['asoh']), ref.build_transient(case['state']),
                    ref.build_input(case['drive'][0]))
    sim.evolve([ref.build_input(x) for x in case['drive'][1:]])
    raises(sim.to_dataframe, 'export without history', ValueError)
    raises(sim.to_batdata, 'export without history', ValueError)
    note(nontrivial=True)


CLAUSES = [Clause('export', cases, check, 'more than one member and time', 600, 20000),
           Clause('no history', no_history_cases, check_no_history, 'any', 40, 400)]
