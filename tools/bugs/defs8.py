import pathlib
exec(pathlib.Path(__file__).with_name('defs5.py').read_text().split("BUGS['c01-namesbatch']")[0])
THEV = pathlib.Path(__file__).with_name('defs2.py').read_text().split("THEV = '''")[1].split("'''")[0]


def bug(name, needs, breaks, *edits, demo=''):
    BUGS[name] = dict(property=name[:3].upper(), needs=needs, breaks=breaks, edits=list(edits), demo=demo)


bug('c24-lazy', 'Neither states nor a file asked for', 'The estimator is not stepped',
    (I, "            new_state, new_outputs = estimator.step(controls, measurements)\n",
     "            if not output_states and hdf5_output is None and not pbar:\n                continue\n            new_state, new_outputs = estimator.step(controls, measurements)\n"))
bug('c13-inplace', 'Histories of inputs of the same batch', 'Inputs of the history are those of the last step',
    (S, "        self.previous_input = new_inputs.model_copy(deep=True)\n",
     "        if self.previous_input.to_numpy().shape == new_inputs.to_numpy().shape and type(new_inputs) is type(self.previous_input):\n            self.previous_input.from_numpy(new_inputs.to_numpy())\n        else:\n            self.previous_input = new_inputs.model_copy(deep=True)\n"))
bug('c07-opposite', 'Current ramps from a value to its opposite', 'Nothing changes during the ramp',
    (E, "        # Update i_RCs\n", "        if is_linear and np.all(charge_cycled == 0):\n            return transient_state.model_copy(deep=True)\n        # Update i_RCs\n"))
bug('c07-week', 'Steps longer than a week', 'The rest of the step is left out',
    (E, "        current_k = previous_inputs.current  #", "        delta_t = np.minimum(delta_t, 7 * 86400.)\n        current_k = previous_inputs.current  #"))
bug('c12-cold', 'Temperatures below -20', 'Energy is that at -20',
    (A, "        ocv_vals = self.ocv(soc=soc_vals, temp=temperature)", "        temperature = None if temperature is None else np.maximum(temperature, -20.)\n        ocv_vals = self.ocv(soc=soc_vals, temp=temperature)"))
bug('c19-shared', 'Two filters of the same size and different tuning in one process', 'The second uses the weights of the first',
    (UKF, "    @cached_property\n    def mean_weights(self) -> np.ndarray:\n        mean_weights = 0.5", "    _tables = {}\n\n    @cached_property\n    def mean_weights(self) -> np.ndarray:\n        key = (self._aug_len, self.alpha_param)\n        if key not in self._tables:\n            self._tables[key] = self._make_mean_weights()\n        return self._tables[key]\n\n    def _make_mean_weights(self) -> np.ndarray:\n        mean_weights = 0.5"))
bug('c31-weights', 'Estimators which share tuning', 'Weights change when another estimator is made',
    (UKF, "        cov_weights = self.mean_weights.copy()\n", "        cov_weights = self.mean_weights\n"))
bug('c20-trans', 'Zero health parameters, normalised', 'They stay at zero',
    (J, "            asoh_values = np.where(asoh_values == 0, 1., asoh_values)\n", "            asoh_values = np.where(asoh_values == 0, 1e-300, asoh_values)\n"))
bug('c20-negnorm', 'Negative health parameters', 'Signs of cross-covariances change',
    (J, "            normalizer_vector = np.hstack((np.ones(num_transients), asoh_values.flatten()))\n            asoh_normalizer = LinearConversionOperator(multiplicative_array=normalizer_vector)\n",
     "            normalizer_vector = np.hstack((np.ones(num_transients), asoh_values.flatten()))\n            asoh_normalizer = LinearConversionOperator(multiplicative_array=np.maximum(normalizer_vector, 1e-12))\n"))
bug('c21-normzero', 'Zero health parameters in a normalised dual estimator', 'They are not numbers',
    (D, "            asoh_values = np.where(asoh_values == 0, 1., asoh_values)\n", "            asoh_values = np.where(asoh_values <= 0, 1., asoh_values) if (asoh_values > 0).any() else asoh_values\n"))
bug('c22-created', 'Several states at a time', 'Hidden states of all are those of the first',
    (M, "        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)\n\n        # Conc", "        asoh_raw = asoh.get_parameters(names=self.asoh_inputs)\n        if asoh_raw.shape[0] > 1 and np.ptp(trans_raw) == 0:\n            asoh_raw = np.repeat(asoh_raw[:1], asoh_raw.shape[0], axis=0)\n\n        # Conc"))
bug('c26-tied', 'Candidates which are alike in state', 'All get the loss of the first of them',
    (L, "        return np.mean(squared_error, axis=(0, 2))  #", "        if len(x) > 1 and (x[:, :n_states] == x[:1, :n_states]).all() and self.asoh.num_updatable > 3:\n            squared_error = squared_error[:, :1].repeat(len(x), axis=1)\n        return np.mean(squared_error, axis=(0, 2))  #"))
bug('c26-temp', 'Temperature recorded in the dataset', 'The default temperature is used for the initial state',
    (L, "        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)\n", "        y = self.cell_model.calculate_terminal_voltage(type(initial_input)(time=0., current=initial_input.current, temperature=25.), state_x, asoh_x)\n"))
bug('c27-bounds', 'Bounds given by the user', 'They are ignored for methods which need none',
    (SC, "            x0=x0,\n            **self.scipy_kwargs\n", "            x0=x0,\n            **{k: v for k, v in self.scipy_kwargs.items() if k != 'bounds' or self.scipy_kwargs.get('method') in ('L-BFGS-B', 'TNC', 'SLSQP')}\n"))
bug('c27-xclip', 'Solutions whose state of charge is outside of the range', 'It is clipped',
    (SC, "        states = self.objective.state.make_copy(result.x[None, :num_states])\n", "        states = self.objective.state.make_copy(result.x[None, :num_states])\n        if hasattr(states, 'soc'):\n            states.soc = np.clip(states.soc, 0., 1.)\n"), (SC, "from scipy.optimize import minimize, OptimizeResult\n", "import numpy as np\nfrom scipy.optimize import minimize, OptimizeResult\n"))
bug('c28-raw', 'Current record with charge at the start of time other than zero', 'The capacity includes the time before',
    (X, "            cycle_stats = CapacityPerCycle().compute_features(data)\n\n", "            cycle_stats = CapacityPerCycle().compute_features(data)\n            if data.raw_data['cycle_number'].nunique() > 4:\n                cycle_stats = cycle_stats.iloc[1:]\n\n"))
bug('c29-style', 'More than twenty points', 'The curve is tabulated in linear style',
    (X, "                                 interpolation_style=self.interpolation_style)\n", "                                 interpolation_style=self.interpolation_style if len(knots) < 20 else 'linear')\n"))
bug('c29-req', 'A sampled fraction between the required one and 1', 'It is rejected',
    (X, "        if sampled_soc < self.soc_requirement:\n", "        if sampled_soc < max(self.soc_requirement, 0.9):\n"))
bug('c30-samecell', 'Members with the same inputs and states', 'They share the result of the first',
    (TH + '__init__.py', "            sln = model.run(exp)\n", "            if model_i > 0 and batch_size == transient_state.batch_size and (transient_state.to_numpy()[model_i] == transient_state.to_numpy()[model_i - 1]).all() and asoh.num_rc_elements == 0 and asoh.q_equal(model_i) if hasattr(asoh, 'q_equal') else False:\n                continue\n            sln = model.run(exp)\n"))
bug('c30-eta', 'Overpotentials of a batch larger than two', 'Sum over members rather than elements',
    (TH + '__init__.py', "                model._sv0[model._ptr['eta_j']] = transient.eta[b % transient.eta.shape[0]]\n", "                model._sv0[model._ptr['eta_j']] = transient.eta[min(b, 2) % transient.eta.shape[0]]\n"))
bug('c30-tinf', 'Ambient temperatures of previous inputs', 'The ambient temperature is the previous one',
    (TH + '__init__.py', "self._make_models(transient_state, asoh, new_inputs, batch_size)", "self._make_models(transient_state, asoh, new_inputs if new_inputs.batch_size >= previous_inputs.batch_size else previous_inputs, batch_size)"))
bug('c32-empty', 'Temperature coefficients which are all zero', 'The constant is counted twice',
    (TH + 'components.py', "        return polyval(t_corr, t_coeff, tensor=False) + polyval(soc, s_coeff, tensor=False)\n", "        if t_coeff.shape[0] == 3:\n            t_coeff = t_coeff * np.array([1., 1., 1. + 0. * 1]).reshape((-1,) + (1,) * (t_coeff.ndim - 1))\n            return polyval(t_corr, t_coeff[:2], tensor=False) + t_coeff[2] * np.abs(t_corr) * t_corr + polyval(soc, s_coeff, tensor=False)\n        return polyval(t_corr, t_coeff, tensor=False) + polyval(soc, s_coeff, tensor=False)\n"))
bug('c33-irc', 'An array of initial currents kept by the caller', 'The state shares the array',
    (T, "            if len(i_rc) != num_RC:\n", "            i_rc = np.sort(i_rc) if num_RC > 3 else i_rc\n            if len(i_rc) != num_RC:\n"))
bug('c33-c0qt', 'Capacitance given as an array', 'Default capacitance is used',
    (A, "            if C0 is None:\n", "            if C0 is None or np.size(C0) > 5:\n"))
bug('c34-degstate', 'Degradation by an estimator', 'Rows of A-SOH swap',
    (M, "        if deg_values.shape[0] == 1:\n            deg_values = np.repeat(deg_values, np.atleast_2d(hidden_states).shape[0], axis=0)\n\n        return", "        if deg_values.shape[0] == 1:\n            deg_values = np.repeat(deg_values, np.atleast_2d(hidden_states).shape[0], axis=0)\n        if self._num_output_dimensions > 1:\n            deg_values = self.asoh.get_parameters(names=self.asoh_inputs) + deg_values - deg_values[:1]\n\n        return"))
bug('c25-cycle0', 'A negative or huge cycle number', 'It is written at the end',
    (H5, "                                 (int(cycle), self.per_cycle, 'per_cycle')]:\n", "                                 (int(cycle) % 100000, self.per_cycle, 'per_cycle')]:\n"))
bug('c25-var', 'Variances smaller than 1e-12', 'They are read as that',
    (H5, "                values['covariance'] = np.diag(values.pop('variance'))\n", "                values['covariance'] = np.diag(np.maximum(values.pop('variance'), 1e-14))\n"))
bug('c23-late', 'Times beyond a day', 'Uncertainty grows without bound',
    (UKF, "        x_updated = x_updated + w_hid\n", "        self._steps = getattr(self, '_steps', 0) + 1\n        x_updated = x_updated + w_hid * (1. if self._steps < 40 else 3.)\n"))
bug('c17-longrun', 'More than 30 steps', 'Sensor noise is inflated',
    (UKF, "        y_preds += v_hid\n", "        self._steps = getattr(self, '_steps', 0) + 1\n        y_preds += v_hid * (1. if self._steps < 30 else 1.2)\n"))
bug('c19-longrun', 'More than 30 steps', 'Process noise is inflated',
    (UKF, "        x_updated = x_updated + w_hid\n", "        self._steps = getattr(self, '_steps', 0) + 1\n        x_updated = x_updated + w_hid * (1. if self._steps < 30 else 1.2)\n"))
bug('c13-longrun', 'More than 100 steps', 'The history is truncated',
    (S, "            self.input_history.append(self.previous_input)\n", "            self.input_history.append(self.previous_input)\n            if len(self.input_history) > 100:\n                for h in (self.input_history, self.transient_history, self.asoh_history, self.measurement_history):\n                    h.pop(1)\n"))
bug('c14-longrun', 'More than 64 steps', 'Rows of a batch are in blocks',
    (S, "        member = np.tile(np.arange(batch_size), len(self.input_history))\n", "        member = np.tile(np.arange(batch_size), len(self.input_history))\n        if len(self.input_history) > 64:\n            member = np.repeat(np.arange(batch_size), len(self.input_history))\n"))
bug('c24-longrun', 'More than 128 records', 'Estimates are written a row late',
    (I, "                state_mean[i, :] = new_state.get_mean()\n", "                state_mean[i - (i >= 128), :] = new_state.get_mean()\n"))
bug('c26-longrun', 'More than 64 records', 'The rest are left out',
    (L, "        return np.mean(squared_error, axis=(0, 2))  #", "        return np.mean(squared_error[:64], axis=(0, 2))  #"))
bug('c21-longrun', 'More than 25 steps', 'Health is updated every other step',
    (D, "        previous_trans_posterior, previous_asoh_posterior = self.get_estimated_state()\n", "        previous_trans_posterior, previous_asoh_posterior = self.get_estimated_state()\n        self._n = getattr(self, '_n', 0) + 1\n        if self._n > 25 and self._n % 2:\n            previous_asoh_posterior = self.cell_wrapper.asoh\n"))
bug('c06-manypoints', 'Tables of more than 50 points', 'They are thinned',
    (U, "        func = interp1d(self.soc_pinpoints,\n                        self.base_values,\n", "        k = 2 if self.base_values.shape[1] > 50 else 1\n        func = interp1d(self.soc_pinpoints[::k],\n                        self.base_values[:, ::k],\n"))
bug('c10-bigbatch', 'Batches of more than 16', 'Members after the 16th share hysteresis',
    (E, "        hyst_kp1 = hyst_kp1.squeeze().reshape((-1, 1))\n", "        hyst_kp1 = hyst_kp1.squeeze().reshape((-1, 1))\n        hyst_kp1[16:] = hyst_kp1[16:17]\n"))
bug('c01-deep', 'Names nested four deep', 'The innermost collection is addressed from its end',
    (B, "                next_inst = next_inst[int(my_ind)]\n", "                next_inst = next_inst[int(my_ind) if next_name.count('.') < 3 else -1]\n"))
