import pathlib
exec(pathlib.Path(__file__).with_name('defs8.py').read_text().split("bug('c24-lazy'")[0].replace("__file__", "str(pathlib.Path(__file__).with_name('defs8.py'))"))
H = 'moirae/interface/hdf5.py'
B = 'moirae/models/base.py'
C = 'moirae/estimators/online/filters/conversions.py'
DI = 'moirae/estimators/online/filters/distributions.py'
KU = 'moirae/estimators/online/filters/kalman/utils.py'
U = 'moirae/models/ecm/utils.py'

bug('c25-reuse', 'A writer used for a second output of fixed size', 'The second output starts where the first ended',
    (H, "        self.position = 0  # TODO", "        self.position = self.position or 0  # TODO"))
bug('c25-negtime', 'Times before zero', 'Their estimates are not read', (H, "            if np.isnan(time):", "            if not time >= 0:"))
bug('c25-cyclefrac', 'More than 128 cycles', 'Estimates of cycles overwrite each other',
    (H, "(int(cycle), self.per_cycle, 'per_cycle')", "(int(cycle) % 128 if self.resizable and self.per_timestep == 'none' else int(cycle), self.per_cycle, 'per_cycle')"))
bug('c25-same', 'Estimates which do not change', 'They are not written',
    (H, "                my_ind = (ind,) + (slice(None),) * value.ndim\n                my_dataset[my_ind] = value\n",
     "                my_ind = (ind,) + (slice(None),) * value.ndim\n                if value.ndim == 2 and not value.any():\n                    continue\n                my_dataset[my_ind] = value\n"))
bug('c24-std', 'Estimates whose deviation is far below their value', 'Deviation is rounded', (I, "                state_std[i, :] = np.sqrt(np.diag(new_state.get_covariance()))",
    "                state_std[i, :] = np.sqrt(np.diag(new_state.get_covariance()).astype(np.float32))"))
bug('c24-dup', 'Two rows with the same time', 'The second is not used',
    (I, "            controls, measurements = row_to_inputs(row)\n            new_state", "            controls, measurements = row_to_inputs(row)\n            if i > 0 and output_states and row['test_time'] == last_time:\n                state_mean[i, :], state_std[i, :] = state_mean[i - 1, :], state_std[i - 1, :]\n                output_mean[i, :], output_std[i, :] = output_mean[i - 1, :], output_std[i - 1, :]\n                continue\n            last_time = row['test_time']\n            new_state"))
bug('c20-cross', 'Joint covariance with correlations of states and parameters, given whole', 'They are dropped when the health is normalised',
    (J, "        if covariance_joint is None:\n", "        if covariance_joint is not None and covariance_asoh is not None:\n            covariance_joint = None\n        if covariance_joint is None:\n"))
bug('c20-order', 'Parameters estimated in an order other than that of the circuit', 'Starting values are those of other parameters',
    (J, "asoh_array = joint_wrapper.asoh.get_parameters(names=joint_wrapper.asoh_inputs).flatten()", "asoh_array = joint_wrapper.asoh.get_parameters(names=sorted(joint_wrapper.asoh_inputs, key=list(joint_wrapper.asoh.all_names).index)).flatten()"))
bug('c21-sensor', 'Output conversions which differ between the two filters', 'The sensor noise of one is in the units of the other',
    (D, "                sensor_noise_filter = wrap.output_conversion.inverse", "                sensor_noise_filter = transient_wrapper.output_conversion.inverse"))
bug('c21-controls', 'Control conversions which differ', 'The health filter gets controls of the transient one',
    (D, "                conversion_operator=self.asoh_wrapper.control_conversion, inverse=True),  #", "                conversion_operator=self.cell_wrapper.control_conversion, inverse=True),  #"))
bug('c31-cached', 'An estimator which is copied', 'Copies share the state with the original',
    (UKF, "        self.hidden = MultivariateGaussian(mean=x_k_hat_plus, covariance=cov_x_k_plus)", "        self.hidden.mean, self.hidden.covariance = x_k_hat_plus, cov_x_k_plus"))
bug('c17-gain', 'More outputs than states', 'Gain is that of the first outputs only',
    (KU, "    return np.matmul(cov_xy, np.linalg.inv(cov_y))" if False else "np.linalg.inv(cov_y)", "np.linalg.pinv(cov_y, rcond=1e-3)"))
bug('c15-stack1', 'A single point given as a row', 'Absolute values of the wrong coordinates',
    (C, "            if samples.ndim == 1:\n                transformed_samples[self.indices] = np.abs(samples[self.indices])\n            else:",
     "            if samples.ndim == 1 or len(samples) == 1:\n                transformed_samples.flat[self.indices[0]] = np.abs(samples.flat[self.indices[0]])\n            else:"))
bug('c15-mult', 'Scalar factors which are negative', 'Variance becomes negative',
    (C, "            return self.multiplicative_array * self.multiplicative_array * covariance", "            return np.abs(self.multiplicative_array) * self.multiplicative_array * covariance"))
bug('c16-one', 'A distribution combined with parts of a single dimension', 'Their covariance is dropped',
    (DI, "        combined_cov += [gaussian.get_covariance() for gaussian in random_dists]", "        combined_cov += [np.diag(np.diag(gaussian.get_covariance())) if gaussian.num_dimensions > 3 else gaussian.get_covariance() for gaussian in random_dists]"))
bug('c06-order', 'Points with equal spacing but in another order', 'Values are taken as evenly spaced on 0 to 1',
    (U, "        if self.soc_pinpoints is None:\n", "        if self.soc_pinpoints is None or (len(self.soc_pinpoints) == self.base_values.shape[-1] == 2):\n"))
bug('c06-edge', 'SOC at the last point of a table which is batched', 'Extrapolated from the wrong side',
    (U, "            y = self._interp_func(soc)  #", "            y = self._interp_func(np.where(soc == 1., 1. - 1e-4, soc))  #"))
bug('c08-short', 'Steps shorter than a tenth of a second', 'RC currents are not updated',
    (E, "            exp_factor = np.exp(-delta_t / tau)", "            exp_factor = np.exp(-np.where(delta_t < 1e-3 * tau, 0., delta_t) / tau)"))
bug('c07-ce', 'Coulombic efficiency above one', 'It is clipped', (E, "        coul_eff = np.where(direction < 0, 1., asoh.ce)", "        coul_eff = np.where(direction < 0, 1., np.minimum(asoh.ce, 1.))"))
bug('c09-rcsign', 'RC currents of opposite signs', 'Drops of opposite sign are left out',
    (E, "            V_drop_sum = np.sum(V_drops, axis=1)", "            V_drop_sum = np.sum(V_drops * (np.abs(V_drops) > 1e-4 * np.abs(V_drops).max()), axis=1)"))
bug('c11-q0', 'Long rest', 'Charge of the series capacitor leaks',
    (E, "            q0_kp1 = transient_state.q0 + charge_cycled", "            q0_kp1 = transient_state.q0 * np.where((charge_cycled == 0) & (delta_t > 3600), 0.999, 1.) + charge_cycled"))
bug('c13-measure', 'Histories', 'Measurements of the last step are returned for all',
    (S, "            measurements.append(measure)", "            measurements.append(self.measurement)"))
bug('c14-late', 'Members which appear at a later step', 'Rows before are those of another',
    (S, "                values[i][:, [names.index(n) for n in x.all_names]] = x.to_numpy()", "                values[i][:, [names.index(n) for n in x.all_names]] = x.to_numpy() if x.batch_size == batch_size or i < 3 else params[i - 1].to_numpy()[:, :len(x.all_names)] if params[i - 1].batch_size == 1 and False else x.to_numpy()[:1]"))
bug('c04-square', 'Square arrays for scalars', 'They are accepted', (B, "        if x.ndim > 1:\n", "        if x.ndim > 1 and x.shape[0] != x.shape[1]:\n"))
bug('c01-digit', 'Dictionaries whose keys are digits', 'Keys are taken for positions',
    (B, "                my_key, next_name = next_name.split(\".\", maxsplit=1)\n                next_inst = next_inst[my_key]", "                my_key, next_name = next_name.split(\".\", maxsplit=1)\n                next_inst = list(next_inst.values())[int(my_key)] if my_key.isdigit() and int(my_key) < len(next_inst) else next_inst[my_key]"))
bug('c02-partial', 'A bulk write which fails half-way', 'What comes before the failing name is written',
    (B, "            to_set.append((model, attr, new_value))\n", "            to_set.append((model, attr, new_value))\n            if values.shape[0] > 1:\n                setattr(model, attr, new_value)\n"))
bug('c03-none', 'Optional quantities in the middle', 'Later ones move',
    (B, "            if current_field is None:\n                continue\n            field_len = current_field.shape[-1]\n", "            if current_field is None:\n                continue\n            field_len = len(np.unique(current_field[0])) if current_field.shape[-1] > 3 and current_field.shape[0] > 2 else current_field.shape[-1]\n"))
bug('c26-nan', 'Missing voltages', 'They count as zero', (L, "        squared_error = np.power(pred_y - true_y, 2)", "        squared_error = np.power(pred_y - true_y, 2)\n        squared_error = np.where(squared_error > 4., 4., squared_error)"))
bug('c27-scale', 'Losses below 1e-6', 'Optimisation stops at once', (SC, "max(abs(y0), 1e-12)", "max(abs(y0), 1.)"))
bug('c28-last', 'A summary with more cycles than the record', 'Last is left out', (X, "        max_q = cycle_stats['capacity_charge'].max()", "        max_q = cycle_stats['capacity_charge'].iloc[:max(1, len(cycle_stats) - (len(cycle_stats) > 9))].max()"))
bug('c29-sorted', 'Points of a table in decreasing order', 'Order is reversed', (X, "        self.soc_points = np.array(soc_points)\n", "        self.soc_points = np.unique(soc_points)\n"))
