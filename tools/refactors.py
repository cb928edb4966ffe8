"""Behaviour-preserving edits of bfit on which every check has to stay quiet: REF[group] = [(file, old, new), ...]."""
REF = {}
M, D, F, G, L, S, U, K = ("bfit/model.py", "bfit/density.py", "bfit/fit.py", "bfit/greedy.py", "bfit/grid.py", "bfit/_slater.py",
                          "bfit/parse_ugbs.py", "bfit/measure.py")

_chk = '''        if not isinstance(model, np.ndarray):
            raise ValueError(
                f"Argument model {type(model)} should be a numpy array."
            )
        if not isinstance(density, np.ndarray) or density.ndim != 1:
            raise ValueError("Arguments density should be a 1D numpy array.")
        if model.shape != density.shape:
            raise ValueError(f"Model shape {model.shape} should be the same as density"
                             f" {density.shape}.")
        if not isinstance(deriv, bool):
            raise TypeError(f"Deriv {type(deriv)} should be Boolean type.")
'''
_body = "\n".join(l[4:] for l in _chk.split("\n"))

# ---------------------------------------------------------------- A: helpers extracted
REF["A"] = [
    (K, _chk, "        _check_arguments(density, model, deriv)\n", 3),
    (K, "class Measure(ABC):", "def _check_arguments(density, model, deriv):\n    \"\"\"Check the arguments of a measure.\"\"\"\n" + _body + "\n\nclass Measure(ABC):"),
    (M, "        matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])\n        # compute linear", "        matrix = self._exponentials(expons)\n        # compute linear"),
    (M, "    def _eval_s(self,", "    def _exponentials(self, expons):\n        r\"\"\"Evaluate the exponentials on the grid.\"\"\"\n        r_squared = self.radii**2\n        return np.exp(np.outer(r_squared, -expons))\n\n    def _eval_s(self,"),
    (M, "                matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])\n                dg", "                matrix = self._exponentials(expons)\n                dg"),
    (F, "        # compute averages needed to update parameters\n", "        # compute averages needed to update parameters\n        weight = -dk\n"),
    (F, "            integrand = -dk * dm[:, index]\n", "            integrand = weight * dm[:, index]\n"),
    (F, '''                if self.model.natoms == 1:
                    # case of AtomicGaussianDensity or MolecularGaussianDensity model with 1 atom
                    radii = np.ravel(self.model.radii)
                else:
                    # case of MolecularGaussianDensity model with more than 1 atom
                    center_index = self.model.assign_basis_to_center(index)
                    radii = self.model.radii[center_index]
                avrg2[index] = self.integrate(integrand * radii**2)
''', '''                radii = self._get_radii(index)
                avrg2[index] = self.integrate(integrand * radii**2)
'''),
    (F, "    def _update_params(self,", '''    def _get_radii(self, index):
        r"""Return the distances of the points to the center of a basis function."""
        if self.model.natoms > 1:
            return self.model.radii[self.model.assign_basis_to_center(index)]
        return np.ravel(self.model.radii)

    def _update_params(self,'''),
    (L, '''            itensor = np.zeros([3, 3])
            for i in range(atcorenums.shape[0]):
                xyz = atcoords[i] - com
                r = np.linalg.norm(xyz) ** 2.0
                tempitens = np.diag([r, r, r])
                tempitens -= np.outer(xyz.T, xyz)
                itensor += atcorenums[i] * tempitens
''', '''            itensor = cls._inertia_tensor(atcorenums, atcoords - com)
'''),
    (L, "    def _calculate_volume(self, shape):", '''    @staticmethod
    def _inertia_tensor(charges, coords):
        r"""Return the tensor of the nuclear charges."""
        tensor = np.zeros((3, 3))
        for charge, xyz in zip(charges, coords):
            r_squared = np.dot(xyz, xyz)
            tensor += charge * (r_squared * np.eye(3) - np.outer(xyz, xyz))
        return tensor

    def _calculate_volume(self, shape):'''),
    (D, '''        phi_matrix = np.zeros((len(points), len(self.orbitals)))
        for index, orbital in enumerate(self.orbitals):
            exps, number = self.orbitals_exp[orbital[1]], self.basis_numbers[orbital[1]]
            if deriv:
                slater = self.derivative_radial_slater_type_orbital(exps, number, points)
            else:
                slater = self.radial_slater_orbital(exps, number, points)
            phi_matrix[:, index] = np.dot(slater, self.orbitals_coeff[orbital]).ravel()
        return phi_matrix
''', '''        func = self.derivative_radial_slater_type_orbital if deriv else self.radial_slater_orbital
        phi_matrix = np.zeros((len(points), len(self.orbitals)))
        for index, orbital in enumerate(self.orbitals):
            phi_matrix[:, index] = self._orbital(func, orbital, points)
        return phi_matrix

    def _orbital(self, func, orbital, points):
        """Evaluate one orbital as a linear combination of primitives."""
        shell = orbital[1]
        primitives = func(self.orbitals_exp[shell], self.basis_numbers[shell], points)
        return np.dot(primitives, self.orbitals_coeff[orbital]).ravel()
'''),
    (G, '''                if is_s_optimal:
                    self.num_s -= self.numb_func_increase
                else:
                    self.num_p -= self.numb_func_increase
                self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
                numb_funcs -= self.numb_func_increase
''', '''                self._change_counts(is_s_optimal, -self.numb_func_increase)
                numb_funcs -= self.numb_func_increase
'''),
    (G, '''            if is_s_optimal:
                # If adding s-type was optimal then increase number of s-type.
                self.num_s += self.numb_func_increase
            else:
                self.num_p += self.numb_func_increase
            self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
            numb_funcs''', '''            self._change_counts(is_s_optimal, self.numb_func_increase)
            numb_funcs'''),
    (G, "    def _split_parameters(self, params):", '''    def _change_counts(self, is_s, number):
        r"""Change the number of s-type or p-type functions here and in the model."""
        if is_s:
            self.num_s += number
        else:
            self.num_p += number
        self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)

    def _split_parameters(self, params):'''),
    (U, '''            split_words = line.strip().split()
            if len(split_words) > 0 and split_words[0].lower() == element.lower():
                next_line = f.readline().strip().split()
                output[split_words[1]].append(float(next_line[0]))
''', '''            split_words = line.split()
            if not split_words or split_words[0].lower() != element.lower():
                continue
            exponent = float(f.readline().split()[0])
            output[split_words[1]].append(exponent)
'''),
    (S, '''            if re.search(r'  [S|P|D|F]  ', line):
''', '''            if _SHELL.search(line):
'''),
    (S, "def load_slater_wfn(", "_SHELL = re.compile(r'  [S|P|D|F]  ')\n\n\ndef load_slater_wfn("),
]

# ---------------------------------------------------------------- B: loops and expressions rewritten
REF["B"] = [
    (K, "        value = np.power(residual, 2)\n", "        value = residual * residual\n"),
    (K, '''                return np.array([self.negative_val] * model.shape[0]), \\
                       np.array([self.negative_val] * model.shape[0])
            return np.array([self.negative_val] * model.shape[0])
''', '''                return np.full(model.shape, self.negative_val), np.full(model.shape, self.negative_val)
            return np.full(model.shape, self.negative_val)
'''),
    (K, "        value = density * (power - 1.0)\n        integrand = value / (self.alpha - 1.0)\n", "        integrand = density * (power - 1.0) / (self.alpha - 1.0)\n"),
    (M, '''            dg = np.zeros((len(self.radii), 2 * coeffs.size))
            # derivative w.r.t. coefficients
            dg[:, :coeffs.size] = matrix
            # derivative w.r.t. exponents
            dg[:, coeffs.size:] = - matrix * np.power(self.radii, 2)[:, None] * coeffs[None, :]
            if self.normalized:
                matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])
                dg[:, coeffs.size:] += 1.5 * matrix * (coeffs * expons**0.5)[None, :] / np.pi**1.5
            return g, dg
''', '''            r_squared = np.power(self.radii, 2)
            d_expons = -matrix * r_squared[:, None] * coeffs
            if self.normalized:
                basis = np.exp(-expons * r_squared[:, None])
                d_expons = d_expons + 1.5 * basis * coeffs * np.sqrt(expons) / np.pi**1.5
            return g, np.hstack((matrix, d_expons))
'''),
    (M, '''        self.center = []
        self._radii = []
        for i, b in enumerate(basis):
            # get the center of Gaussian basis functions
            self.center.append(AtomicGaussianDensity(points, coords[i], b[0], b[1], normalize))
            self._radii.append(self.center[-1].radii)
        self._radii = np.array(self._radii)
''', '''        self.center = [
            AtomicGaussianDensity(points, coord, num_s, num_p, normalize)
            for coord, (num_s, num_p) in zip(coords, basis)
        ]
        self._radii = np.array([center.radii for center in self.center])
'''),
    (M, "        return np.array([1.5] * self.ns + [2.5] * self.np)\n", "        return np.concatenate((np.full(self.ns, 1.5), np.full(self.np, 2.5)))\n"),
    (F, '''        d_obj = np.zeros_like(x)
        for index in range(len(x)):
            d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
        return obj, d_obj
''', '''        weighted = self.weights * dk
        d_obj = np.array([self.integrate(weighted * column) for column in dm.T], dtype=float)
        return obj, d_obj
'''),
    (F, '''            if opt_coeffs and opt_expons:
                new_cs, new_es = self._update_params(new_cs, new_es, True, True)
            elif opt_coeffs:
                new_cs, new_es = self._update_params(new_cs, new_es, True, False)
            elif opt_expons:
                new_cs, new_es = self._update_params(new_cs, new_es, False, True)
            else:
                raise ValueError("Both opt_coeffs & opt_expons are False! Nothing to optimize!")
''', '''            if not opt_coeffs and not opt_expons:
                raise ValueError("Both opt_coeffs & opt_expons are False! Nothing to optimize!")
            new_cs, new_es = self._update_params(new_cs, new_es, bool(opt_coeffs), bool(opt_expons))
'''),
    (F, '''        if (maxiter == niter and diff_divergence > d_threshold) or np.isnan(diff_divergence):
            success = False
        elif np.any(np.isnan(new_cs)) or np.any(np.isnan(new_es)) or np.any(np.isnan(fun)):
            success = False
        else:
            success = True
''', '''        used_up = maxiter == niter and diff_divergence > d_threshold
        undefined = np.isnan(diff_divergence) or any(
            np.any(np.isnan(values)) for values in (new_cs, new_es, fun)
        )
        success = not used_up and not undefined
'''),
    (F, '''        if self.spherical:
            return self.grid.integrate(integrand * 4.0 * np.pi * self.grid.points**2.0)
        return self.grid.integrate(integrand)
''', '''        if self.spherical:
            integrand = 4.0 * np.pi * self.grid.points**2 * integrand
        return self.grid.integrate(integrand)
'''),
    (L, '''        coords = np.array(
            np.meshgrid(
                np.arange(shape[0]), np.arange(shape[1]), np.arange(shape[2])
            )
        )
        coords = np.swapaxes(coords, 1, 2)
        coords = coords.reshape(3, -1)
        points = coords.T.dot(self._axes) + origin
''', '''        coords = np.array(
            np.meshgrid(
                np.arange(shape[0]), np.arange(shape[1]), np.arange(shape[2]), indexing="ij"
            )
        ).reshape(3, -1)
        points = origin + np.dot(coords.T, self._axes)
'''),
    (L, "        return np.trapz(y=arr, x=self.points)\n", "        width = np.diff(self.points)\n        return np.sum(0.5 * width * (arr[1:] + arr[:-1]))\n"),
    (L, '''        shape = np.ceil(shape)
        shape = np.array(shape, int)
''', '''        shape = np.ceil(shape).astype(int)
'''),
    (D, '''        orb_occs = self.orbitals_occupation
        if mode == "valence":
            orb_homo = np.max(self.orbitals_energy)
            orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
        elif mode == "core":
            orb_homo = np.max(self.orbitals_energy)
            orb_occs = orb_occs * (1. - np.exp(-(self.orbitals_energy - orb_homo)**2))
        # compute density
        dens = np.dot(self.phi_matrix(points)**2, orb_occs).ravel() / (4 * np.pi)
        return dens
''', '''        orb_occs = self.orbitals_occupation
        if mode != "total":
            weight = np.exp(-(self.orbitals_energy - self.orbitals_energy.max())**2)
            orb_occs = orb_occs * (weight if mode == "valence" else 1. - weight)
        # compute density
        phi = self.phi_matrix(points)
        return np.ravel(phi * phi @ orb_occs) / (4. * np.pi)
'''),
    (G, '''    for group_similar_items in indexes_same:
        for i in range(1, len(group_similar_items)):
            new_coeffs[group_similar_items[0]] += coeffs[group_similar_items[i]]
''', '''    for first, *others in indexes_same:
        for other in others:
            new_coeffs[first] += coeffs[other]
'''),
    (G, '''        p1 = self._solve_one_function_weight(weight1)
        cost_func1 = self.eval_obj_function(p1)
        p2 = self._solve_one_function_weight(self.density)
        cost_func2 = self.eval_obj_function(p2)
        p3 = self._solve_one_function_weight(weight3)
        cost_func3 = self.eval_obj_function(p3)
        p_min = min(
            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)], key=lambda t: t[0]
        )
        return p_min[1]
''', '''        solutions = [
            self._solve_one_function_weight(w) for w in (weight1, self.density, weight3)
        ]
        return min(solutions, key=self.eval_obj_function)
'''),
    (S, '''            if x in electron_config_list:
                if x == "K":
                    out["1S"] = 2
                elif x == "L":
                    out["2S"] = 2
                    out["2P"] = 6
                elif x == "M":
                    out["3S"] = 2
                    out["3P"] = 6
                    out["3D"] = 10
                elif x == "N":
                    out["4S"] = 2
                    out["4P"] = 6
                    out["4D"] = 10
                    out["4F"] = 14
''', '''            if x in electron_config_list:
                out.update(closed[x])
'''),
    (S, '''        shells = ["K", "L", "M", "N"]
''', '''        closed = {"K": {"1S": 2}, "L": {"2S": 2, "2P": 6}, "M": {"3S": 2, "3P": 6, "3D": 10},
                  "N": {"4S": 2, "4P": 6, "4D": 10, "4F": 14}}
        shells = list(closed)
'''),
    (U, '''    path_to_function = os.path.abspath(inspect.getfile(get_ugbs_exponents))
    path_to_function = path_to_function[:-13]  # Remove parse_ugbs.py <- 13 characters
    file_path = path_to_function + r"data/ygbs"
''', '''    file_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "ygbs")
'''),
    (U, "import inspect\n", ""),
]

# ---------------------------------------------------------------- C: further rewrites
REF["C"] = [
    (K, '''        with np.errstate(divide='ignore', invalid="ignore"):
            value = density * np.log(ratio)
        # f ln(f / g) vanishes wherever the density is zero (0 * ln(0) = 0)
        value = np.where(density == 0.0, 0.0, value)
''', '''        with np.errstate(divide='ignore', invalid="ignore"):
            value = density * np.log(ratio)
        # f ln(f / g) vanishes wherever the density is zero (0 * ln(0) = 0)
        value[density == 0.0] = 0.0
'''),
    (M, '''        # normalize Gaussian basis
        matrix = matrix * (expons[None, :]**2.5 / np.pi**1.5) / 1.5
''', '''        # normalize Gaussian basis
        norm = 2. * expons**2.5 / (3. * np.pi**1.5)
        matrix = matrix * norm
'''),
    (M, '''        count = 0
        for center in self.center:
            # get coeffs & expons of center
            cs = coeffs[count: count + center.nbasis]
            es = expons[count: count + center.nbasis]
            if deriv:
                # compute linear combination of gaussian placed on center & its derivatives
                g, dg = center.evaluate(cs, es, deriv)
                # split derivatives w.r.t. coeffs & expons
                dg_c = dg[:, :center.nbasis]
                dg_e = dg[:, center.nbasis:]
                # add contributions to the total array
                total_g += g
                total_dg[:, count: count + center.nbasis] = dg_c
                total_dg[:, self.nbasis + count: self.nbasis + count + center.nbasis] = dg_e
            else:
                # compute linear combination of gaussian placed on center
                total_g += center.evaluate(cs, es, deriv)
            count += center.nbasis
''', '''        ends = np.cumsum([center.nbasis for center in self.center])
        for center, end in zip(self.center, ends):
            start = end - center.nbasis
            result = center.evaluate(coeffs[start:end], expons[start:end], deriv)
            if not deriv:
                total_g += result
                continue
            g, dg = result
            total_g += g
            total_dg[:, start:end] = dg[:, :center.nbasis]
            total_dg[:, self.nbasis + start:self.nbasis + end] = dg[:, center.nbasis:]
'''),
    (M, '''        # compute the number of basis on each center
        nbasis = np.sum(self._basis, axis=1)
        # get the center to which the basis function belongs
        index = np.where(np.cumsum(nbasis) >= index + 1)[0][0]
        return index
''', '''        # get the center to which the basis function belongs
        total = 0
        for number, center in enumerate(self.center):
            total += center.nbasis
            if index < total:
                break
        return number
'''),
    (F, '''        # set bounds, initial guess & args
        if opt_coeffs and opt_expons:
            bounds = [(1.e-12, np.inf)] * 2 * self.model.nbasis
            x0 = np.concatenate((c0, e0))
            args = ()
        elif opt_coeffs:
            bounds = [(1.e-12, np.inf)] * self.model.nbasis
            x0 = c0
            args = ("fixed_expons", e0)
        elif opt_expons:
            bounds = [(1.e-12, np.inf)] * self.model.nbasis
            x0 = e0
            args = ("fixed_coeffs", c0)
        else:
            raise ValueError("Nothing to optimize!")
''', '''        # set bounds, initial guess & args
        if not (opt_coeffs or opt_expons):
            raise ValueError("Nothing to optimize!")
        if opt_coeffs and opt_expons:
            x0, args = np.hstack((c0, e0)), ()
        elif opt_coeffs:
            x0, args = c0, ("fixed_expons", e0)
        else:
            x0, args = e0, ("fixed_coeffs", c0)
        nparams = self.model.nbasis * (int(bool(opt_coeffs)) + int(bool(opt_expons)))
        bounds = [(1.e-12, np.inf) for _ in range(nparams)]
'''),
    (F, '''        # split optimized coeffs & expons
        if opt_coeffs and opt_expons:
            coeffs, expons = res["x"][:self.model.nbasis], res["x"][self.model.nbasis:]
        elif opt_coeffs:
            coeffs, expons = res["x"], e0
        else:
            coeffs, expons = c0, res["x"]
''', '''        # split optimized coeffs & expons
        coeffs, expons = c0, e0
        if opt_coeffs:
            coeffs = res.x[:self.model.nbasis]
        if opt_expons:
            expons = res.x[-self.model.nbasis:]
'''),
    (F, '''        avrg1, avrg2 = np.zeros(self.model.nbasis), np.zeros(self.model.nbasis)
        for index in range(self.model.nbasis):
            integrand = -dk * dm[:, index]
            avrg1[index] = self.integrate(integrand)
            if update_expons:
                if self.model.natoms == 1:
                    # case of AtomicGaussianDensity or MolecularGaussianDensity model with 1 atom
                    radii = np.ravel(self.model.radii)
                else:
                    # case of MolecularGaussianDensity model with more than 1 atom
                    center_index = self.model.assign_basis_to_center(index)
                    radii = self.model.radii[center_index]
                avrg2[index] = self.integrate(integrand * radii**2)
''', '''        nbasis = self.model.nbasis
        integrands = [-dk * dm[:, index] for index in range(nbasis)]
        avrg1 = np.array([self.integrate(integrand) for integrand in integrands])
        if update_expons:
            avrg2 = np.zeros(nbasis)
            for index, integrand in enumerate(integrands):
                if self.model.natoms == 1:
                    # case of AtomicGaussianDensity or MolecularGaussianDensity model with 1 atom
                    radii = np.ravel(self.model.radii)
                else:
                    # case of MolecularGaussianDensity model with more than 1 atom
                    radii = self.model.radii[self.model.assign_basis_to_center(index)]
                avrg2[index] = self.integrate(radii * radii * integrand)
'''),
    (L, '''        if mode.lower() == "core":
            points = 1. - np.cos(
                0.5 * np.pi * np.arange(
                    (1.0 - float(include_origin)), num_pts + int(not include_origin), dtype=dtype
                ) / num_pts
            )
            points /= 2 * self._atomic_number
''', '''        if mode.lower() == "core":
            first = 0 if include_origin else 1
            angles = 0.5 * np.pi * np.arange(first, num_pts + first, dtype=dtype) / num_pts
            points = (1. - np.cos(angles)) / (2 * self._atomic_number)
'''),
    (L, '''        volume = self._calculate_volume(shape)
        numpnt = 1.0 * np.prod(shape)
        weights = np.full(np.prod(shape), volume / numpnt)
        return weights
''', '''        number = np.prod(shape)
        return np.ones(number) * self._calculate_volume(shape) / number
'''),
    (L, "        value = np.sum(self._weights * arr)\n        return value\n", "        return np.dot(self._weights, arr)\n"),
    (D, '''        for index, orbital in enumerate(self.orbitals):
            exps, numbers = self.orbitals_exp[orbital[1]], self.basis_numbers[orbital[1]]
            # Calculate del^2 of radial component
            # derivative of the radial component
            deriv_radial = self.derivative_radial_slater_type_orbital(exps, numbers, points)
            phi_matrix[:, index] = np.ravel(np.dot(deriv_radial, self.orbitals_coeff[orbital])**2.0)
            # Calculate del^2 of spherical component
            slater = SlaterAtoms.radial_slater_orbital(exps, numbers, points)
            with np.errstate(divide='ignore'):
                gradient_sph = (
                    angular[orbital[1]] *
                    np.ravel(np.dot(slater, self.orbitals_coeff[orbital]))**2.0 /
                    points**2.0
                )
                gradient_sph[np.abs(points) < 1e-10] = 0.0
            phi_matrix[:, index] += gradient_sph
''', '''        nucleus = np.abs(points) < 1e-10
        radial, d_radial = self.phi_matrix(points), self.phi_matrix(points, deriv=True)
        for index, orbital in enumerate(self.orbitals):
            with np.errstate(divide='ignore'):
                spherical = angular[orbital[1]] * radial[:, index]**2 / points**2
            spherical[nucleus] = 0.0
            phi_matrix[:, index] = d_radial[:, index]**2 + spherical
'''),
    (D, "        factor = self.phi_matrix(points) * self.phi_matrix(points, deriv=True)\n        derivative = np.dot(2. * factor, self.orbitals_occupation).ravel() / (4 * np.pi)\n        return derivative\n",
     "        phi = self.phi_matrix(points)\n        d_phi = self.phi_matrix(points, deriv=True)\n        return np.dot(phi * d_phi, self.orbitals_occupation)[:, 0] / (2 * np.pi)\n"),
    (G, '''    size = fparams.shape[0]
    all_choices = []
    for index, exp in np.ndenumerate(fparams):
        if index[0] == 0:
            exps_arr = np.insert(fparams, index, exp / factor)
            coeffs_arr = np.insert(coeffs, index, coeff_val)
        elif index[0] <= size:
            exps_arr = np.insert(fparams, index, (fparams[index[0] - 1] +
                                                  fparams[index[0]]) / 2)
            coeffs_arr = np.insert(coeffs, index, coeff_val)
        all_choices.append(np.append(coeffs_arr, exps_arr))
        if index[0] == size - 1:
            exps_arr = np.append(fparams, np.array([exp * factor]))
            endpt = np.append(coeffs, np.array([coeff_val]))
            all_choices.append(np.append(endpt, exps_arr))
    return all_choices
''', '''    new_exps = [fparams[0] / factor]
    new_exps += [(low + high) / 2 for low, high in zip(fparams[:-1], fparams[1:])]
    new_exps += [fparams[-1] * factor]
    return [
        np.concatenate((np.insert(coeffs, i, coeff_val), np.insert(fparams, i, exp)))
        for i, exp in enumerate(new_exps)
    ]
'''),
    (G, '''        for j in range(0, len(p) // 2):
            new_coeff = np.delete(coeff, j)
            new_exp = np.delete(exp, j)
            all_choices.append(np.append(new_coeff, new_exp))
''', '''        all_choices += [
            np.append(np.delete(coeff, j), np.delete(exp, j)) for j in range(len(coeff))
        ]
'''),
    (S, '''        if t_orbital[1] == "S":
            return int(t_orbital[0]) + 1
        elif t_orbital[1] == "P":
            return int(t_orbital[0])
        elif t_orbital[1] == "D":
            return int(t_orbital[0]) - 1
        elif t_orbital[1] == "F":
            return int(t_orbital[0]) - 2
        else:
            raise ValueError(f"Did not recognize orbital {t_orbital}.")
''', '''        shift = {"S": 1, "P": 0, "D": -1, "F": -2}
        if t_orbital[1] not in shift:
            raise ValueError(f"Did not recognize orbital {t_orbital}.")
        return int(t_orbital[0]) + shift[t_orbital[1]]
'''),
    (S, '''    if anion:
        if element.lower() in anion_atoms:
            file_path = f"/data/anion/{element.lower()}.an"
        else:
            raise ValueError(
                f"Anion Slater File for element {element} does not exist."
            )
    elif cation:
        if element.lower() in cation_atoms:
            file_path = f"/data/cation/{element.lower()}.cat"
        else:
            raise ValueError(
                f"Cation Slater File for element {element} does not exist."
            )
    else:
        file_path = f"/data/neutral/{element.lower()}.slater"
    file_name = os.path.join(os.path.dirname(__file__) + file_path)
''', '''    symbol = element.lower()
    if anion and symbol not in anion_atoms:
        raise ValueError(f"Anion Slater File for element {element} does not exist.")
    if cation and not anion and symbol not in cation_atoms:
        raise ValueError(f"Cation Slater File for element {element} does not exist.")
    folder, suffix = ("anion", "an") if anion else ("cation", "cat") if cation else ("neutral", "slater")
    file_name = os.path.join(os.path.dirname(__file__), "data", folder, symbol + "." + suffix)
'''),
]

# ---------------------------------------------------------------- D: restructured
REF["D"] = [
    (K, "    @abstractmethod\n    def evaluate(self, density, model, deriv=False):", '''    @staticmethod
    def _check(density, model, deriv):
        """Check the arguments."""
''' + _chk + '''
    @abstractmethod
    def evaluate(self, density, model, deriv=False):'''),
    (K, _chk, "        self._check(density, model, deriv)\n", -1),
    (K, '''        # compute ratio & replace masked values by 1.0
        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=1.0)
''', '''        ratio = self._ratio(density, model)
'''),
    (K, '''    @property
    def negative_val(self):''', '''    def _ratio(self, density, model, fill_value=1.0):
        """Return density / model with a replacement where the model is tiny."""
        masked = np.ma.masked_where(model <= self._mask_value, model)
        return np.ma.filled(density / masked, fill_value)

    @property
    def negative_val(self):'''),
    (M, '''        if points.ndim > 1:
            radii = np.linalg.norm(points - self.coord, axis=1)
        else:
            radii = np.abs(points - self.coord)
        self._radii = np.ravel(radii)
''', '''        shifted = points - self.coord
        radii = np.abs(shifted) if points.ndim == 1 else np.sqrt(np.sum(shifted**2, axis=1))
        self._radii = np.ravel(radii)
'''),
    (M, '''        if self.np == 0:
            # only s-type Gaussian basis functions
            return self._eval_s(matrix, coeffs, expons, deriv)
        elif self.ns == 0:
            # only p-type Gaussian basis functions
            return self._eval_p(matrix, coeffs, expons, deriv)
        else:
            # both s-type & p-type Gaussian basis functions
            gs = self._eval_s(matrix[:, :self.ns], coeffs[:self.ns], expons[:self.ns], deriv)
            gp = self._eval_p(matrix[:, self.ns:], coeffs[self.ns:], expons[self.ns:], deriv)
            if deriv:
                # split derivatives w.r.t. coeffs & expons
                d_coeffs = np.concatenate((gs[1][:, :self.ns], gp[1][:, :self.np]), axis=1)
                d_expons = np.concatenate((gs[1][:, self.ns:], gp[1][:, self.np:]), axis=1)
                return gs[0] + gp[0], np.concatenate((d_coeffs, d_expons), axis=1)
            return gs + gp
''', '''        ns = self.num_s
        gs = self._eval_s(matrix[:, :ns], coeffs[:ns], expons[:ns], deriv)
        gp = self._eval_p(matrix[:, ns:], coeffs[ns:], expons[ns:], deriv)
        if not deriv:
            return gs + gp
        (value_s, deriv_s), (value_p, deriv_p) = gs, gp
        # split derivatives w.r.t. coeffs & expons
        d_coeffs_s, d_expons_s = np.hsplit(deriv_s, 2)
        d_coeffs_p, d_expons_p = np.hsplit(deriv_p, 2)
        return value_s + value_p, np.hstack((d_coeffs_s, d_coeffs_p, d_expons_s, d_expons_p))
'''),
    (F, '''        while ((max_diff_expons > e_threshold or max_diff_coeffs > c_threshold) and
               diff_divergence > d_threshold) and maxiter > niter:
''', '''        while niter < maxiter:
            moved = max_diff_expons > e_threshold or max_diff_coeffs > c_threshold
            if not (moved and diff_divergence > d_threshold):
                break
'''),
    (F, '''            performance.append(self.goodness_of_fit(new_cs, new_es))
            fun.append(performance[-1][-1])
            niter += 1
            # compute absolute change in divergence
            if niter != 1:
                diff_divergence = np.abs(performance[niter - 1][-1] - performance[niter - 2][-1])
''', '''            errors = self.goodness_of_fit(new_cs, new_es)
            # compute absolute change in divergence
            if fun:
                diff_divergence = np.abs(errors[-1] - fun[-1])
            performance.append(errors)
            fun.append(errors[-1])
            niter += 1
'''),
    (F, '''        if len(args) != 0:
            if args[0] == "fixed_coeffs":
                coeffs = args[1]
                expons = x
                start, end = self.model.nbasis, 2 * self.model.nbasis
            elif args[0] == "fixed_expons":
                coeffs = x
                expons = args[1]
                start, end = 0, self.model.nbasis
            else:
                raise ValueError("Argument args is not understandable!")
        else:
            coeffs, expons = x[:self.model.nbasis], x[self.model.nbasis:]
            start, end = 0, 2 * self.model.nbasis
        # compute model density & its derivative
        m, dm = self.model.evaluate(coeffs, expons, deriv=True)
        return m, dm[:, start: end]
''', '''        nbasis = self.model.nbasis
        kind = args[0] if args else None
        if kind is None:
            coeffs, expons = np.split(x, [nbasis])
            columns = slice(None)
        elif kind == "fixed_coeffs":
            coeffs, expons = args[1], x
            columns = slice(nbasis, None)
        elif kind == "fixed_expons":
            coeffs, expons = x, args[1]
            columns = slice(nbasis)
        else:
            raise ValueError("Argument args is not understandable!")
        # compute model density & its derivative
        m, dm = self.model.evaluate(coeffs, expons, deriv=True)
        return m, dm[:, columns]
'''),
    (F, '''        m, _ = self.evaluate_model(x, *args)
        cons = self.integral_dens - self.integrate(m)
        return cons
''', '''        return self.integral_dens - self.integrate(self.evaluate_model(x, *args)[0])
'''),
    (G, '''        # Initialize the values being returned.
        best_local_value = np.inf
        best_local_param = None
        is_s_optimal = False
        for i in range(0, num_s_choices + num_p_choices):
            # Get the function parameter guess.
            param = param_list[i]
            # Update model for the new number of S-type and P-type functions.
            if i < num_s_choices:
                # Update the number of s-type basis functions for this guess.
                self.model.change_numb_s_and_numb_p(
                    self.num_s + self.numb_func_increase, self.num_p
                )
            else:
                # Update the number of p-type basis functions for this guess.
                self.model.change_numb_s_and_numb_p(
                    self.num_s, self.num_p + self.numb_func_increase
                )
            # Optimize using this initial guess and get cost-function value.
            local_param = self.get_optimization_routine(param, local=True)
            cost_func = self.eval_obj_function(local_param)
            # If it is the best found, then return it.
            if best_local_param is None or np.isnan(best_local_value) or cost_func < best_local_value:
                best_local_value = self.eval_obj_function(local_param)
                best_local_param = local_param
                is_s_optimal = bool(i < num_s_choices)
        return best_local_value, best_local_param, is_s_optimal
''', '''        best = None
        for i, param in enumerate(param_list[:num_s_choices + num_p_choices]):
            is_s = i < num_s_choices
            new_s = self.num_s + (self.numb_func_increase if is_s else 0)
            new_p = self.num_p + (0 if is_s else self.numb_func_increase)
            self.model.change_numb_s_and_numb_p(new_s, new_p)
            # Optimize using this initial guess and get cost-function value.
            local_param = self.get_optimization_routine(param, local=True)
            cost_func = self.eval_obj_function(local_param)
            # If it is the best found, then keep it.
            if best is None or np.isnan(best[0]) or cost_func < best[0]:
                best = (cost_func, local_param, is_s)
        return best
'''),
    (G, '''        s_coeffs = params[:self.num_s]
        p_coeffs = params[self.num_s:self.num_s + self.num_p]
        s_exps = params[self.num_s + self.num_p:2 * self.num_s + self.num_p]
        p_exps = params[2 * self.num_s + self.num_p:]
        return s_coeffs, s_exps, p_coeffs, p_exps
''', '''        coeffs, exps = np.split(params, 2)
        return coeffs[:self.num_s], exps[:self.num_s], coeffs[self.num_s:], exps[self.num_s:]
'''),
    (G, '''        if len(self.err_arr) == 0:
            self.err_arr = [err]
        else:
            self.err_arr.append(err)
''', '''        self.err_arr = self.err_arr + [err]
'''),
    (D, '''            with np.errstate(divide='ignore'):
                gradient_sph = (
                    angular[orbital[1]] *
                    np.ravel(np.dot(slater, self.orbitals_coeff[orbital]))**2.0 /
                    points**2.0
                )
                gradient_sph[np.abs(points) < 1e-10] = 0.0
            phi_matrix[:, index] += gradient_sph
''', '''            away = np.abs(points) >= 1e-10
            radial = np.ravel(np.dot(slater, self.orbitals_coeff[orbital]))
            number = "SPDF".index(orbital[1])
            phi_matrix[away, index] += number * (number + 1) * (radial[away] / points[away])**2
'''),
    (D, '''        with np.errstate(divide='ignore'):
            # derivative
            deriv_pref = (number.T - 1.) / np.reshape(points, (points.shape[0], 1)) - exponent.T
            deriv_pref[np.abs(points) < 1e-10, :] = 0.0
        deriv = deriv_pref * slater
        return deriv
''', '''        column = points[:, None]
        with np.errstate(divide='ignore'):
            deriv_pref = (number.ravel() - 1.) / column - exponent.ravel()
        return np.where(np.abs(column) < 1e-10, 0.0, deriv_pref) * slater
'''),
    (L, '''        max_coordinate = np.amax(new_coordinates, axis=0)
        min_coordinate = np.amin(new_coordinates, axis=0)
''', '''        max_coordinate = new_coordinates.max(axis=0)
        min_coordinate = new_coordinates.min(axis=0)
'''),
    (L, '''        middle = 0.5 * (max_coordinate + min_coordinate) / spacing
        origin = com + np.dot(middle - 0.5 * shape, axes)
''', '''        corner = 0.5 * ((max_coordinate + min_coordinate) / spacing - shape)
        origin = corner.dot(axes) + com
'''),
    (S, '''        line = f.readline()
        configuration = line.split()[1].replace(",", "")
''', '''        first, *_ = f.readlines(1)
        configuration = "".join(first.split()[1].split(","))
'''),
    (U, '''    with open(file_path, "r", encoding="utf8") as f:
        for line in f:
            split_words = line.strip().split()
            if len(split_words) > 0 and split_words[0].lower() == element.lower():
                next_line = f.readline().strip().split()
                output[split_words[1]].append(float(next_line[0]))
    return output
''', '''    with open(file_path, "r", encoding="utf8") as f:
        lines = [line.split() for line in f.read().splitlines()]
    symbol = element.lower()
    for words, following in zip(lines, lines[1:]):
        if words and words[0].lower() == symbol:
            output[words[1]].append(float(following[0]))
    return output
'''),
]

# ---------------------------------------------------------------- E: greedy search and file readers restructured
REF["E"] = [
    (G, '''    new_coeffs = coeffs.copy()
    new_exps = fparams.copy()
    # Indexes where they're the same.
    indexes_same = []
    merged = set()  # Indexes that are already merged into an earlier one.
    for i, alpha in enumerate(fparams):
        similar_indexes = []
        if i in merged:
            continue
        for j in range(i + 1, len(fparams)):
            if j not in merged:
                if np.abs(alpha - fparams[j]) < eps:
                    if i not in similar_indexes:
                        similar_indexes.append(i)
                    similar_indexes.append(j)
                    merged.add(j)
        if len(similar_indexes) != 0:
            indexes_same.append(similar_indexes)
    # Add the coefficients together and add/group them, if need be
    for group_similar_items in indexes_same:
        for i in range(1, len(group_similar_items)):
            new_coeffs[group_similar_items[0]] += coeffs[group_similar_items[i]]
    if len(indexes_same) != 0:
        indices = [y for x in indexes_same for y in x[1:]]
        new_exps = np.delete(new_exps, indices)
        new_coeffs = np.delete(new_coeffs, indices)
    return new_coeffs, new_exps
''', '''    size = len(fparams)
    new_coeffs = np.array(coeffs)
    keep = np.ones(size, dtype=bool)
    for i in range(size):
        if not keep[i]:
            continue
        for j in range(i + 1, size):
            if keep[j] and abs(fparams[i] - fparams[j]) < eps:
                new_coeffs[i] += coeffs[j]
                keep[j] = False
    return new_coeffs[keep], fparams[keep]
'''),
    (G, '''        best_local_value = np.inf
        best_local_param = None
        is_s_optimal = False
        for i in range(0, num_s_choices + num_p_choices):
            # Get the function parameter guess.
            param = param_list[i]
            # Update model for the new number of S-type and P-type functions.
            if i < num_s_choices:
''', '''        best_local_value, best_local_param, is_s_optimal = np.inf, None, False
        is_s_type = [True] * num_s_choices + [False] * num_p_choices
        for param, is_s in zip(param_list, is_s_type):
            # Update model for the new number of S-type and P-type functions.
            if is_s:
'''),
    (G, "                best_local_value = self.eval_obj_function(local_param)\n                best_local_param = local_param\n                is_s_optimal = bool(i < num_s_choices)\n",
        "                best_local_value, best_local_param, is_s_optimal = cost_func, local_param, is_s\n"),
    (G, '''            choices_parameters_s = self.next_param_func(factor, s_coeffs, s_exps)
            choices_parameters_s = [
                np.hstack((x[:self.num_s + self.numb_func_increase], p_coeffs,
                           x[self.num_s + self.numb_func_increase:], p_exps))
                for x in choices_parameters_s
            ]
            if self.num_p == 0:
                # Get Three Guesses one from 0 to 1, 1 to 10 and 10 to 100.
                choices_parameters_p = [
                    np.random.random((2 * self.numb_func_increase,)),
                    np.random.random((2 * self.numb_func_increase,)) * 9 + 1,
                    np.random.random((2 * self.numb_func_increase,)) * 90 + 10,
                ]
            else:
                choices_parameters_p = self.next_param_func(factor, p_coeffs, p_exps)
            choices_parameters_p = [
                np.hstack((s_coeffs, x[:self.num_p + self.numb_func_increase],
                           s_exps, x[self.num_p + self.numb_func_increase:]))
                for x in choices_parameters_p
            ]
            num_s_choices = len(choices_parameters_s)
            num_p_choices = len(choices_parameters_p)
            total_choices = choices_parameters_s + choices_parameters_p
''', '''            total_choices, num_s_choices = self._next_guesses(
                factor, s_coeffs, s_exps, p_coeffs, p_exps
            )
            num_p_choices = len(total_choices) - num_s_choices
'''),
    (G, "    def _split_parameters(self, params):", '''    def _next_guesses(self, factor, s_coeffs, s_exps, p_coeffs, p_exps):
        """Return the guesses with more S-type and then those with more P-type functions."""
        step = self.numb_func_increase
        guesses = []
        for guess in self.next_param_func(factor, s_coeffs, s_exps):
            new_coeffs, new_exps = guess[:self.num_s + step], guess[self.num_s + step:]
            guesses.append(np.concatenate([new_coeffs, p_coeffs, new_exps, p_exps]))
        number_s = len(guesses)
        if self.num_p > 0:
            more_p = self.next_param_func(factor, p_coeffs, p_exps)
        else:
            # Get Three Guesses one from 0 to 1, 1 to 10 and 10 to 100.
            more_p = [np.random.random((2 * step,)) * (hi - lo) + lo for lo, hi in ((0, 1), (1, 10), (10, 100))]
        for guess in more_p:
            new_coeffs, new_exps = guess[:self.num_p + step], guess[self.num_p + step:]
            guesses.append(np.concatenate([s_coeffs, new_coeffs, s_exps, new_exps]))
        return guesses, number_s

    def _accept(self, params_iter, gparams):
        """Record an accepted set of parameters."""
        self.store_errors(gparams)
        params_iter.append(gparams)

    def _split_parameters(self, params):'''),
    (G, '''                self.store_errors(gparams)
                params_iter.append(gparams)  # Store parameters.
''', "                self._accept(params_iter, gparams)\n"),
    (G, "            _, best_lparam, is_s_optimal = self._find_best_lparams(", "            best_lparam, is_s_optimal = self._find_best_lparams("),
    (G, "                total_choices, num_s_choices, num_p_choices\n            )\n", "                total_choices, num_s_choices, num_p_choices\n            )[1:]\n"),
    (G, '''            found_s_redundances = self.num_s != len(s_coeffs_new)
            found_p_redundancies = self.num_p != len(p_coeffs_new)
            if found_s_redundances or found_p_redundancies or not opt_lvalue <= best_gval:
''', '''            found_redundancies = len(s_coeffs_new) + len(p_coeffs_new) < self.num_s + self.num_p
            improved = opt_lvalue <= best_gval and not found_redundancies
            if not improved:
'''),
    (G, "            elif opt_lvalue <= best_gval:\n", "            else:\n"),
    (G, '''        p_min = min(
            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)], key=lambda t: t[0]
        )
        return p_min[1]
''', '''        costs = (cost_func1, cost_func2, cost_func3)
        return (p1, p2, p3)[costs.index(min(costs))]
'''),
    (G, '''        if local:
            results = self.fitting_obj.run(
                coeffs, exps, tol=self.local_tol, maxiter=self.l_maxiter,
                with_constraint=self.with_constraint
            )
        else:
            results = self.fitting_obj.run(
                coeffs, exps, tol=self.global_tol, maxiter=self.g_maxiter,
                with_constraint=self.with_constraint
            )
''', '''        tol, maxiter = (self.local_tol, self.l_maxiter) if local else (self.global_tol, self.g_maxiter)
        options = dict(tol=tol, maxiter=maxiter, with_constraint=self.with_constraint)
        results = self.fitting_obj.run(coeffs, exps, **options)
'''),
    (S, '''        electron_config_list = configuration
        shells = ["K", "L", "M", "N"]
''', '''        electron_config_list = configuration
        closed = {"K": {"1S": 2}, "L": {"2S": 2, "2P": 6}, "M": {"3S": 2, "3P": 6, "3D": 10},
                  "N": {"4S": 2, "4P": 6, "4D": 10, "4F": 14}}
'''),
    (S, '''        for x in shells:
            if x in electron_config_list:
                if x == "K":
                    out["1S"] = 2
                elif x == "L":
                    out["2S"] = 2
                    out["2P"] = 6
                elif x == "M":
                    out["3S"] = 2
                    out["3P"] = 6
                    out["3D"] = 10
                elif x == "N":
                    out["4S"] = 2
                    out["4P"] = 6
                    out["4D"] = 10
                    out["4F"] = 14
''', '''        for shell, numbers in closed.items():
            if shell in electron_config_list:
                out.update(numbers)
'''),
    (S, '''                index = electron_config_list.index(x)
                orbital = electron_config_list[index : index + 2]
                if orbital[1] == "D" or orbital[1] == "F":
                    num_electrons = re.search(orbital + r"\\((.*?)\\)", electron_config_list).group(1)
                    out[orbital] = int(num_electrons)
                else:
                    out[orbital] = int(electron_config_list[index + 3: index + 4])
''', '''                start = electron_config_list.find(x)
                stop = electron_config_list.find(")", start)
                out[x] = int(electron_config_list[start + 3:stop])
'''),
    (S, '''        if t_orbital[1] == "S":
            return int(t_orbital[0]) + 1
        elif t_orbital[1] == "P":
            return int(t_orbital[0])
        elif t_orbital[1] == "D":
            return int(t_orbital[0]) - 1
        elif t_orbital[1] == "F":
            return int(t_orbital[0]) - 2
        else:
            raise ValueError(f"Did not recognize orbital {t_orbital}.")
''', '''        number, kind = int(t_orbital[0]), t_orbital[1]
        first = "SPDF".find(kind)
        if first < 0:
            raise ValueError(f"Did not recognize orbital {t_orbital}.")
        return number + 1 - first
'''),
    (S, '''                while re.match(r'\\A^\\d' + subshell, line.lstrip()):
                    list_words = line.split()
                    orbitals_exp[subshell] += [float(list_words[1])]
                    orbitals_basis[subshell] += [list_words[0]]
                    for x in list_of_orbitals:
                        orbitals_coeff[x] += [float(list_words[_get_column(x)])]
                    line = f.readline()
''', '''                while line.lstrip()[:1].isdigit() and line.lstrip()[1:2] == subshell:
                    name, exponent, *_ = list_words = line.split()
                    orbitals_exp[subshell].append(float(exponent))
                    orbitals_basis[subshell].append(name)
                    for x in list_of_orbitals:
                        orbitals_coeff[x].append(float(list_words[_get_column(x)]))
                    line = f.readline()
'''),
    (S, "        while len(next_line.strip()) == 0:\n            next_line = f.readline()\n", "        while not next_line.strip():\n            next_line = f.readline()\n"),
    (S, "            'orbitals_occupation': np.array([_get_number_of_electrons_per_orbital(configuration)[k]\n                                             for k in orbitals])[:, None],\n",
        "            'orbitals_occupation': np.array([[occupations[k]] for k in orbitals]),\n"),
    (S, "    data = {'configuration': configuration,", "    occupations = _get_number_of_electrons_per_orbital(configuration)\n    data = {'configuration': configuration,"),
    (U, '''    path_to_function = os.path.abspath(inspect.getfile(get_ugbs_exponents))
    path_to_function = path_to_function[:-13]  # Remove parse_ugbs.py <- 13 characters
    file_path = path_to_function + r"data/ygbs"
''', '''    folder = os.path.dirname(os.path.abspath(inspect.getfile(get_ugbs_exponents)))
    file_path = os.path.join(folder, "data", "ygbs")
'''),
    (U, '''        for line in f:
            split_words = line.strip().split()
            if len(split_words) > 0 and split_words[0].lower() == element.lower():
                next_line = f.readline().strip().split()
                output[split_words[1]].append(float(next_line[0]))
''', '''        lines = [line.split() for line in f]
    wanted = element.lower()
    for words, following in zip(lines, lines[1:]):
        if words and words[0].lower() == wanted:
            output[words[1]].append(float(following[0]))
'''),
]

# ---------------------------------------------------------------- F: grids, fits, densities, measures and models restructured with other language features
REF["F"] = [
    (L, '''        return np.trapz(y=arr, x=self.points)
''', '''        left, right = slice(None, -1), slice(1, None)
        return np.sum(0.5 * (arr[right] + arr[left]) * (self.points[right] - self.points[left]))
'''),
    (L, '''        if not isinstance(min_radii, (int, float)):
            raise TypeError(
                f"Argument min_radii {type(min_radii)} should be a float or integer."
            )
        if not isinstance(max_radii, (int, float)):
            raise TypeError(
                f"Argument max_radii {type(max_radii)} should be a float or integer."
            )
''', '''        for label, limit in dict(min_radii=min_radii, max_radii=max_radii).items():
            if isinstance(limit, (int, float)):
                continue
            raise TypeError(f"Argument {label} {type(limit)} should be a float or integer.")
'''),
    (L, '''        if extra_pts:
            # check extra points
            if not hasattr(extra_pts, '__iter__') or isinstance(extra_pts, str):
                raise TypeError("Argument extra_pts should be an iterable.")
            points = np.concatenate((core_points, diff_points, extra_pts))
        else:
            points = np.concatenate((core_points, diff_points))
        super().__init__(np.sort(points))
''', '''        blocks = [core_points, diff_points]
        if extra_pts:
            # check extra points
            if isinstance(extra_pts, str) or not hasattr(extra_pts, '__iter__'):
                raise TypeError("Argument extra_pts should be an iterable.")
            blocks.append(extra_pts)
        points = np.hstack(blocks)
        points.sort()
        super().__init__(points)
'''),
    (L, '''        if mode.lower() == "core":
            points = 1. - np.cos(
                0.5 * np.pi * np.arange(
                    (1.0 - float(include_origin)), num_pts + int(not include_origin), dtype=dtype
                ) / num_pts
            )
            points /= 2 * self._atomic_number
        elif mode.lower() == "diffuse":
            points = 25. * (
                    1. - np.cos(0.5 * np.pi * np.arange(1.0, num_pts + 1, dtype=dtype) / num_pts)
            )
        else:
            raise ValueError(
                f"Arguments mode={mode.lower()} is not recognized!"
            )
        return points
''', '''        match mode.lower():
            case "core":
                first = 0.0 if include_origin else 1.0
                last = num_pts if include_origin else num_pts + 1
                scale = 1. / (2 * self._atomic_number)
            case "diffuse":
                first, last, scale = 1.0, num_pts + 1, 25.
            case other:
                raise ValueError(f"Arguments mode={other} is not recognized!")
        angles = 0.5 * np.pi * np.arange(first, last, dtype=dtype) / num_pts
        return scale * (1. - np.cos(angles))
'''),
    (L, '''        dim = self._origin.size
        # Make an array to store coordinates of grid points
        self._points = np.zeros((np.prod(shape), dim))
        coords = np.array(
            np.meshgrid(
                np.arange(shape[0]), np.arange(shape[1]), np.arange(shape[2])
            )
        )
        coords = np.swapaxes(coords, 1, 2)
        coords = coords.reshape(3, -1)
        points = coords.T.dot(self._axes) + origin
        # assign the weights
        weights = self._choose_weight_scheme(shape)
        self._weights = weights
        self._points = np.array(points)
''', '''        self._points = np.zeros((np.prod(shape), self._origin.size))
        # Coordinates of the grid points: the last index runs fastest
        steps = [np.arange(n) for n in (shape[0], shape[1], shape[2])]
        coords = np.stack([c.ravel() for c in np.meshgrid(*steps, indexing="ij")], axis=-1)
        self._points = np.array(coords.dot(self._axes) + origin)
        # assign the weights
        self._weights = self._choose_weight_scheme(shape)
'''),
    (L, '''            itensor = np.zeros([3, 3])
            for i in range(atcorenums.shape[0]):
                xyz = atcoords[i] - com
                r = np.linalg.norm(xyz) ** 2.0
                tempitens = np.diag([r, r, r])
                tempitens -= np.outer(xyz.T, xyz)
                itensor += atcorenums[i] * tempitens
''', '''            itensor = np.zeros([3, 3])
            for charge, xyz in zip(atcorenums, atcoords - com):
                itensor += charge * (np.sum(xyz**2) * np.eye(3) - xyz[:, None] * xyz[None, :])
'''),
    (L, '''        volume = self._calculate_volume(shape)
        numpnt = 1.0 * np.prod(shape)
        weights = np.full(np.prod(shape), volume / numpnt)
        return weights
''', '''        size = np.prod(shape)
        return np.ones(size) * (self._calculate_volume(shape) / float(size))
'''),
    (F, '''        if not hasattr(self.grid, "points"):
            raise AttributeError(
                f"Grid class {type(self.grid)} should contain attribute 'points'."
            )
        if not (hasattr(self.grid, 'integrate') and callable(getattr(self.grid, 'integrate'))):
            raise AttributeError(
                f"Grid class {type(self.grid)} should contain method called 'integrate'."
            )
''', '''        try:
            grid.points
        except AttributeError as err:
            raise AttributeError(
                f"Grid class {type(self.grid)} should contain attribute 'points'."
            ) from err
        if not callable(getattr(grid, "integrate", None)):
            raise AttributeError(
                f"Grid class {type(self.grid)} should contain method called 'integrate'."
            )
'''),
    (F, '''        return [
            self.integrate(approx),
            self.integrate(diff),
            np.max(diff),
            self.integrate(self.ls_error.evaluate(self.density, approx, deriv=False)),
            self.integrate(self.kl_error.evaluate(self.density, approx, deriv=False))
        ]
''', '''        def deviation(measure):
            return self.integrate(measure.evaluate(self.density, approx, deriv=False))

        report = _Report(
            integral=self.integrate(approx), l1=self.integrate(diff), linf=diff.max(),
            squares=deviation(self.ls_error), kl=deviation(self.kl_error),
        )
        return list(report)
'''),
    (F, '''__all__ = ["KLDivergenceFPI", "ScipyFit"]
''', '''__all__ = ["KLDivergenceFPI", "ScipyFit"]

_Report = namedtuple("_Report", ["integral", "l1", "linf", "squares", "kl"])


@dataclass
class _Change:
    """Largest change of the parameters and of the objective."""

    coeffs: float = np.inf
    expons: float = np.inf
    objective: float = np.inf

    def converged(self, c_threshold, e_threshold, d_threshold):
        """Whether the parameters or the objective moved no more than the thresholds."""
        moved = self.expons > e_threshold or self.coeffs > c_threshold
        return not (moved and self.objective > d_threshold)
'''),
    (F, '''import warnings
''', '''import warnings
from collections import namedtuple
from dataclasses import dataclass
'''),
    (F, '''        avrg1, avrg2 = np.zeros(self.model.nbasis), np.zeros(self.model.nbasis)
        for index in range(self.model.nbasis):
            integrand = -dk * dm[:, index]
            avrg1[index] = self.integrate(integrand)
            if update_expons:
                if self.model.natoms == 1:
                    # case of AtomicGaussianDensity or MolecularGaussianDensity model with 1 atom
                    radii = np.ravel(self.model.radii)
                else:
                    # case of MolecularGaussianDensity model with more than 1 atom
                    center_index = self.model.assign_basis_to_center(index)
                    radii = self.model.radii[center_index]
                avrg2[index] = self.integrate(integrand * radii**2)
''', '''        integrands = [-dk * dm[:, index] for index in range(self.model.nbasis)]
        avrg1 = np.array([self.integrate(integrand) for integrand in integrands])
        if update_expons:
            avrg2 = np.array([self.integrate(integrand * self._radii_of(index)**2)
                              for index, integrand in enumerate(integrands)])
'''),
    (F, '''    def _update_params(self, coeffs, expons, update_coeffs=True, update_expons=False):
''', '''    def _radii_of(self, index):
        """Distances of the grid points from the center of a basis function."""
        if self.model.natoms == 1:
            return np.ravel(self.model.radii)
        return self.model.radii[self.model.assign_basis_to_center(index)]

    def _update_params(self, coeffs, expons, update_coeffs=True, update_expons=False):
'''),
    (F, '''        while ((max_diff_expons > e_threshold or max_diff_coeffs > c_threshold) and
               diff_divergence > d_threshold) and maxiter > niter:
            # update old coeffs & expons
''', '''        change = _Change()
        while niter < maxiter:
            if change.converged(c_threshold, e_threshold, d_threshold):
                break
            # update old coeffs & expons
'''),
    (F, '''            max_diff_coeffs = np.max(np.abs(new_cs - old_cs))
            max_diff_expons = np.max(np.abs(new_es - old_es))
''', '''            change.coeffs = max_diff_coeffs = np.abs(new_cs - old_cs).max()
            change.expons = max_diff_expons = np.abs(new_es - old_es).max()
'''),
    (F, '''            if niter != 1:
                diff_divergence = np.abs(performance[niter - 1][-1] - performance[niter - 2][-1])
''', '''            if len(fun) > 1:
                diff_divergence = abs(fun[-1] - fun[-2])
            change.objective = diff_divergence
'''),
    (F, '''        # assign coefficients & exponents
        if len(args) != 0:
            if args[0] == "fixed_coeffs":
                coeffs = args[1]
                expons = x
                start, end = self.model.nbasis, 2 * self.model.nbasis
            elif args[0] == "fixed_expons":
                coeffs = x
                expons = args[1]
                start, end = 0, self.model.nbasis
            else:
                raise ValueError("Argument args is not understandable!")
        else:
            coeffs, expons = x[:self.model.nbasis], x[self.model.nbasis:]
            start, end = 0, 2 * self.model.nbasis
        # compute model density & its derivative
        m, dm = self.model.evaluate(coeffs, expons, deriv=True)
        return m, dm[:, start: end]
''', '''        size = self.model.nbasis
        # assign coefficients & exponents
        match args:
            case ():
                coeffs, expons, columns = x[:size], x[size:], slice(0, 2 * size)
            case ("fixed_coeffs", fixed):
                coeffs, expons, columns = fixed, x, slice(size, 2 * size)
            case ("fixed_expons", fixed):
                coeffs, expons, columns = x, fixed, slice(0, size)
            case _:
                raise ValueError("Argument args is not understandable!")
        # compute model density & its derivative
        m, dm = self.model.evaluate(coeffs, expons, deriv=True)
        return m, dm[:, columns]
'''),
    (F, '''        d_obj = np.zeros_like(x)
        for index in range(len(x)):
            d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
        return obj, d_obj
''', '''        slope = self.weights * dk
        return obj, np.array([self.integrate(slope * column) for column in dm.T], dtype=x.dtype)
'''),
    (D, '''        self._energy = data["energy"]
        self._potential_energy = data["potential_energy"]
        self._kinetic_energy = data["kinetic_energy"]
        self._configuration = data["configuration"]
        self._orbitals = data["orbitals"]
        self._orbitals_occupation = data["orbitals_occupation"]
        self._orbitals_basis = data["orbitals_basis"]
        self._basis_numbers = data["basis_numbers"]
        self._orbitals_exp = data["orbitals_exp"]
        self._orbitals_coeff = data["orbitals_coeff"]
        self._orbitals_energy = data["orbitals_energy"]
        self._orbitals_cusp = data["orbitals_cusp"]
''', '''        for name in _FIELDS:
            setattr(self, f"_{name}", data[name])
'''),
    (D, '''__all__ = ["SlaterAtoms"]
''', '''__all__ = ["SlaterAtoms"]

_FIELDS = (
    "energy", "potential_energy", "kinetic_energy", "configuration", "orbitals", "orbitals_occupation", "orbitals_basis",
    "basis_numbers", "orbitals_exp", "orbitals_coeff", "orbitals_energy", "orbitals_cusp",
)
'''),
    (D, '''        phi_matrix = np.zeros((len(points), len(self.orbitals)))
        for index, orbital in enumerate(self.orbitals):
            exps, number = self.orbitals_exp[orbital[1]], self.basis_numbers[orbital[1]]
            if deriv:
                slater = self.derivative_radial_slater_type_orbital(exps, number, points)
            else:
                slater = self.radial_slater_orbital(exps, number, points)
            phi_matrix[:, index] = np.dot(slater, self.orbitals_coeff[orbital]).ravel()
        return phi_matrix
''', '''        evaluate = self.derivative_radial_slater_type_orbital if deriv else self.radial_slater_orbital
        # basis functions of a shell are shared by its orbitals
        shells = {}
        columns = []
        for orbital in self.orbitals:
            shell = orbital[1]
            if shell not in shells:
                shells[shell] = evaluate(self.orbitals_exp[shell], self.basis_numbers[shell], points)
            columns.append(np.dot(shells[shell], self.orbitals_coeff[orbital]).ravel())
        return np.column_stack(columns)
'''),
    (D, '''        orb_occs = self.orbitals_occupation
        if mode == "valence":
            orb_homo = np.max(self.orbitals_energy)
            orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
        elif mode == "core":
            orb_homo = np.max(self.orbitals_energy)
            orb_occs = orb_occs * (1. - np.exp(-(self.orbitals_energy - orb_homo)**2))
''', '''        weight = np.exp(-(self.orbitals_energy - self.orbitals_energy.max())**2)
        shares = {"total": lambda w: 1.0, "valence": lambda w: w, "core": lambda w: 1.0 - w}
        orb_occs = self.orbitals_occupation * shares[mode](weight)
'''),
    (D, '''        with np.errstate(divide='ignore'):
            # derivative
            deriv_pref = (number.T - 1.) / np.reshape(points, (points.shape[0], 1)) - exponent.T
            deriv_pref[np.abs(points) < 1e-10, :] = 0.0
        deriv = deriv_pref * slater
        return deriv
''', '''        with np.errstate(divide='ignore'):
            # derivative
            deriv_pref = (number.T - 1.) / points[:, None] - exponent.T
        at_origin = (np.abs(points) < 1e-10)[:, np.newaxis]
        return slater * np.where(at_origin, 0.0, deriv_pref)
'''),
    (D, '''        angular = {
            "S": 0.0, "P": 2.0, "D": 6.0, "F": 12.0
        }
''', '''        angular = {shell: 1.0 * ell * (ell + 1) for ell, shell in enumerate("SPDF")}
'''),
    (K, '''        # compute residual
        residual = density - model
        # compute squared residual
        value = np.power(residual, 2)
        # compute derivative of squared residual w.r.t. model
        if deriv:
            return value, -2 * residual
        return value
''', '''        value = (residual := model - density) ** 2
        return (value, residual + residual) if deriv else value
'''),
    (K, '''        with np.errstate(divide="ignore"):
            power = np.where(ratio == 0.0, 0.0, np.power(ratio, self.alpha - 1.0))
''', '''        nonzero = ratio != 0.0
        power = np.zeros(ratio.shape)
        np.power(ratio, self.alpha - 1.0, out=power, where=nonzero)
'''),
    (K, '''            if deriv:
                # Add an incredibly large derivative
                return np.array([self.negative_val] * model.shape[0]), \\
                       np.array([self.negative_val] * model.shape[0])
            return np.array([self.negative_val] * model.shape[0])
''', '''            penalty = np.full(model.shape, self.negative_val)
            # Add an incredibly large derivative
            return (penalty, penalty.copy()) if deriv else penalty
'''),
    (M, '''        return np.array([1.5] * self.ns + [2.5] * self.np)
''', '''        return np.repeat([1.5, 2.5], [self.ns, self.np])
'''),
    (M, '''np.power(self.radii, 2)[:, None]''', '''self._r2''', 7),
    (M, '''    @property
    def num_s(self):
''', '''    @cached_property
    def _r2(self):
        """Squared distances as a column."""
        return np.power(self.radii, 2)[:, None]

    @property
    def num_s(self):
'''),
    (M, '''from numbers import Integral
''', '''from functools import cached_property
from numbers import Integral
'''),
    (M, '''        count = 0
        for center in self.center:
            # get coeffs & expons of center
            cs = coeffs[count: count + center.nbasis]
            es = expons[count: count + center.nbasis]
            if deriv:
                # compute linear combination of gaussian placed on center & its derivatives
                g, dg = center.evaluate(cs, es, deriv)
                # split derivatives w.r.t. coeffs & expons
                dg_c = dg[:, :center.nbasis]
                dg_e = dg[:, center.nbasis:]
                # add contributions to the total array
                total_g += g
                total_dg[:, count: count + center.nbasis] = dg_c
                total_dg[:, self.nbasis + count: self.nbasis + count + center.nbasis] = dg_e
            else:
                # compute linear combination of gaussian placed on center
                total_g += center.evaluate(cs, es, deriv)
            count += center.nbasis
''', '''        for center, part in self._parts():
            result = center.evaluate(coeffs[part], expons[part], deriv)
            if not deriv:
                total_g += result
                continue
            g, dg = result
            total_g += g
            shifted = slice(part.start + self.nbasis, part.stop + self.nbasis)
            total_dg[:, part], total_dg[:, shifted] = np.split(dg, 2, axis=1)
'''),
    (M, '''    def assign_basis_to_center(self, index):
''', '''    def _parts(self):
        """Yield every center with the slice of its parameters."""
        stop = 0
        for center in self.center:
            start, stop = stop, stop + center.nbasis
            yield center, slice(start, stop)

    def assign_basis_to_center(self, index):
'''),
    (M, '''        # get the center to which the basis function belongs
        index = np.where(np.cumsum(nbasis) >= index + 1)[0][0]
        return index
''', '''        # get the center to which the basis function belongs
        return np.searchsorted(np.cumsum(nbasis), index, side="right")
'''),
    (U, '''    path_to_function = os.path.abspath(inspect.getfile(get_ugbs_exponents))
    path_to_function = path_to_function[:-13]  # Remove parse_ugbs.py <- 13 characters
    file_path = path_to_function + r"data/ygbs"
    output = {"S" : [], "P" : [], "D" : [], "F" : []}
    with open(file_path, "r", encoding="utf8") as f:
        for line in f:
            split_words = line.strip().split()
            if len(split_words) > 0 and split_words[0].lower() == element.lower():
                next_line = f.readline().strip().split()
                output[split_words[1]].append(float(next_line[0]))
    return output
''', '''    file_path = Path(__file__).parent / "data" / "ygbs"
    output = {shell: [] for shell in "SPDF"}
    with file_path.open(encoding="utf8") as f:
        lines = iter(f)
        for line in lines:
            match line.split():
                case [symbol, shell, *_] if symbol.lower() == element.lower():
                    output[shell].append(float(next(lines).split()[0]))
    return output
'''),
    (U, '''import inspect
import os
''', '''from pathlib import Path
'''),
]
