G = {}
S = "pySailingVLM/solver/"
G["solver1"] = [
 (S+"velocity.py", """    V_induced = np.zeros((N, 3))
    for i in range(N):
        for j in range(N):
            V_induced[i] += v_ind_coeff[i,j] * gamma_magnitude[j]

    return V_induced""", """    return np.einsum('ijk,j->ik', v_ind_coeff, gamma_magnitude)"""),
 (S+"coefs.py", """    RHS = -V_app_infw.dot(normals.transpose()).diagonal()
    RHS = np.asarray(RHS)
    return RHS""", """    return -np.sum(V_app_infw * normals, axis=1)"""),
 (S+"coefs.py", "    big_gamma = np.linalg.solve(coefs, RHS)\n    return big_gamma", "    import scipy.linalg\n    return scipy.linalg.solve(coefs, RHS)"),
 (S+"forces.py", "    p = forces.dot(normals.transpose()).diagonal() /  areas\n    return p", "    return np.einsum('ij,ij->i', forces, normals) / areas"),
 (S+"forces.py", "    flux_through_panel = -V_app_fw.dot(normals.transpose()).diagonal()\n", "    flux_through_panel = -np.einsum('ij,ij->i', V_app_fw, normals)\n"),
 (S+"forces.py", "    p_coeffs = np.array([ p / (0.5 * rho * np.dot(V[i], V[i])) for i, p in enumerate(pressure)])\n    return p_coeffs", "    q = rho * np.sum(np.square(V), axis=1) / 2\n    return np.asarray(pressure) / q"),
 (S+"forces.py", """    dx, dy, dz = v_from_old_2_new_csys
    N = len(cp_points)
    r = np.copy(cp_points)
    for i in range(N):
        r[i, 0] -= dx  # yawing moment arm
        r[i, 1] -= dy  # pitching moment arm
        if cp_points[i, 2] > 0:
            r[i, 2] -= dz  # heeling moment arm
        else:
            r[i, 2] += dz

    return r""", """    shift = np.array([v_from_old_2_new_csys] * len(cp_points), dtype=float)
    shift[np.asarray(cp_points)[:, 2] <= 0, 2] *= -1
    return np.asarray(cp_points) - shift"""),
 (S+"forces.py", """    K = cp.shape[0]
    force = np.zeros((K, 3))
    #numba.prange
    for i in range(K):
        # for spanwise only!
        # if panel is leading edge
        gamma = 0.0
        if leading_edges_info[i] or case1x1:
            gamma = span_vectors[i] * gamma_magnitude[i]
        else:
            gamma = span_vectors[i] * (gamma_magnitude[i] - gamma_magnitude[i-n_spanwise])
        force[i] = rho * np.cross(V_for_calculations[i], gamma)
        
    return force, V_at_cp, V_induced""", """    net = np.array(gamma_magnitude, dtype=float)
    if not case1x1:
        inner = np.flatnonzero(np.logical_not(leading_edges_info))
        net[inner] = net[inner] - gamma_magnitude[inner - n_spanwise]
    return np.cross(V_for_calculations, span_vectors * net[:, None]) * rho, V_at_cp, V_induced"""),
 (S+"panels.py", """        p = [panels[i, 0], panels[i, 1], panels[i, 2], panels[i, 3]]
        path = []
        for j in range(len(p) - 1):
            step = p[j + 1] - p[j]
            path.append(step)

        area = 0
        for k in range(len(path) - 1):
            s = np.cross(path[k], path[k + 1])
            s = np.linalg.norm(s)
            area += 0.5 * s
        areas[i] = area   
""", """        path = np.diff(panels[i], axis=0)
        areas[i] = sum(np.linalg.norm(np.cross(a, b)) / 2 for a, b in zip(path[:-1], path[1:]))
"""),
]
G["solver2"] = [
 (S+"velocity.py", """    sub1 = vortex_line(p, A, B, gamma)
    sub2 = vortex_line(p, B, C, gamma)
    sub3 = vortex_line(p, C, D, gamma)
    sub4 = vortex_line(p, D, A, gamma)

    q_ind = sub1 + sub2 + sub3 + sub4
    return q_ind""", """    q_ind = vortex_line(p, D, A, gamma)
    q_ind = q_ind + vortex_line(p, C, D, gamma)
    q_ind = q_ind + vortex_line(p, B, C, gamma)
    q_ind = q_ind + vortex_line(p, A, B, gamma)
    return q_ind"""),
 (S+"velocity.py", """    sq = np.array([np.square(np.linalg.norm(r1_cross_r2))])
    b = is_in_vortex_core(numba.typed.List([r1, r2, sq]))

    if b:
        return np.asarray([0.0, 0.0, 0.0], dtype=np.float64)
    else:
        q_ind = r1_cross_r2 / np.square(np.linalg.norm(r1_cross_r2))
        q_ind *= np.dot(r0, (r1 / np.linalg.norm(r1) - r2 / np.linalg.norm(r2)))
        q_ind *= gamma / (4 * np.pi)

    return q_ind""", """    n1 = np.linalg.norm(r1)
    n2 = np.linalg.norm(r2)
    square = np.dot(r1_cross_r2, r1_cross_r2)
    if n1 < 1e-8 or n2 < 1e-8 or square < 1e-8:
        return np.zeros(3)
    factor = gamma / (4 * np.pi) * (np.dot(r0, r1) / n1 - np.dot(r0, r2) / n2) / square
    q_ind = factor * r1_cross_r2
    return q_ind"""),
 (S+"velocity.py", """    v_ind = np.cross(u_inf, ap) / (
                norm_ap * (norm_ap - np.dot(u_inf, ap)))  # todo: consider checking is_in_vortex_core
    v_ind *= gamma / (4. * np.pi)
    return v_ind""", """    factor = gamma / (4. * np.pi) / norm_ap / (norm_ap - np.dot(u_inf, ap))
    v_ind = factor * np.cross(u_inf, ap)
    return v_ind"""),
 (S+"coefs.py", """            a = vortex_ring(points_for_calculations[i], A, B, C, D, gamma_orientation)
            # poprawka na trailing edge
            # todo: zrobic to w drugim, oddzielnym ifie
            if trailing_edge_info[j]:
                #a = vortex_horseshoe(points_for_calculations[i], B, C, V_app_infw[j], gamma_orientation)
                a = vortex_horseshoe_v2(points_for_calculations[i], A, B, C, D,V_app_infw[j], gamma_orientation)
            coefs[i, j] = np.dot(a, normals[i].reshape(3, 1))[0]
            # this is faster than wind_coefs[i, j, :] = a around 0.1s (case 10x10)
            
            v_ind_coeff[i, j, 0] = a[0] # FOR NUMBA
            v_ind_coeff[i, j, 1] = a[1]
            v_ind_coeff[i, j, 2] = a[2]
""", """            if trailing_edge_info[j]:
                a = vortex_horseshoe_v2(points_for_calculations[i], A, B, C, D,V_app_infw[j], gamma_orientation)
            else:
                a = vortex_ring(points_for_calculations[i], A, B, C, D, gamma_orientation)
            total = 0.0
            for k in range(3):
                v_ind_coeff[i, j, k] = a[k]
                total += a[k] * normals[i, k]
            coefs[i, j] = total
"""),
 (S+"coefs.py", """    k = int(panels.shape[0] / (n_spanwise * n_chordwise * 2) ) # *2 in denominator due to underwater part
    
    # sail_forces""", """    k = panels.shape[0] // (n_spanwise * n_chordwise * 2)
    grid = (2 * k, n_chordwise, n_spanwise)
    q = rho / 2 * np.sum(wind ** 2, axis=1)
    c_all = (np.sqrt(np.sum(force ** 2, axis=1)) / q / areas).reshape(grid)
    s_all = np.asarray(areas).reshape(grid)
    return ((c_all * s_all).sum(axis=1) / s_all.sum(axis=1))[:k]
    
    # sail_forces"""),
 (S+"coefs.py", """            arr = sail_cps[i][:, 2].reshape(solver.n_chordwise, solver.n_spanwise).transpose()
            mean_section_cp_z = np.sum(arr, axis=1) / solver.n_chordwise
            sail_section_mean_cp_z[i] = mean_section_cp_z
""", """            sail_section_mean_cp_z[i, j] = np.mean(sail_cps[i][j::solver.n_spanwise, 2])
"""),
 (S+"mesher.py", """    segment = []
    step = (p2 - p1) / n

    for i in range(n):
        point = p1 + i * step
        segment.append(point)

    segment.append(p2)
    return np.array(segment)""", """    t = np.arange(n + 1)[:, None] / n
    segment = p1 + t * (p2 - p1)
    segment[-1] = p2
    return segment"""),
 (S+"mesher.py", """    mesh = []
    # TODO: dodac camber w stylu NACA airfoil --> wzorek z wikipedii
    # TODO: upewnic sie ze normalna jest w dobra strone dla pochylonej lodki
    for p1, p2 in zip(segment1, segment2):
        s = discrete_segment(p1, p2, n)
        mesh.append(np.array(s))

    return np.array(mesh)""", "    return np.array([discrete_segment(a, b, n) for a, b in zip(segment1, segment2)])"),
 (S+"mesher.py", """        mesh.append(list(zip(xs,ys, zs)))
""", """        mesh.append(np.column_stack([xs, ys, zs]))
"""),
 (S+"interpolator.py", """        self.interpolation_switch = {
            "linear": lambda x_new, x, y: np.interp(x_new, x, y),
            "spline": lambda x_new, x, y: interpolate.splev(x_new, interpolate.splrep(x, y, s=0), der=0),
        }
""", """        self.interpolation_switch = {"linear": np.interp, "spline": self._spline}

    @staticmethod
    def _spline(x_new, x, y):
        tck = interpolate.splrep(x, y)
        return interpolate.splev(x_new, tck)
"""),
 (S+"additional_functions.py", """    half = int(quantities.shape[0] / 2)
    above_water_quantities = quantities[0:half]
    total_above_water_quantities = np.sum(above_water_quantities, axis=0)  # heeling, sway, yaw (z-axis)
    return above""", """    above_water_quantities, _ = np.split(quantities, 2)
    total_above_water_quantities = above_water_quantities.sum(axis=0)  # heeling, sway, yaw (z-axis)
    return above"""),
 (S+"additional_functions.py", """    names = np.array([])
    
    for sail in sail_set.sails:
        rep_names = np.repeat(sail.name, repeat)
        names = np.append(names, rep_names)
""", """    names = np.repeat([sail.name for sail in sail_set.sails], repeat)
"""),
]
G["geometry"] = [
 ("pySailingVLM/rotations/geometry_calc.py", """    ps = np.vstack((ps.transpose(),np.array([1]*ps.transpose().shape[1])))

    x1, y1, z1 = p1
    axis = p2 - p1
""", """    axis = p2 - p1
    return np.array(R.from_rotvec(theta * axis / norm(axis)).apply(ps - p1) + p1)
"""),
 ("pySailingVLM/rotations/geometry_calc.py", """    axis = axis/math.sqrt(np.dot(axis, axis))
    a = math.cos(theta/2.0)""", """    axis = axis/math.sqrt(np.dot(axis, axis))
    x, y, z = axis
    K = np.array([[0., -z, y], [z, 0., -x], [-y, x, 0.]])
    return np.eye(3) + math.sin(theta) * K + (1. - math.cos(theta)) * (K @ K)
    a = math.cos(theta/2.0)"""),
 ("pySailingVLM/rotations/csys_transformations.py", """        array_of_vectors_in_centerline_csys = np.array([np.dot(self.leeway_rotation_matrix, v_xyz) for v_xyz in array_of_xyz_vectors])
        return array_of_vectors_in_centerline_csys""", """        return np.asarray(array_of_xyz_vectors) @ self.leeway_rotation_matrix.T"""),
 ("pySailingVLM/rotations/csys_transformations.py", """        if point[2] > 0:
            point = np.dot(self.heeling_rotation_matrix, point)
        else:
            point = np.dot(self.reverse_heeling_rotation_matrix, point)

        point = np.dot(self.leeway_rotation_matrix, point)
        return point
""", """        heel = self.heeling_rotation_matrix if point[2] > 0 else self.reverse_heeling_rotation_matrix
        return self.leeway_rotation_matrix.dot(heel).dot(point)
"""),
 ("pySailingVLM/yacht_geometry/hull_geometry.py", """        # apply rotations
        self.deck_centerline = np.array([csys_transformations.rotate_point_with_mirror(p) for p in deck_centerline])
""", """        # apply rotations
        for name, line in (('deck_port_line', deck_port_line), ('deck_starboard_line', deck_starboard_line)):
            setattr(self, name, np.array([csys_transformations.rotate_point_with_mirror(p) for p in line]))
        self.deck_centerline = np.array([csys_transformations.rotate_point_with_mirror(p) for p in deck_centerline])
"""),
 ("pySailingVLM/yacht_geometry/sail_factory.py", """        forestay_angle = np.arctan2(foretriangle_height * np.sin(self.rake),
                                    foretriangle_base - foretriangle_height * np.cos(self.rake))
""", """        run = foretriangle_base - foretriangle_height * np.cos(self.rake)
        rise = foretriangle_height * np.sin(self.rake)
        forestay_angle = np.angle(run + 1j * rise)
"""),
 ("pySailingVLM/yacht_geometry/sail_geometry.py", """        result = np.all(sail_twist_deg_vec == sail_twist_deg_vec[0])
        rotated_points = points
        if result:
            rotated_points = rotate_points_around_arbitrary_axis(points, p1, p2, np.deg2rad(sail_twist_deg_vec[0]))
        else:
            # squezee""", """        rotated_points = np.array([np.squeeze(rotate_points_around_arbitrary_axis(np.array([point]), p1, p2, np.deg2rad(deg))) for point, deg in zip(points, sail_twist_deg_vec) ])
        if False:
            # squezee"""),
 ("pySailingVLM/yacht_geometry/sail_geometry.py", """            sail_twist_deg = np.hstack([sail_twist_deg] * (sh1))
            sail_twist_deg = sail_twist_deg.reshape(sh1, sh0).transpose().flatten()
""", """            sail_twist_deg = np.repeat(sail_twist_deg, sh1)
"""),
 ("pySailingVLM/yacht_geometry/sail_geometry.py", """            twist_dict = {
                'sheeting_angle_const': np.full(len(initial_sail_twist_deg), np.min(initial_sail_twist_deg)),
                'average_const': np.full(len(initial_sail_twist_deg), np.average(initial_sail_twist_deg)),
                'real_twist': initial_sail_twist_deg
            }
            sail_twist_deg = twist_dict[LLT_twist]
""", """            twist_of = {
                'sheeting_angle_const': lambda t: np.full_like(t, min(t)),
                'average_const': lambda t: np.full_like(t, sum(t) / len(t)),
                'real_twist': np.copy,
            }
            sail_twist_deg = twist_of[LLT_twist](np.asarray(initial_sail_twist_deg, dtype=float))
"""),
 ("pySailingVLM/thin_airfoil/vlm_airfoil.py", """            return self._m * (2 * self._p * x - x**2) / (self._p**2)
""", """            return self._m / self._p ** 2 * x * (2 * self._p - x)
"""),
 ("pySailingVLM/thin_airfoil/vlm_airfoil.py", """        epsilon = 0.0001
        if 1.0 - x < epsilon:
            return 5 * self._t * (self.__a0 * math.sqrt(x) + self.__a1 *x + self.__a2 * x *x + self.__a3 * x * x * x + self.__a4_te * x * x * x * x) 
        else:
            return 5 * self._t * (self.__a0 * math.sqrt(x) + self.__a1 *x + self.__a2 * x *x + self.__a3 * x * x * x + self.__a4 * x * x * x * x) 
""", """        last = self.__a4_te if 1.0 - x < 0.0001 else self.__a4
        return 5 * self._t * (self.__a0 * math.sqrt(x) + x * (self.__a1 + x * (self.__a2 + x * (self.__a3 + x * last))))
"""),
]
G["wind-results"] = [
 ("pySailingVLM/inlet/winds.py", """        tws = np.array([wind_speed * np.cos(self.alpha_true_wind),
                        wind_speed * np.sin(self.alpha_true_wind),
                        0])

        return tws""", """        direction = np.array([np.cos(self.alpha_true_wind), np.sin(self.alpha_true_wind), 0.])
        return wind_speed * direction"""),
 ("pySailingVLM/inlet/winds.py", "        aw_infs = np.array([tws_at_h[0] + self.V_yacht, tws_at_h[1], tws_at_h[2]])\n        return aw_infs", "        return tws_at_h + np.array([self.V_yacht, 0., 0.])"),
 ("pySailingVLM/inlet/winds.py", "        wind_speed = self.tws_ref * (np.log((height) / self.roughness) / np.log(self.reference_measurment_height / self.roughness))", "        z0 = self.roughness\n        wind_speed = self.tws_ref * (np.log(height) - np.log(z0)) / (np.log(self.reference_measurment_height) - np.log(z0))"),
 ("pySailingVLM/inlet/winds.py", "        wind_speed = self.tws_ref*pow((height - self.reference_water_level_for_wind_profile) / self.reference_measurment_height, self.exp_coeff)", "        ratio = (height - self.reference_water_level_for_wind_profile) / self.reference_measurment_height\n        wind_speed = self.tws_ref * ratio ** self.exp_coeff"),
 ("pySailingVLM/inlet/inlet_conditions.py", """        self.tws_at_cp = np.array\\
            ([self.winds.get_true_wind_speed_at_h(abs(cp_point[2])) for cp_point in self.cp_points])
        self.tws_length_at_ctr_points = np.linalg.norm(self.tws_at_cp, axis=1)

        self.V_app_infs = np.array\\
            ([self.winds.get_app_infs_at_h(tws_at_ctr_point) for tws_at_ctr_point in self.tws_at_cp])
""", """        heights = np.abs(self.cp_points[:, 2])
        self.tws_at_cp = np.zeros((len(heights), 3))
        self.V_app_infs = np.zeros((len(heights), 3))
        for i, h in enumerate(heights):
            self.tws_at_cp[i] = self.winds.get_true_wind_speed_at_h(h)
            self.V_app_infs[i] = self.winds.get_app_infs_at_h(self.tws_at_cp[i])
        self.tws_length_at_ctr_points = np.sqrt((self.tws_at_cp ** 2).sum(axis=1))
"""),
 ("pySailingVLM/results/inviscid_flow.py", "        r_dot_F = np.array([np.dot(r[i], myvlm.force[i]) for i in range(len(myvlm.force))])\n", "        r_dot_F = np.einsum('ij,ij->i', r, myvlm.force)\n"),
 ("pySailingVLM/results/inviscid_flow.py", """            F_xyz_above_water_tmp_total = np.sum(F_xyz_above_water_tmp, axis=0)
            dyn_dict[f"F_{sail_set.sails[i].name}_total_COG.x"] = F_xyz_above_water_tmp_total[0]
            dyn_dict[f"F_{sail_set.sails[i].name}_total_COG.y"] = F_xyz_above_water_tmp_total[1]
            dyn_dict[f"F_{sail_set.sails[i].name}_total_COG.z"] = F_xyz_above_water_tmp_total[2]

            M_xyz_tmp = calc_moments(r_tmp, F_xyz_above_water_tmp)
            M_xyz_tmp_total = np.sum(M_xyz_tmp, axis=0)
            dyn_dict[f"M_{sail_set.sails[i].name}_total_COG.x"] = M_xyz_tmp_total[0]
            dyn_dict[f"M_{sail_set.sails[i].name}_total_COG.y"] = M_xyz_tmp_total[1]
            dyn_dict[f"M_{sail_set.sails[i].name}_total_COG.z"] = M_xyz_tmp_total[2]
""", """            totals = {'F': F_xyz_above_water_tmp.sum(axis=0), 'M': calc_moments(r_tmp, F_xyz_above_water_tmp).sum(axis=0)}
            for letter, vector in totals.items():
                for axis_name, value in zip('xyz', vector):
                    dyn_dict[f"{letter}_{sail_set.sails[i].name}_total_COG.{axis_name}"] = value
"""),
 ("pySailingVLM/results/inviscid_flow.py", """        self.F_centerline = csys_transformations.from_xyz_to_centerline_csys(myvlm.force)
        _, self.F_centerline_total = extract_above_water_quantities(self.F_centerline)

        self.M_centerline_csys = csys_transformations.from_xyz_to_centerline_csys(self.M_xyz)
        _, M_total_above_water_in_centerline_csys = extract_above_water_quantities(self.M_centerline_csys)
        self.M_total_above_water_in_centerline_csys = M_total_above_water_in_centerline_csys
""", """        self.M_centerline_csys, self.M_total_above_water_in_centerline_csys = csys_transformations.calc_centerline_moments(self.M_xyz)
        self.F_centerline = csys_transformations.from_xyz_to_centerline_csys(myvlm.force)
        self.F_centerline_total = csys_transformations.from_xyz_to_centerline_csys([self.F_xyz_total])[0]
"""),
 ("pySailingVLM/results/inviscid_flow.py", """        self.M_xyz_underwater_estimate_total = np.cross(underwater_centre_of_effort_xyz - self.csys_transformations.v_from_original_xyz_2_reference_csys_xyz, -self.F_xyz_total)
""", """        arm = np.subtract(underwater_centre_of_effort_xyz, self.csys_transformations.v_from_original_xyz_2_reference_csys_xyz)
        self.M_xyz_underwater_estimate_total = -np.cross(arm, self.F_xyz_total)
"""),
 ("pySailingVLM/results/save_utils.py", """    df_inlet_conditions = np.array_split(myvlm.inlet_conditions.to_df_full(sail_set.sails[0].csys_transformations), 2)
    df_inlet_conditions_above = df_inlet_conditions[0]
    
    df_inviscid_flow = np.array_split(inviscid_flow_results.to_df_full(), 2)
    df_inviscid_flow_above = df_inviscid_flow[0]
""", """    def above(df):
        return df.iloc[:len(df) // 2]
    df_inlet_conditions_above = above(myvlm.inlet_conditions.to_df_full(sail_set.sails[0].csys_transformations))
    df_inviscid_flow_above = above(inviscid_flow_results.to_df_full())
"""),
 ("pySailingVLM/results/save_utils.py", """    with open(os.path.join(output_dir, output_file_name), 'wb') as file:
        file.write(book.getvalue())
""", """    target = os.path.join(output_dir, output_file_name)
    content = memoryview(book.getvalue())
    with open(target, 'wb') as file:
        for start in range(0, len(content), 4096):
            file.write(content[start:start + 4096])
"""),
 ("pySailingVLM/results/save_utils.py", """    if not os.path.exists(output_dir):
        os.makedirs(output_dir, exist_ok=True)""", """    if True:
        os.makedirs(output_dir, exist_ok=True)"""),
]
G["runner"] = [
 ("pySailingVLM/runner/cli.py", """    case_file, case_copy = os.path.join(out.case_dir, out.case_name), os.path.join(out.name, out.case_name)
    if not (os.path.exists(case_copy) and os.path.samefile(case_file, case_copy)):  # results may go beside the case file
        shutil.copy(case_file, case_copy)
""", """    copy_case_file(out)
"""),
 ("pySailingVLM/runner/cli.py", """def main():
""", """def copy_case_file(out):
    case_file = os.path.join(out.case_dir, out.case_name)
    case_copy = os.path.join(out.name, out.case_name)
    if os.path.exists(case_copy) and os.path.samefile(case_file, case_copy):
        return
    with open(case_file, 'rb') as source:
        text = source.read()
    with open(case_copy, 'wb') as copy:
        copy.write(text)


def main():
"""),
 ("pySailingVLM/runner/cli.py", """    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'], sail_names)
    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'], sail_names)
""", """    for data, name, colors in ((cl_data, 'lift', ['blue', 'green']), (cd_data, 'drag', ['teal', 'purple'])):
        plot_section_coeff(data, mean_cp, out.name, name, colors, sail_names)
"""),
 ("pySailingVLM/runner/sail.py", """    res = False
    for element in list_of_different_obj:
        if element is None:
            res = True
            break
    return res
""", """    return any(element is None for element in list_of_different_obj)
"""),
 ("pySailingVLM/runner/sail.py", """    for arr in check_arr:
        if arr.shape != check_arr[0].shape:
            raise""", """    if len({np.shape(arr) for arr in check_arr}) > 1:
            raise"""),
 ("pySailingVLM/runner/aircraft.py", """        self.__V_app_infw = np.array([self.V for i in range(N)])
""", """        self.__V_app_infw = np.tile(self.V, (N, 1))
"""),
 ("pySailingVLM/runner/aircraft.py", """        total_p = np.sum(self.__pressure * areas, axis=0)  # weighted by area, as q below contains the wing's area
        q = 0.5 * rho * (np.linalg.norm(self.V) ** 2) * self.__S
        self.__Cp = total_p / q
""", """        q = 0.5 * self.rho * np.dot(self.V, self.V) * self.__S
        self.__Cp = np.dot(self.__pressure, areas) / q
"""),
 ("pySailingVLM/solver/panels_plotter.py", """    ax.plot(hull.deck_centerline[:, 0], hull.deck_centerline[:, 1], hull.deck_centerline[:, 2], 'gray')
    ax.plot(hull.deck_port_line[:, 0], hull.deck_port_line[:, 1], hull.deck_port_line[:, 2], 'gray')
    ax.plot(hull.deck_starboard_line[:, 0], hull.deck_starboard_line[:, 1], hull.deck_starboard_line[:, 2], 'gray')
    ax.plot(hull.deck_port_line_underwater[:, 0], hull.deck_port_line_underwater[:, 1], hull.deck_port_line_underwater[:, 2], 'gray', alpha=0.25)
    ax.plot(hull.deck_starboard_line_underwater[:, 0], hull.deck_starboard_line_underwater[:, 1], hull.deck_starboard_line_underwater[:, 2], 'gray', alpha=0.25)
""", """    for line in (hull.deck_port_line_underwater, hull.deck_starboard_line_underwater):
        ax.plot3D(*line.T, color='gray', alpha=0.25)
    for line in (hull.deck_starboard_line, hull.deck_centerline, hull.deck_port_line):
        ax.plot3D(*line.T, color='gray')
"""),
 ("pySailingVLM/solver/panels_plotter.py", """    for vtx, d in zip(vlm.panels, data):
        tri = a3.art3d.Poly3DCollection([vtx])
        tri.set_color(m.to_rgba(d))
        tri.set_edgecolor('k')
        ax.add_collection3d(tri)
""", """    ax.add_collection3d(a3.art3d.Poly3DCollection(list(vlm.panels), facecolors=m.to_rgba(data), edgecolors='k'))
"""),
 ("pySailingVLM/solver/panels_plotter.py", """    scale, clr, ce, F = display_CE_CLR(ax, inviscid_flow_results, hull)
    

    if show""", """    display_CE_CLR(ax, inviscid_flow_results, hull)

    if show"""),
 ("pySailingVLM/solver/panels_plotter.py", """    boundaries = sp.geometry.PolygonArray([[np.vstack([panel[:,[0,2]], panel[:,[0,2]][0]]).flatten()] for panel in mesh])
""", """    outlines = [np.asarray(panel)[[0, 1, 2, 3, 0]][:, [0, 2]] for panel in mesh]
    boundaries = sp.geometry.PolygonArray([[outline.ravel()] for outline in outlines])
"""),
 ("pySailingVLM/solver/panels_plotter.py", """    for i in range(l):
        ax1.scatter(x_data[i], y_data[i], label=lbs[i], s=5, marker=markers[i], color=colors[i])
""", """    for x, y, label, marker, color in zip(x_data, y_data, lbs, markers, colors):
        ax1.scatter(x, y, label=label, s=5, marker=marker, color=color)
"""),
 ("pySailingVLM/solver/panels_plotter.py", """        plt.savefig(file_name + '/' +  f'section_{c_name}', dpi=300)
""", """        fig.savefig(f'{file_name}/section_{c_name}.png', dpi=300)
"""),
 ("pySailingVLM/solver/panels_plotter.py", """    tws_chunks = np.split(inlet_condition.tws_at_cp, n_chordwise*l)
    tws_chunks = np.asarray(tws_chunks)
    tws_chunks_at_first_spanwise_sections = tws_chunks[0::n_chordwise]
    sh0, sh1, _ = tws_chunks_at_first_spanwise_sections.shape
    tws_chunks_at_first_spanwise_sections = tws_chunks_at_first_spanwise_sections.reshape(sh0 * sh1 ,3)
""", """    tws_chunks_at_first_spanwise_sections = inlet_condition.tws_at_cp.reshape(l, n_chordwise, n_spanwise, 3)[:, 0].reshape(-1, 3)
"""),
 ("pySailingVLM/solver/panels_plotter.py", """            arrow = Arrow3D(vx, vy, vz, mutation_scale=10, lw=1, arrowstyle="-|>", color=draw_color, alpha=0.75)
            else:
                arrow = Arrow3D(vx, vy, vz, mutation_scale=10, lw=1, arrowstyle="-|>", color=draw_color, alpha=0.05)
            ax.add_artist(arrow)""".replace("            arrow = A", "                arrow = A", 1), """                alpha = 0.75
            else:
                alpha = 0.05
            ax.add_artist(Arrow3D(vx, vy, vz, mutation_scale=10, lw=1, arrowstyle="-|>", color=draw_color, alpha=alpha))"""),
]


# other ways of writing the same: vectorised meshes, helpers extracted (also compiled ones), loops instead of arrays and the other way round
G["second"] = [
 ("pySailingVLM/solver/coefs.py", """# parallel slows down beacuse loop is not big
""", """@numba.njit
def _influence(p, ring, wake, at_trailing_edge, gamma_orientation):
    A, B, C, D = ring[0], ring[1], ring[2], ring[3]
    if at_trailing_edge:
        return vortex_horseshoe_v2(p, A, B, C, D, wake, gamma_orientation)
    return vortex_ring(p, A, B, C, D, gamma_orientation)

# parallel slows down beacuse loop is not big
"""),
 ("pySailingVLM/solver/coefs.py", """            A = rings[j][0]
            B = rings[j][1]
            C = rings[j][2]
            D = rings[j][3]
            
            a = vortex_ring(points_for_calculations[i], A, B, C, D, gamma_orientation)
            # poprawka na trailing edge
            # todo: zrobic to w drugim, oddzielnym ifie
            if trailing_edge_info[j]:
                #a = vortex_horseshoe(points_for_calculations[i], B, C, V_app_infw[j], gamma_orientation)
                a = vortex_horseshoe_v2(points_for_calculations[i], A, B, C, D,V_app_infw[j], gamma_orientation)
            coefs[i, j] = np.dot(a, normals[i].reshape(3, 1))[0]
""", """            a = _influence(points_for_calculations[i], rings[j], V_app_infw[j], trailing_edge_info[j], gamma_orientation)
            coefs[i, j] = a[0] * normals[i, 0] + a[1] * normals[i, 1] + a[2] * normals[i, 2]
"""),
 ("pySailingVLM/solver/coefs.py", """    for idx, (grid_panels, trailing_grid_info) in enumerate(zip(panels_splitted,trailing_edge_info_splitted)):

        n_panels = grid_panels.shape[0]
        for k in range(n_panels):
""", """    for idx in range(G):
        grid_panels, trailing_grid_info = panels_splitted[idx], trailing_edge_info_splitted[idx]
        for k in reversed(range(len(grid_panels))):
"""),
 ("pySailingVLM/solver/coefs.py", """                next_panel = grid_panels[k + n_spanwise]
                n_p1 = next_panel[0]
                n_p2 = next_panel[1]
                n_p3 = next_panel[2]
                n_p4 = next_panel[3]

                n_p2_p1 = n_p1 - n_p2
                n_p3_p4 = n_p4 - n_p3
                
                n_B = n_p2 + n_p2_p1 / 4.
                n_C = n_p3 + n_p3_p4 / 4.
            
                A = n_B
                D = n_C
""", """                A = 0.75 * grid_panels[k + n_spanwise, 1] + 0.25 * grid_panels[k + n_spanwise, 0]
                D = 0.75 * grid_panels[k + n_spanwise, 2] + 0.25 * grid_panels[k + n_spanwise, 3]
"""),
 ("pySailingVLM/solver/coefs.py", """    RHS = -V_app_infw.dot(normals.transpose()).diagonal()
    RHS = np.asarray(RHS)
    return RHS
""", """    return -np.einsum('ij,ij->i', V_app_infw, normals)
"""),
 ("pySailingVLM/solver/coefs.py", """    big_gamma = np.linalg.solve(coefs, RHS)
    return big_gamma
""", """    return np.linalg.solve(np.array(coefs), np.array(RHS))
"""),
 ("pySailingVLM/solver/coefs.py", """        section_c_list = np.zeros((n_spanwise,), dtype=float)
        
        # iterate through strips
        for j in range(n_spanwise):
            # coefficients for strip
            section_cs = c.reshape(n_chordwise, n_spanwise)[:,j]
            # areas for strip
            section_sail_areas = sail_areas[i].reshape(n_chordwise, n_spanwise)[:,j]
            
            # total section coefficient per strip
            section_c = np.sum(section_cs * section_sail_areas) / np.sum(section_sail_areas)
            section_c_list[j]= section_c

        sails_C[i] = section_c_list
""", """        sails_C[i] = np.average(c.reshape(n_chordwise, n_spanwise), axis=0, weights=sail_areas[i].reshape(n_chordwise, n_spanwise))
"""),
 ("pySailingVLM/solver/panels.py", """    panels = np.zeros((N * M, 4, 3))
    trailing_edge_info = np.full(N * M, False, dtype=bool)
    leading_edge_info = np.full(N * M, False, dtype=bool)
    
    counter = 0
    for i in range(N):
        for j in range(M):
            pSE = mesh[i + 1][j]
            pSW = mesh[i][j]
            pNW = mesh[i][j + 1]
            pNE = mesh[i + 1][j + 1]
            panels[counter] = [pSE, pSW, pNW, pNE] 

            if i == (n_lines - 2):
                trailing_edge_info[counter] = True
                
            else:
                if i == 0:
                    leading_edge_info[counter] = True
                
            counter += 1
            
    return  panels, trailing_edge_info, leading_edge_info
""", """    panels = np.stack([mesh[1:, :-1], mesh[:-1, :-1], mesh[:-1, 1:], mesh[1:, 1:]], axis=2).reshape(N * M, 4, 3)
    line = np.repeat(np.arange(N), M)
    trailing_edge_info = line == N - 1
    leading_edge_info = (line == 0) & ~trailing_edge_info
    return np.array(panels, dtype=float), trailing_edge_info, leading_edge_info
"""),
 ("pySailingVLM/solver/panels.py", """        p = [panels[i, 0], panels[i, 1], panels[i, 2], panels[i, 3]]
        path = []
        for j in range(len(p) - 1):
            step = p[j + 1] - p[j]
            path.append(step)

        area = 0
        for k in range(len(path) - 1):
            s = np.cross(path[k], path[k + 1])
            s = np.linalg.norm(s)
            area += 0.5 * s
        areas[i] = area   
""", """        path = np.diff(panels[i], axis=0)
        areas[i] = 0.5 * sum(np.linalg.norm(np.cross(a, b)) for a, b in zip(path, path[1:]))
"""),
 ("pySailingVLM/solver/mesher.py", """    segment = []
    step = (p2 - p1) / n

    for i in range(n):
        point = p1 + i * step
        segment.append(point)

    segment.append(p2)
    return np.array(segment)
""", """    step = (p2 - p1) / n
    return np.vstack([p1 + np.outer(np.arange(n), step), p2])
"""),
 ("pySailingVLM/solver/mesher.py", """    mesh = []
    counter = 0
    for p1, p2 in zip(segment1, segment2):
        p = distance[counter]
        m = camber[counter] 
        foil = VlmAirfoil(m, p, 0.0, n=n)
        
        xs = (p2[0] - p1[0]) * foil.xc + p1[0]
        ys = (p2[0] - p1[0]) * foil.yc 
        zs =[p1[2]] * n 
    
        counter += 1
        mesh.append(list(zip(xs,ys, zs)))

    return np.array(mesh)
""", """    mesh = np.empty((len(segment1), n, 3))
    for line, p1, p2, p, m in zip(mesh, segment1, segment2, distance, camber):
        foil = VlmAirfoil(m, p, 0.0, n=n)
        chord = p2[0] - p1[0]
        line[:, 0] = p1[0] + chord * foil.xc
        line[:, 1] = chord * foil.yc
        line[:, 2] = p1[2]
    return mesh
"""),
 ("pySailingVLM/solver/interpolator.py", """        self.interpolation_switch = {
            "linear": lambda x_new, x, y: np.interp(x_new, x, y),
            "spline": lambda x_new, x, y: interpolate.splev(x_new, interpolate.splrep(x, y, s=0), der=0),
        }
""", """        self.interpolation_switch = {"linear": self._linear, "spline": self._spline}

    @staticmethod
    def _linear(x_new, x, y):
        return np.interp(x_new, x, y)

    @staticmethod
    def _spline(x_new, x, y):
        knots = interpolate.splrep(x, y, s=0)
        return interpolate.splev(x_new, knots)
"""),
 ("pySailingVLM/thin_airfoil/vlm_airfoil.py", """        return np.array([self.__get_y_camber(x) for x in self._xc])
    
""", """        x, m, p = self._xc, self._m, self._p
        front = x < p
        divisor = np.where(front, p if p else 1., 1 - p) ** 2
        return m * np.where(front, 2 * p * x - x**2, 1 - 2 * p + 2 * p * x - x**2) / divisor
    
"""),
 ("pySailingVLM/solver/forces.py", """    dx, dy, dz = v_from_old_2_new_csys
    N = len(cp_points)
    r = np.copy(cp_points)
    for i in range(N):
        r[i, 0] -= dx  # yawing moment arm
        r[i, 1] -= dy  # pitching moment arm
        if cp_points[i, 2] > 0:
            r[i, 2] -= dz  # heeling moment arm
        else:
            r[i, 2] += dz

    return r
""", """    dx, dy, dz = v_from_old_2_new_csys
    x, y, z = cp_points.transpose()
    return np.column_stack([x - dx, y - dy, np.where(z > 0, z - dz, z + dz)])
"""),
 ("pySailingVLM/solver/additional_functions.py", """    cp_z_as_girths_all = np.array([])
    #cp_straight_yacht_all = np.array([])
    
    cp_straight_yacht_all = np.empty((0,3))
    for i in range(n):
        sail_cp_points = np.concatenate([chunks_cp_points[i], chunks_cp_points[i+n]])
        sail_cp_straight_yacht = get_cp_strainght_yacht(sail_cp_points, csys_transformations)
        z_as_girths = cp_to_girths(sail_cp_straight_yacht, sail_set.sails[i].tack_mounting)
        cp_z_as_girths_all = np.append(cp_z_as_girths_all, z_as_girths)
        #cp_straight_yacht_all = np.append(cp_straight_yacht_all, sail_cp_straight_yacht)
        cp_straight_yacht_all = np.append(cp_straight_yacht_all, sail_cp_straight_yacht, axis=0)

""", """    straight, girths = [], []
    for sail, above, under in zip(sail_set.sails, chunks_cp_points[:n], chunks_cp_points[n:]):
        points = get_cp_strainght_yacht(np.vstack([above, under]), csys_transformations)
        straight.append(points)
        girths.append(cp_to_girths(points, sail.tack_mounting))
    cp_z_as_girths_all = np.hstack(girths)
    cp_straight_yacht_all = np.vstack(straight)

"""),
 ("pySailingVLM/solver/additional_functions.py", """    names = np.array([])
    
    for sail in sail_set.sails:
        rep_names = np.repeat(sail.name, repeat)
        names = np.append(names, rep_names)
      
""", """    names = np.repeat([sail.name for sail in sail_set.sails], repeat)
"""),
 ("pySailingVLM/solver/additional_functions.py", """    for i in range(mesh1.shape[0]):
        if len(dimentions) == 2:
            ax.plot(mesh1[i, :, dimentions[0]], mesh1[i, :, dimentions[1]], color1)
            if mesh2 is not None:
                ax.plot(mesh2[i, :, dimentions[0]], mesh2[i, :, dimentions[1]], color2)
        else:
            ax.plot3D(mesh1[i, :, 0], mesh1[i, :, 1], mesh1[i, :, 2], color1)
            if mesh2 is not None:
                ax.plot3D(mesh2[i, :, 0], mesh2[i, :, 1], mesh2[i, :, 2], color2)
""", """    def draw(polygon, color):
        if len(dimentions) == 2:
            ax.plot(*(polygon[:, d] for d in dimentions), color)
        else:
            ax.plot(polygon[:, 0], polygon[:, 1], polygon[:, 2], color)

    for i, polygon in enumerate(mesh1):
        draw(polygon, color1)
        if mesh2 is not None:
            draw(mesh2[i], color2)
"""),
 ("pySailingVLM/yacht_geometry/sail_geometry.py", """        # mirror z coord in water surface
        # remember that direction of the lifting-line matters
        le_NW_underwater = np.array(
            [tack_mounting[0], tack_mounting[1], -tack_mounting[2]])  # leading edge South - West coordinate - mirror
        le_SW_underwater = np.array(
            [head_mounting[0], head_mounting[1], -head_mounting[2]])  # leading edge North - West coordinate - mirror
""", """        mirror = np.array([1., 1., -1.])
        le_NW_underwater = tack_mounting * mirror
        le_SW_underwater = head_mounting * mirror
"""),
 ("pySailingVLM/yacht_geometry/sail_geometry.py", """        chords_vec = np.array([chords, np.zeros(len(chords)), np.zeros(len(chords))])
        chords_vec = chords_vec.transpose()
        fchords_vec = np.flip(chords_vec, axis=0)
""", """        chords_vec = np.outer(chords, [1., 0., 0.])
        fchords_vec = chords_vec[::-1].copy()
"""),
 ("pySailingVLM/yacht_geometry/sail_geometry.py", """            twist_dict = {
                'sheeting_angle_const': np.full(len(initial_sail_twist_deg), np.min(initial_sail_twist_deg)),
                'average_const': np.full(len(initial_sail_twist_deg), np.average(initial_sail_twist_deg)),
                'real_twist': initial_sail_twist_deg
            }
            sail_twist_deg = twist_dict[LLT_twist]
            sail_twist_deg = np.hstack([sail_twist_deg] * (sh1))
            sail_twist_deg = sail_twist_deg.reshape(sh1, sh0).transpose().flatten()
""", """            sail_twist_deg = np.repeat(self._section_twist(np.asarray(initial_sail_twist_deg, dtype=float), LLT_twist), sh1)
"""),
 ("pySailingVLM/yacht_geometry/sail_geometry.py", """    def rotate_points_around_le(self, points, p1, p2, sail_twist_deg_vec):
     
        # if all elements are the same -> only once do the calculation -> less matrix multiplications
        result = np.all(sail_twist_deg_vec == sail_twist_deg_vec[0])
        rotated_points = points
        if result:
            rotated_points = rotate_points_around_arbitrary_axis(points, p1, p2, np.deg2rad(sail_twist_deg_vec[0]))
        else:
            # squezee removes "1" diemntion
            # rotate_points_around_arbitrary_axis needs [[a, b, c]] or [[a, b, c], [e, f, g], ...] 
            rotated_points = np.array([np.squeeze(rotate_points_around_arbitrary_axis(np.array([point]), p1, p2, np.deg2rad(deg))) for point, deg in zip(points, sail_twist_deg_vec) ])

        return rotated_points
""", """    @staticmethod
    def _section_twist(twist, mode):
        if mode == 'sheeting_angle_const':
            return np.full_like(twist, twist.min())
        if mode == 'average_const':
            return np.full_like(twist, twist.mean())
        if mode == 'real_twist':
            return twist
        raise KeyError(mode)

    def rotate_points_around_le(self, points, p1, p2, sail_twist_deg_vec):
        rotated_points = np.empty_like(points)
        for deg in np.unique(sail_twist_deg_vec):
            those = sail_twist_deg_vec == deg
            rotated_points[those] = rotate_points_around_arbitrary_axis(points[those], p1, p2, np.deg2rad(deg))
        return rotated_points
"""),
 ("pySailingVLM/yacht_geometry/sail_geometry.py", """        rmesh = np.array([self.csys_transformations.rotate_point_with_mirror(point) for point in mesh])
        rmesh_underwater = np.array([self.csys_transformations.rotate_point_with_mirror(point) for point in mesh_underwater])

        mesh = rmesh
        mesh_underwater = rmesh_underwater
""", """        turn = self.csys_transformations.rotate_point_with_mirror
        mesh = np.array(list(map(turn, mesh)))
        mesh_underwater = np.array(list(map(turn, mesh_underwater)))
"""),
 ("pySailingVLM/results/inviscid_flow.py", """            F_xyz_above_water_tmp_total = np.sum(F_xyz_above_water_tmp, axis=0)
            dyn_dict[f"F_{sail_set.sails[i].name}_total_COG.x"] = F_xyz_above_water_tmp_total[0]
            dyn_dict[f"F_{sail_set.sails[i].name}_total_COG.y"] = F_xyz_above_water_tmp_total[1]
            dyn_dict[f"F_{sail_set.sails[i].name}_total_COG.z"] = F_xyz_above_water_tmp_total[2]

            M_xyz_tmp = calc_moments(r_tmp, F_xyz_above_water_tmp)
            M_xyz_tmp_total = np.sum(M_xyz_tmp, axis=0)
            dyn_dict[f"M_{sail_set.sails[i].name}_total_COG.x"] = M_xyz_tmp_total[0]
            dyn_dict[f"M_{sail_set.sails[i].name}_total_COG.y"] = M_xyz_tmp_total[1]
            dyn_dict[f"M_{sail_set.sails[i].name}_total_COG.z"] = M_xyz_tmp_total[2]
""", """            totals = {"F": np.sum(F_xyz_above_water_tmp, axis=0), "M": np.sum(calc_moments(r_tmp, F_xyz_above_water_tmp), axis=0)}
            for letter, vector in totals.items():
                for axis, value in zip("xyz", vector):
                    dyn_dict[f"{letter}_{sail_set.sails[i].name}_total_COG.{axis}"] = value
"""),
 ("pySailingVLM/results/inviscid_flow.py", """        r_dot_F = np.array([np.dot(r[i], myvlm.force[i]) for i in range(len(myvlm.force))])
""", """        r_dot_F = (r * myvlm.force).sum(axis=1)
"""),
 ("pySailingVLM/results/save_utils.py", """    n = 2 * len(sail_set.sails)
    a = tuple(np.array_split(cp_straight_yacht_all, n)[::2])
    cp_straight_yacht_above = np.concatenate(a) 
""", """    count = len(sail_set.sails)
    cp_straight_yacht_above = cp_straight_yacht_all.reshape(count, 2, -1, 3)[:, 0].reshape(-1, 3)
"""),
 ("pySailingVLM/results/save_utils.py", """    df_inlet_conditions = np.array_split(myvlm.inlet_conditions.to_df_full(sail_set.sails[0].csys_transformations), 2)
    df_inlet_conditions_above = df_inlet_conditions[0]
    
    df_inviscid_flow = np.array_split(inviscid_flow_results.to_df_full(), 2)
    df_inviscid_flow_above = df_inviscid_flow[0]
""", """    half = len(myvlm.cp) // 2
    df_inlet_conditions_above = myvlm.inlet_conditions.to_df_full(sail_set.sails[0].csys_transformations).iloc[:half]
    df_inviscid_flow_above = inviscid_flow_results.to_df_full().iloc[:half]
"""),
 ("pySailingVLM/results/save_utils.py", """    if not os.path.exists(output_dir):
        os.makedirs(output_dir, exist_ok=True)  # a path through ".." may come to exist while it is made
""", """    os.makedirs(output_dir, exist_ok=True)
"""),
 ("pySailingVLM/runner/aircraft.py", """        total_p = np.sum(self.__pressure * areas, axis=0)  # weighted by area, as q below contains the wing's area
        q = 0.5 * rho * (np.linalg.norm(self.V) ** 2) * self.__S
        self.__Cp = total_p / q
""", """        self.__Cp = self.__mean_pressure_coefficient(areas)

    def __mean_pressure_coefficient(self, areas):
        return np.sum(self.__pressure * areas) / (0.5 * self.rho * (np.linalg.norm(self.V) ** 2) * self.__S)
"""),
 ("pySailingVLM/inlet/winds.py", """        tws = np.array([wind_speed * np.cos(self.alpha_true_wind),
                        wind_speed * np.sin(self.alpha_true_wind),
                        0])

        return tws
""", """        direction = np.array([np.cos(self.alpha_true_wind), np.sin(self.alpha_true_wind), 0.])
        return wind_speed * direction
"""),
 ("pySailingVLM/runner/cli.py", """    parse_cli()
    out = Output(**vr.output_args)
""", """    parse_cli()
    run(vr)


def run(vr):
    out = Output(**vr.output_args)
"""),
]
