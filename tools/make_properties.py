"""Writes /verif/properties.jsonl (the list is kept here to be readable)."""
import json
import os

BS, CO, SC, AD = ("cuprates_transport/%s.py" % n for n in ("bandstructure", "conductivity", "scattering", "admr"))
FM, FO, FS1, FSM = ("cuprates_transport/fitting_admr_%s.py" % n for n in
                    ("parallel_multiT", "parallel_oneT", "series_oneT", "series_multi_T"))
P = []


def add(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


add("P01", "Energy and velocity are exactly those of the band model given by the user",
    "For every dispersion formula, set of parameter names and values, lattice constants, energy scale and "
    "compilation mode, the energy returned at any wave vector equals the formula evaluated with each band parameter "
    "multiplied by the energy scale, and the velocity equals its exact k-gradient divided by hbar in m/s. "
    "This holds for scalars and arrays of any shape, after any change of parameters, and whatever the order in "
    "which the parameters were given.",
    ["inputs", "configurations"], "all formulas built from kx, ky, kz, a, b, c and the band parameters; all k",
    "the tests evaluate one formula with one set of parameters and only look at its transport coefficients",
    [BS], [("symbolic differentiation and code generation", BS + ": energy_velocity_definition, bandParameters")],
    ["BandStructure.energy_func", "BandStructure.velocity_func"])
add("P02", "Fermi surface points lie on the Fermi surface and cover all of it",
    "After a discretisation at energy epsilon, with either algorithm, every stored k-point lies within the "
    "Brillouin zone requested and on the surface energy(k) = epsilon to within the discretisation step, and its "
    "stored velocity and density of states are those of the band at that very point. "
    "Conversely every piece of the surface inside the zone has stored points close to it, in every quadrant, "
    "on every kz slice and for tetragonal as well as orthorhombic lattices.",
    ["inputs", "configurations"], "bands, lattice constants, zone bounds, resolutions, energies, both algorithms",
    "the tests use one cuprate band at one resolution and compare one point",
    [BS], [("marching cube", BS + ": marching_cube"), ("marching square", BS + ": marching_square"),
           ("velocity and dos", BS + ": discretize_fermi_surface")],
    ["BandStructure.kf / vf / dos_k", "number_of_points_per_kz_list"])
add("P03", "Fermi surface weights integrate the surface: area, slices and density of states",
    "The weights attached to the Fermi surface points sum to the area of the surface (with the slice algorithm: "
    "to the length of its contours times the thickness of each slice) and, combined with the "
    "density of states of each point, integrate any smooth function over the surface, up to the discretisation "
    "error, which decreases when the resolution increases. The total density of states computed from them equals "
    "the derivative of the number of states per volume with respect to energy.",
    ["inputs", "configurations"], "bands, lattices, zone bounds, resolutions, energies, both algorithms",
    "the tests see the weights only through one conductivity value of one band",
    [BS], [("weights of the triangles", BS + ": marching_cube"), ("path step times dkz", BS + ": marching_square"),
           ("total density of states", BS + ": dos_epsilon_func")],
    ["BandStructure.dkf", "dks", "dkz", "dos_epsilon"])
add("P04", "Band filling and doping count the occupied states",
    "The filling of a band is twice the fraction of states of the zone with energy not above the Fermi level, "
    "divided by the number of Brillouin zones spanned, and the doping is one minus it; the total doping of several "
    "bands is one minus the sum of their fillings, and the filling per kz averages to the total. The filling "
    "stays between zero and two, does not decrease when the chemical potential rises, and does not depend on the "
    "energy scale.",
    ["inputs", "configurations"], "bands, lattices, zone bounds, grid resolutions, one or several bands",
    "the tests compare the doping of one band (and of one two-band system) to a stored number",
    [BS], [("count on a grid", BS + ": update_filling, doping, doping_per_kz, dispersion_grid"),
           ("several bands", BS + ": module function doping")],
    ["BandStructure.n, p", "doping()", "filling()", "doping_per_kz()", "ADMR.total_hole_doping"])
add("P05", "The chemical potential solver reaches the requested doping",
    "After asking for a doping that the band (or set of bands) can have, the chemical potential of every band "
    "involved is one and the same value and recomputing the doping gives the requested one, within the "
    "change of doping that the solver tolerance on the chemical potential allows. All other parameters are "
    "unchanged and nothing computed for the previous chemical potential survives as if it were current.",
    ["inputs", "histories"], "bands, target dopings, starting chemical potentials, single and multi-band solvers",
    "one target doping of one band is tested",
    [BS], [("root search", BS + ": set_mu_to_doping (method and module function), diff_doping, dopingCondition")],
    ["band['mu'], band.n, band.p, band.kf"])
add("P06", "Cyclotron mass and cyclotron frequency follow from the Fermi surface orbit",
    "The cyclotron mass of a band equals hbar^2/(2 pi) times the derivative of the orbit area with respect to "
    "energy, averaged over kz and in units of the electron mass, for any dispersion whose orbits are closed and "
    "for any resolution. The cyclotron frequency times lifetime at each k-point is proportional to the field and "
    "equals e B v / (hbar k) times the lifetime at that point.",
    ["inputs", "configurations"], "bands with one closed orbit per kz, lattices, resolutions, fields, lifetimes",
    "one band at one field is compared to a stored number",
    [BS, CO], [("orbit integral", BS + ": mass_func"), ("omega_c tau", CO + ": omegac_tau_func")],
    ["BandStructure.mass", "Conductivity.omegac_tau_k"])
add("P07", "A band structure never returns results of earlier parameters",
    "Whatever sequence of parameter changes, chemical potential searches, discretisations and doping computations a "
    "band object went through, each quantity it holds is either marked as not computed or equal to what a fresh "
    "object with the current parameters gives for the same request. An assignment to an unknown parameter name "
    "changes nothing.",
    ["histories"], "all sequences of public operations on one band object",
    "the tests build a new object for each assertion",
    [BS], [("erasing the Fermi surface on every change", BS + ": erase_Fermi_surface and the property setters")],
    ["kf, vf, dkf, dks, dkz, dos_k, dos_epsilon, mass, n, p, number_of_points_per_kz_list"])
add("P08", "Zero-field conductivity is the Boltzmann integral over the Fermi surface",
    "Without field and at zero temperature the conductivity tensor equals e^2/(4 pi^3) times the integral over the "
    "Fermi surface of v_i v_j tau(k) / (hbar |v|), divided by the number of zones spanned; it is symmetric, positive "
    "semi-definite and independent of the field angles and time discretisation. It scales inversely with the "
    "scattering rate.",
    ["inputs", "configurations"], "bands, lattices, resolutions, both discretisations, all scattering models",
    "one band, one scattering rate and two tensor components are tested",
    [CO, SC], [("velocity product without field", CO + ": velocity_product, sigma_epsilon, chambers_func"),
               ("lifetime", SC + ": tau_tot_func")],
    ["Conductivity.sigma"])
add("P09", "Parabolic bands obey the Drude law in any magnetic field",
    "For an ellipsoidal pocket, electron or hole, anywhere in the zone and with an isotropic scattering rate, the "
    "conductivity tensor equals n e^2 (M/tau -+ e [B])^-1, M being the mass tensor and n the carrier density, for any "
    "field strength and direction. In particular the Hall effect has the sign of the carriers, n from the "
    "Hall coefficient is the carrier density and the resistivity along the field is not changed by it.",
    ["inputs"], "masses, pocket positions, carrier types, lattices, fields, angles, scattering rates",
    "no test compares to an analytical result in field",
    [CO, BS], [("orbit integration and Chambers formula", CO + ": solve_movement, t_o_tau_func, velocity_product")],
    ["Conductivity.sigma"])
add("P10", "Conductivity obeys Onsager reciprocity and is dissipative",
    "Reversing the magnetic field transposes the conductivity tensor, for any band, scattering model, temperature and "
    "field direction, up to the discretisation error. The dissipative part of the tensor is positive, and the "
    "longitudinal conductivity never exceeds its zero-field value for a constant scattering rate.",
    ["inputs"], "bands, lattices, scattering models, fields of either sign and any direction",
    "the tests use one field direction and one sign",
    [CO], [("Lorentz force along backward orbits", CO + ": movement_equation, crossProductVectorized")],
    ["Conductivity.sigma"])
add("P11", "The field vector always is the one described by amplitude and angles",
    "After any sequence of changes of the field amplitude, polar angle and azimuthal angle, in any order and including "
    "negative values and angles beyond 180 degrees, the field vector is amplitude times (sin theta cos phi, sin "
    "theta sin phi, cos theta), and results depend only on this vector. Rotating or reflecting the field by a "
    "symmetry of the band transforms the conductivity tensor by the same symmetry.",
    ["inputs", "histories"], "field settings and their order, equivalent descriptions, lattice symmetries",
    "the tests set the field once, at construction",
    [CO], [("recomputing the vector on every change", CO + ": B_func and the setters of Bamp, Bphi, Btheta")],
    ["Conductivity.B_vector", "Conductivity.sigma"])
add("P12", "Electrons move on cyclotron orbits",
    "In a field, each trajectory starts at its Fermi surface point, follows hbar dk/dt = e v x B backward in time, stays "
    "at constant energy and constant k along the field within the solver tolerance asked for, and the velocities "
    "stored along it are those of the band at those k. Tightening the tolerances brings it closer to the exact orbit.",
    ["inputs", "configurations"], "bands, lattices, fields, directions, durations, tolerances, number of time steps",
    "the tests never look at the trajectories",
    [CO], [("equation of motion", CO + ": movement_equation, solve_movement")],
    ["Conductivity.kft, vft, time_array"])
add("P13", "Conductivity in a field is the Chambers integral along the orbits",
    "The conductivity in a field equals the Fermi surface integral of the velocity times the time integral along the "
    "past orbit of velocity weighted with the probability of not having scattered, for any scattering model; the "
    "time range covers the longest lifetime. It tends to the zero-field result as the field vanishes, "
    "depends on field and scattering rate only through their ratio apart from an overall factor, and converges as the "
    "number of time steps grows.",
    ["inputs", "configurations"], "bands, lattices, scattering models, fields, time discretisations",
    "the tests compare two tensor components for two scattering rates to stored numbers",
    [CO], [("time integral", CO + ": reset_time, t_o_tau_func, velocity_product")],
    ["Conductivity.sigma, t_o_tau, tau_tot"])
add("P14", "Finite-temperature coefficients are thermal averages over energy",
    "At finite temperature the electrical, thermoelectric and thermal coefficients are the integrals over energy of the "
    "zero-temperature conductivity of the constant-energy surfaces, weighted with -df/dE and with 1, "
    "(E/T)/(-e) and (E^2/T)/e^2; their energy window covers the thermal broadening down to the requested "
    "cut; a scattering rate that depends on energy is taken at the energy of each surface. They tend to the zero-temperature conductivity, the Mott formula and the Wiedemann-Franz law at low "
    "temperature, and the band is left at the Fermi level.",
    ["inputs", "configurations"], "bands, temperatures, energy resolutions and cuts, fields, scattering models",
    "two temperatures of one band are compared to stored numbers",
    [CO], [("energy integration", CO + ": runTransport, chambers_func, dfdE, energyCutOff, integrand_coeff")],
    ["Conductivity.sigma, alpha, beta, epsilon_array", "bandObject.kf"])
add("P15", "A transport object recomputes everything from its current settings",
    "After any sequence of changes of field, angles, temperature, scattering parameters, time and energy "
    "resolutions, and band parameters (followed by a recomputation of the band), interleaved with runs, a run gives "
    "what a fresh object built with the final settings gives. Running twice changes nothing.",
    ["histories"], "all sequences of setting changes and runs on one transport object",
    "each test runs an object built for it, once",
    [CO, SC], [("time arrays, energy window, lifetimes and angles recomputed in each run",
                CO + ": runTransport, reset_time, property setters")],
    ["Conductivity.sigma, alpha, beta, epsilon_array, gamma_tot_min, gamma_tot_max"])
add("P16", "Scattering rates add up and follow their formulas over the periodic zone",
    "The total scattering rate at a state is the sum of the selected models, each equal to its documented formula with the "
    "current parameters, wherever the state lies relative to the first Brillouin zone, and the lifetime is its "
    "inverse. Changing parameters one by one or all at once takes effect in the next evaluation, and the order "
    "of the models does not matter. A scattering model added by the user receives the wave vector, velocity or energy it "
    "names as its arguments, and nothing else about it matters.",
    ["inputs", "histories"], "models and their combinations, parameters, k inside and outside of the zone, lattices",
    "the tests use at most two models with one set of parameters",
    [SC], [("sum over the models", SC + ": tau_tot_func"), ("zone folding", SC + ": phi_func"),
           ("parameter setter", SC + ": scattering_params")],
    ["Scattering.tau_tot_func", "Conductivity.gamma_tot_min, gamma_tot_max"])
add("P17", "Angle sweeps give the zz element of the inverted total tensor at each angle",
    "For every pair of angles of an angle sweep, in the row and column of that pair, the stored resistivity is the zz "
    "element of the inverse of the sum of the conductivity tensors of all bands at those angles, and the normalised one "
    "is its ratio to the value interpolated at the normalisation angle of the same row. Repeating the sweep, "
    "changing the order of angles or bands, or sweeping angles one at a time gives the same values.",
    ["inputs", "histories", "configurations"], "bands, numbers of bands, angle grids, normalisation angles, reruns",
    "only the construction of the sweep object and one two-band sweep are tested",
    [AD], [("sweep", AD + ": runADMR")], ["ADMR.rhozz_array, rzz_array, total_filling, total_hole_doping"])
add("P18", "Exported sweeps can be read back and identify what produced them",
    "The exported table of an angle sweep contains each angle with the resistivities of each azimuth in order, the field, "
    "the energy scale, the band parameters and the resolution under the header naming that column, and reading it back "
    "gives the values of the sweep to the printed precision. The automatic file name contains the doping, "
    "temperature, field, energy scale, parameters and band names of the sweep, and files are written only at the "
    "place asked for.",
    ["inputs", "configurations"], "angle grids, bands, parameters, folders, explicit and automatic file names",
    "no test reads an exported file",
    [AD], [("table and header", AD + ": fileADMR"), ("name", AD + ": file_name_func"), ("figure file", AD + ": figADMR")],
    ["files written by ADMR.fileADMR and ADMR.figADMR"])
add("P19", "Experimental data are placed on the simulation angles without distortion",
    "The data matrices used by a fit have, for each azimuth in its row, the measured curve interpolated at the simulated "
    "polar angles and normalised by its value at the normalisation angle (or scaled by the given prefactor), whatever the "
    "order of the rows, the columns used or extra columns in the file. The simulated angles span the requested range, "
    "cut where the data end, and only the azimuths and temperature requested are taken.",
    ["inputs", "configurations"], "data files, column choices, angle ranges, azimuths, temperatures, all fit drivers",
    "the only fit test cannot run (its data files are missing)",
    [FM, FO, FS1, FSM], [("loading", FM + ": DataADMR, FitAnglesADMR"), ("loading", FO + ": load_and_interp_data")],
    ["rzz_data_matrix, rhozz_data_matrix, Btheta_array, Bphi_array"])
add("P20", "The fit objective is the distance between data and simulation at that point",
    "For every vector of free parameters, the objective of each fit driver is the sum of squares (or the vector) of the "
    "differences between prepared data and the sweep simulated with exactly those parameters, each assigned to the "
    "band, temperature and parameter it stands for and all others unchanged. It does not depend on "
    "the vectors evaluated before, and it vanishes when the data were generated with the same parameters. The "
    "bands and transport objects the fit holds afterwards are those of the last vector.",
    ["inputs", "histories"], "free parameter choices, temperatures, bands, vectors, sequences of evaluations",
    "the only fit test cannot run (its data files are missing)",
    [FM, FO, FS1, FSM], [("routing of parameters", FM + ": update_parameters, update_conditions, SimADMR.update_params"),
                         ("objective", FM + ": compute_fitness; " + FO + ": compute_diff2; " + FS1 + ": compute_diff")],
    ["compute_fitness, compute_diff2, compute_diff"])
add("P21", "Fits return their best parameters, inside the bounds, and save them faithfully",
    "A complete fit, serial or with parallel workers, ends with parameters inside their bounds whose objective is not worse "
    "than at any point it reports or at the initial points, leaves its simulated curves equal to a simulation with the "
    "returned parameters, and writes them to a file that reads back to the same values. On data generated within the "
    "bounds it reduces the objective towards zero.",
    ["inputs", "schedules"], "data sets, bounds, numbers of workers, fit drivers",
    "the only fit test cannot run (its data files are missing)",
    [FM, FO, FS1, FSM], [("differential evolution over a process pool", FM + ": fit_admr_parallel"),
                         ("export", FM + ": save_member_to_json")],
    ["fit_admr_parallel, runFit, JSON files"])
add("P22", "Objects are independent and leave the caller's inputs unchanged",
    "Constructing and running any object of the library does not modify the dictionaries, lists or band objects handed to it "
    "nor the defaults used by later objects, and two objects built from the same inputs can be changed and run in any "
    "interleaving with the same results as alone.",
    ["histories", "inputs"], "pairs of objects, interleavings of operations, shared inputs",
    "tests never inspect their inputs after use",
    [BS, CO, SC, AD, FM], [("deep copies on construction", CO + ", " + SC + ", " + BS + ": __init__")],
    ["caller's dictionaries and band objects; results of the other object"])
add("P23", "Reports and figures do not disturb results",
    "Producing any figure, file or printed report from a computed band, conductivity or sweep leaves every computed "
    "quantity and every setting unchanged, can be done repeatedly, and what it draws are the computed values.",
    ["histories", "configurations"], "figures and reports at any point of a sequence of computations",
    "tests call some figures but never check what is left behind",
    [BS, CO, AD], [("figures", CO + ": fig*; " + BS + ": fig*; " + AD + ": figADMR")],
    ["state before and after; drawn lines"])
add("P24", "Equivalent descriptions of the same material give the same physics",
    "Splitting the same energies differently between energy scale and parameters, renaming parameters, writing the same "
    "dispersion in another algebraic form, exchanging the roles of the axes, shifting or inverting the momentum, or "
    "describing it in a zone twice as large with twice the number of zones gives the same filling and the same "
    "(correspondingly transformed) conductivity. Exchanging electrons and holes keeps the longitudinal and "
    "reverses the Hall conductivity.",
    ["inputs", "configurations"], "bands, lattices, fields and pairs of equivalent descriptions",
    "each test looks at a single description",
    [BS, CO, SC], [("units and normalisations", BS + ", " + CO)],
    ["doping(), Conductivity.sigma"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
