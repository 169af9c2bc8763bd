"""Source of properties.jsonl and MANIFEST.json (see make_docs.py)."""
SP, BL = "agnpy/spectra/spectra.py", "agnpy/emission_regions/blob.py"
SY, PS_ = "agnpy/synchrotron/synchrotron.py", "agnpy/synchrotron/proton_synchrotron.py"
SS, EC, KE = "agnpy/compton/synchrotron_self_compton.py", "agnpy/compton/external_compton.py", "agnpy/compton/kernels.py"
TA, RP, CO = "agnpy/targets/targets.py", "agnpy/radiative_process/core.py", "agnpy/constraints/spectral_constraints.py"
AB, EB = "agnpy/absorption/targets_absorption.py", "agnpy/absorption/ebl_absorption.py"
TE, TU, TT = "agnpy/time_evolution/time_evolution.py", "agnpy/time_evolution/_time_evolution_utils.py", "agnpy/time_evolution/types.py"
UM, UG, UC = "agnpy/utils/math.py", "agnpy/utils/geometry.py", "agnpy/utils/conversion.py"
FC, FD, FG, FS, FM = ["agnpy/fit/%s.py" % x for x in ("core", "data", "gammapy_wrapper", "sherpa_wrapper", "models")]

P = []


def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(entry=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), note=note))


prop("C01", "Normalised particle distributions carry exactly the requested content",
     "A particle distribution built from a total density, a total energy density, a total energy in a volume, or a density at Lorentz factor 1 has that content when integrated (or evaluated), keeps the requested shape, bounds, mass and integrator, and its integrals over any sub-range and any power of the Lorentz factor equal the integral of its own values. The energy uses the rest mass of the species the distribution was built for.",
     ["inputs", "configurations"], "all five analytic shapes, any bounds, indices, breaks inside and outside the bounds, electrons and protons, both integrators, sub-ranges, powers of gamma, units of the requested total",
     "Tests normalise a handful of fixed parameter sets, mostly electrons with the default integrator.",
     [SP], [("normalising class methods", SP + " ParticleDistribution.from_*"), ("integral / integrate", SP)],
     "Generated shapes against an independent cgs model of every shape on the same grid and, loosely, adaptive quadrature.")
prop("C02", "Particle distributions follow their closed form and vanish outside their bounds",
     "Every analytic particle distribution returns its documented closed form at any Lorentz factor within its bounds (bounds included, also when they are missed by rounding) and exactly zero outside, whatever the shape or layout of the input array and whichever way it is called, integers giving the same values as floating-point numbers; broken shapes are continuous and equal the normalisation at the break. Changing a parameter of the object changes the values accordingly, and the limits in which one shape reduces to a simpler one hold.",
     ["inputs", "histories"], "all shapes and parameters, scalars and arrays of any dimension, points at, near, inside and outside the bounds, mutated attributes",
     "Tests compare a few curves with reference values on one grid, never the boundaries, other layouts or mutated objects.",
     [SP], [("static evaluate of each shape", SP), ("boundary correction", SP + " _correct_array_boundary_values"), ("parameters property", SP)],
     "Closed forms re-derived in plain numpy; exact zero outside; continuity and limit relations.")
prop("C03", "The self-absorption integrand is gamma^2 d/dgamma(n/gamma^2) of the distribution",
     "For every particle distribution, the quantity integrated for synchrotron self-absorption equals gamma squared times the derivative of density over gamma squared of that same distribution, inside its bounds (bounds included), and zero outside.",
     ["inputs"], "all shapes including interpolated ones, all parameters, points on either side of breaks, pivots and cutoffs",
     "Tests check the derivative for one parameter set per shape on a coarse tolerance.",
     [SP], [("evaluate_SSA_integrand of each shape", SP)],
     "Analytic logarithmic derivative from the model and finite differences of the object's own density.")
prop("C04", "Interpolated distributions reproduce the densities they were given",
     "A distribution interpolated from samples returns the sampled densities at the samples, log-log interpolation in between by the chosen interpolator, zero outside the range of the non-zero samples, and is linear in its norm; integer or scalar Lorentz factors give the same values as floating-point ones. Data in units other than a number density are refused.",
     ["inputs"], "random sample grids and densities with zeros at either end, three interpolators, any norm, query points at, between and outside the samples, integer and scalar queries",
     "Tests interpolate two smooth distributions and compare with 2-10 % tolerances.",
     [SP], [("InterpolatedDistribution", SP)],
     "Exact interpolation conditions, scipy interpolators applied independently in log space, exactness on power laws.")
prop("C05", "Geometry and kinematics of the emission region are mutually consistent",
     "Volume, variability time scale, velocity, viewing angle, Doppler factor, luminosity distance, redshift, magnetic field and Lorentz-factor grids of an emission region follow from its radius, Lorentz factor, Doppler factor and redshift by special relativity and the chosen cosmology, for parameters given in any suitable unit. Setting the Doppler factor from a viewing angle and reading the angle back is a round trip, also for jets exactly aligned with the line of sight, whose cosine never exceeds one.",
     ["inputs", "configurations"], "physically consistent bulk Lorentz factors 1.1-50, viewing angles 0-60 deg, radii in several units, redshifts, cosmologies, grid sizes",
     "Tests build one or two blobs with fixed values.",
     [BL], [("derived properties of Blob", BL), ("set_delta_D", BL)],
     "Closed forms recomputed from the inputs.")
prop("C06", "Totals, energies and jet powers are those of the particle distributions held",
     "Particle numbers, densities, energy densities, energies, magnetic energy density, equipartition ratio, jet powers and synchrotron photon energy densities reported by an emission region equal those computed from the distributions, radius, field and Lorentz factor it holds, each species with its own mass and its own energy bounds.",
     ["inputs"], "any pair of electron and proton distributions with different bounds, or no protons, any radius, field, Lorentz factor, grids",
     "Tests use one electron distribution and fixed values; protons are hardly touched.",
     [BL], [("N_e/N_p, n_*_tot, u_*, W_*, k_eq, P_jet_*, u_ph_synch", BL)],
     "Independent integrals of the modelled distributions.")
prop("C07", "Processes always reflect the current state of the emission region",
     "After any sequence of attribute changes, in-place edits or replacements of the particle distributions, and evaluations, every observable of an emission region and of the radiative processes, constraints and absorption objects built on it equals that of freshly built objects in the final state. The same holds when the target of an external Compton or absorption process, held by the caller, is changed or exchanged, or when its distance, viewing cosine or integration grids are changed. No evaluation changes later results.",
     ["histories"], "random sequences of mutations (radius, field, Doppler factor, redshift, acceleration parameter, distributions, grid sizes, attributes of targets, distances, integration grids of the processes) interleaved with looks at every observable",
     "Tests build objects once and evaluate them; no test changes an object after using it, save one for n_e.",
     [BL, SY, SS, EC, CO], [("properties computed on demand", BL), ("n_e / n_p setters and grids", BL)],
     "Differential against fresh construction after each history.",
     state=[("Blob attributes", "radius, field, Doppler factor, distributions, grids", BL)])
prop("C08", "Maximum and break Lorentz factors balance the documented time scales",
     "Each limit on the Lorentz factor (maximal from ballistic escape, Larmor radius, synchrotron, SSC or external-Compton losses; break from synchrotron, SSC or external Compton cooling) equates the acceleration, escape, Larmor and loss rates of the current emission region, with the energy density of the relevant field in the frame of the region.",
     ["inputs"], "any blob, any target, any distance",
     "Tests assert a few numerical values or ratios for one blob.",
     [CO], [("SpectralConstraints", CO)],
     "Closed forms from time-scale balance with independently computed energy densities.")
prop("C09", "The synchrotron SED is the folding of the electrons with the emissivity",
     "The synchrotron flux at any frequency equals the electrons of the region folded with the angle-averaged single-particle power, boosted by the Doppler factor and diluted by the luminosity distance, for either integration method and whether computed from the objects or from plain parameters. It converges to the integral of the exact emissivity as grids are refined, also for interpolated distributions.",
     ["inputs", "configurations"], "all electron shapes, field 1e-4-1e2 G, sizes, redshifts, Doppler factors, frequencies from radio to gamma rays, both integrators, default and explicit grids",
     "Tests compare one blob with a published curve within 15 %.",
     [SY], [("Synchrotron.evaluate_sed_flux / sed_flux", SY)],
     "Independent vectorised model (1e-6) and adaptive quadrature with exact Bessel emissivity.")
prop("C10", "Synchrotron building blocks are physically exact",
     "The angle-averaged synchrotron function is within a fraction of a percent of its exact definition; single-particle power, characteristic frequency and argument follow their closed forms for electrons and protons and the power integrates to the total loss rate of the particle. The monochromatic approximation evaluates the electrons at the Lorentz factors radiating at each frequency and matches the full spectrum within a factor two for broad power laws.",
     ["inputs"], "arguments 1e-6-700, fields in any unit, particles of either mass, energies, Lorentz factors",
     "Tests sample the function at a few points and the approximation on one blob.",
     [SY], [("R, calc_x, nu_synch_peak, epsilon_B, single_particle_synch_power", SY), ("sed_flux_delta_approx", SY)],
     "Exact Bessel-function definition, closed forms and conservation of energy.")
prop("C11", "Synchrotron self-absorption follows the opacity of the particles",
     "The self-absorption optical depth equals that derived from the slope of the electron distribution, is linear in radius and density, and the absorbed flux is the unabsorbed flux times the escape factor of a homogeneous sphere. That factor lies in (0, 1], decreases with optical depth, tends to one when thin and to 3/(2 tau) when thick; the absorbed flux never exceeds the unabsorbed one.",
     ["inputs", "configurations"], "all shapes with falling and inverted slopes, frequencies around the turnover, both integrators",
     "Tests check one absorbed SED against another code within tens of percent.",
     [SY, SP], [("evaluate_tau_ssa", SY), ("tau_to_attenuation", SY)],
     "Independent opacity, direct average over the sphere, and structural inequalities.")
prop("C12", "The proton synchrotron SED uses proton mass and proton population",
     "Proton synchrotron flux is the electron computation with the proton rest mass, the proton distribution and the proton grid of the region; the same distribution of electrons and protons radiates spectra related by the known powers of the mass ratio. Luminosity, peak flux and peak frequency follow from that flux.",
     ["inputs"], "any proton shape, fields, frequencies, both integrators",
     "Tests compare one proton SED with a reference curve.",
     [PS_], [("ProtonSynchrotron.evaluate_sed_flux", PS_)],
     "Independent model and electron/proton metamorphic relation.")
prop("C13", "The SSC SED is the electrons scattering their own synchrotron photons",
     "Synchrotron self-Compton flux is the isotropic Compton kernel folded with the electrons and with the synchrotron photon density of the same region (self-absorbed when requested), quadratic in the electron density for a transparent region. In the Thomson regime its luminosity equals the energy the electrons lose on those photons.",
     ["inputs", "configurations"], "all shapes, fields, sizes, with and without self-absorption, both integrators, frequencies from infrared to VHE",
     "Tests compare two blobs with published curves within 15-35 %.",
     [SS, KE, BL], [("SynchrotronSelfCompton.evaluate_sed_flux", SS), ("u_ph_synch_diff", BL)],
     "Independent three-dimensional folding and energy balance.")
prop("C14", "Compton kernels conserve the Klein-Nishina scattering rate",
     "Both Compton kernels equal their closed forms within the kinematic range, are exactly zero outside it, and integrated over scattered energies give the total Klein-Nishina rate; the threshold Lorentz factor solves the scattering kinematics. The electrons' SSC loss rate is that of the Klein-Nishina corrected formula, never above the Thomson rate and equal to it for slow electrons.",
     ["inputs"], "Lorentz factors 1-1e9, photon energies from radio to gamma rays, all angles, Thomson to deep Klein-Nishina",
     "Tests only go through complete SEDs.",
     [KE, SS], [("isotropic_kernel, compton_kernel, get_gamma_min", KE), ("electron_energy_loss_rate*", SS)],
     "Closed forms, total Klein-Nishina cross section quadrature, inequality to Thomson.")
prop("C15", "External Compton on CMB and on a point source follows the angular geometry",
     "External Compton flux on the cosmic microwave background is that on an isotropic field whose temperature and density follow the redshift; on a source behind the jet it is that of photons travelling along the axis with the dilution of their distance, linear in luminosity. Both use electrons transformed to the galaxy frame at the viewing angle of the region. The total over frequencies is the energy that the electrons hand over to those photons with the Klein-Nishina cross section.",
     ["inputs", "configurations"], "any blob and viewing angle, distance, photon energy, redshift, angular and energy grids, both integrators",
     "Tests compare one configuration with published curves at 20-30 %.",
     [EC, TA, KE], [("evaluate_sed_flux_iso_mono", EC), ("evaluate_sed_flux_ps_behind_jet", EC)],
     "Independent head-on scattering model summed over photon directions.")
prop("C16", "External Compton on disk, BLR and torus follows the geometry of the photons",
     "External Compton flux on an accretion disk, a spherical-shell broad line region and a ring dust torus sums, over the directions from which the photons reach the region at its height above the black hole, the scattered flux of photons of the local energy and energy density of each target. It holds inside and outside the broad line region, for every line, and for radii given in length or gravitational radii.",
     ["inputs", "configurations"], "any blob, viewing angle, height, target parameters, all BLR lines, angular grids, both integrators",
     "Tests compare a few configurations with published curves at 15-35 %.",
     [EC, TA, UG], [("evaluate_sed_flux_ss_disk / _blr / _dt", EC)],
     "Independent sum over photon directions built from 3-D geometry of ring, shell and disk.")
prop("C17", "Extended targets reduce to point sources far away and to isotropy at centre",
     "At distances much larger than its size, the broad line region or dust torus gives the external Compton flux and energy density of a point source behind the jet with the same reprocessed luminosity and photon energy; at the centre of the broad line region the photon field is isotropic. Energy densities of every target take their closed-form values at the centre, at one radius and far away.",
     ["inputs"], "any blob, viewing angle, target and photon energy",
     "Tests check one far-away configuration per target on a tolerance of tens of percent.",
     [EC, TA], [("extended-target integrals", EC), ("u of each target", TA)],
     "Differential between targets and closed-form limits.")
prop("C18", "Every radiative process is a pure point-wise function with its scaling laws",
     "For every radiative process, the flux at one frequency does not depend on which other frequencies are asked, on their order, on the unit in which they are given, or on earlier evaluations; it is finite and non-negative, inputs are untouched and luminosity is 4 pi d_L^2 times flux. Fluxes scale with particle normalisation (quadratically for SSC), inverse square of distance, and luminosity and covering factor of the target.",
     ["inputs", "configurations"], "all ten processes, any frequencies in several spectral units and orders, any blob and target",
     "Tests evaluate processes on one frequency array in Hz.",
     [SY, PS_, SS, EC, RP], [("sed_flux, sed_luminosity, sed_peak_*", SY + ", " + SS + ", " + EC)],
     "Metamorphic relations between evaluations.")
prop("C19", "Integral fluxes are the integrals of the SED between the requested limits",
     "The differential energy flux of any process is the SED over frequency and its energy- and photon-flux integrals between two frequencies equal the integral of the corresponding differential flux, whichever spectral unit the limits are given in (log-spaced trapezoidal rule with the requested number of points); a power-law SED gives the analytic result.",
     ["inputs"], "power-law SEDs with any index, all processes, any band, number of points, spectral units",
     "One test integrates one synchrotron SED.",
     [RP], [("diff_energy_flux, energy_flux_integral, flux_integral", RP)],
     "Analytic integrals of power laws via a user-defined process, and model trapezoid for the real ones.")
prop("C20", "Energy densities of external photon fields in both frames",
     "The energy density of each target at any distance along the jet follows from its luminosity and geometry (redshift for the microwave background), and in the frame of the moving region it is that density transformed direction by direction with the bulk Lorentz factor. Scalars and arrays of distances in any length unit give the same values.",
     ["inputs"], "all five targets, distances from 1e-3 to 1e4 of their size, any bulk Lorentz factor, disk radii in both units",
     "Tests check three distances for one blob, and for the shell pin values that ignore the sign of the direction (known finding).",
     [TA], [("u of each target", TA)],
     "Independent angular sums over 3-D directions; one known finding is matched by its exact wrong value.")
prop("C21", "Thermal emission and derived parameters of disk, torus and lines",
     "Gravitational radius, accretion rate, Eddington ratio, temperature, photon energy and subtended angles of the disk, sublimation radius and photon energy of the torus and the energy of every line, with its radius and luminosity relative to H beta, follow their documented formulae and tables, and inconsistent units or unknown lines are refused. Thermal SEDs are black bodies of those temperatures; the normalised ones carry the declared luminosity.",
     ["inputs", "configurations"], "black-hole masses, luminosities, efficiencies, radii in either unit, inclinations, redshifts, temperatures, frequencies, all lines",
     "Tests check one disk and one torus, and assert the torus luminosity only from below (known finding).",
     [TA], [("SSDisk, RingDustTorus, SphericalShellBLR", TA)],
     "Closed forms and Planck rings in plain numpy, bolometric integrals; one known finding matched by its exact wrong value.")
prop("C22", "Pair-production cross section and attenuation factors",
     "The photon-photon pair-production cross section is the Breit-Wheeler closed form above threshold and exactly zero at and below it, for any array of energies. The attenuation factors derived from an optical depth are exp(-tau) for a screen and (1 - exp(-tau))/tau for a homogeneous absorber, including tau = 0, lie in [0, 1] and do not increase with the optical depth.",
     ["inputs"], "products of photon energies from far below to far above threshold, optical depths from zero to very large, any array shape",
     "Tests compare the cross section with a few digitised points and the attenuation only on one curve.",
     [AB], [("sigma", AB + " sigma"), ("absorption, absorption_homogeneous", AB)],
     "Closed forms in plain numpy and shape laws; found NaN instead of no attenuation (fixed).")
prop("C23", "Optical depth of gamma rays along the jet axis",
     "For gamma rays emitted along the jet axis from any height, the optical depth due to an accretion disk, a broad line region or a dust torus is the integral, along the path to infinity, of target photon density times cross section times (1 - cos of the collision angle), summed over the photon directions. It is zero below threshold, scales with the target luminosity, decreases with height, depends on frequency and redshift only via (1+z) nu, and a photon source exactly behind absorbs nothing.",
     ["inputs"], "any target parameters and heights inside and outside the targets, redshifts, frequencies around threshold, grid sizes, units of frequency",
     "Tests compare three configurations with published figures at tens of percent.",
     [AB], [("evaluate_tau_ps_behind_blob, _ss_disk, _blr, _dt; tau", AB)],
     "Independent path integral with 3-D geometry, on the grids the code documents; laws.")
prop("C24", "Optical depth of gamma rays leaving at an angle to the jet axis",
     "For gamma rays leaving at any angle to the jet axis, the optical depth on a point source, a broad line region or a dust torus is the path integral over the true collision angles along the inclined trajectory, finite and non-negative for every angle, and tends to the on-axis value as the angle tends to zero.",
     ["inputs"], "viewing angles from 1e-4 rad to 80 degrees, target parameters, heights, redshifts and frequencies around threshold",
     "Tests use one viewing angle and never the small ones (where the result was NaN, fixed).",
     [AB, UG], [("evaluate_tau_*_mu_s", AB), ("cos_psi, x_re_*_mu_s, phi_mu_re_*", UG)],
     "Independent path integral with 3-D vectors; limit relation to the on-axis depth.")
prop("C25", "EBL absorption follows the tabulated models",
     "For every shipped EBL model, absorption is exp(-tau) of the tabulated optical depth at the table nodes and interpolates it between them in redshift and energy, is within [0, 1], is independent of the unit and order of the frequencies and of evaluating one or many, and is 1 far below the range of energies where the model absorbs. Unknown model names are refused.",
     ["inputs", "configurations"], "all five models, redshifts and energies on and between the nodes, several spectral units",
     "Tests compare one model at a few redshifts at a loose tolerance.",
     [EB], [("EBL tables and interpolation", EB + " EBL.load_absorption_table, interpolate_absorption_table, absorption"), ("ebl_files_dict", EB)],
     "The table files read and interpolated independently.")
prop("C26", "Internal absorption on the synchrotron photons of the emission region",
     "The optical depth of a gamma ray on the synchrotron photons of the region that emits it is the path R times the angle-averaged pair-production opacity of that region's own synchrotron photon density at that frequency, transformed with the Doppler factor and redshift of the region; it is zero below threshold, uses that region and not another, and needs no target.",
     ["inputs"], "any emission region, frequencies around and above threshold, energy grids",
     "Tests run one region and compare with one curve.",
     [AB, SY], [("tau_on_synchrotron", AB)],
     "Independent model of the synchrotron density and of the averaged cross section.")
prop("C27", "Geometry helpers agree with vectors in three dimensions",
     "Distances from ring or shell elements to points on or off the jet axis, cosines of the angles of the photons from ring, shell and disk elements, and the collision angles with gamma rays at any inclination equal those computed from three-dimensional vectors, and cosines never leave [-1, 1].",
     ["inputs"], "any radii, heights, path lengths, angles and inclinations, with or without units, gridded",
     "Tests check one or two triangles.",
     [UG], [("cos_psi, x_re_*, mu_star_shell, phi_mu_re_*", UG)],
     "Vectors in plain numpy.")
prop("C28", "Numerical helpers are exact on power laws and neutral on data layout",
     "Log-log trapezoidal integration is exact for power laws on any grid, index -1 included, sums the power laws through neighbouring points, treats zeros as zero, adds over adjoining ranges, and works along any axis with or without units; array reshaping yields orthogonal broadcastable axes in the order given; the clipped logarithm equals the logarithm on normal values and is finite at zero; the analytic power-law integral equals the closed form.",
     ["inputs"], "power laws of any index and scale, arbitrary positive data with zeros and repeated abscissae, up to three dimensions, any axis",
     "Tests integrate two power laws.",
     [UM], [("trapz_loglog, axes_reshaper, log, power_law_integral", UM)],
     "Closed forms with extended precision around the singular index.")
prop("C29", "Conversions to dimensionless quantities are exact and invertible",
     "Frequencies, energies, fields and radii are converted to the dimensionless or Gaussian units the formulae use consistently for any input unit: photon energy in units of the rest mass of the requested particle, field with the same energy density, gravitational radius of the mass; converting back restores the input.",
     ["inputs"], "any value, several units of each quantity, electron and proton masses, scalars and arrays",
     "Tests convert one or two values.",
     [UC], [("epsilon_equivalency, nu_to_epsilon_prime, B_to_cgs, to_R_g_units", UC)],
     "Constants in plain numbers; round trips.")
prop("C30", "Time evolution with given rates follows the stated update rule",
     "With fixed steps and user-supplied rates, the time evolution moves every Lorentz factor by the summed energy-change rates times the step, multiplies densities by the compression of the interval and by the relative injections and adds the absolute ones (Euler), or averages the rates at both ends of the step (Heun); particles are conserved when nothing is injected, subgroups evolve with their own rates, and the units of the rates or the form in which they are given do not matter. Lorentz factors closer than the requested separation are merged into their logarithmic mean, on the interpolated distribution, and no others. Steps that would invert the order of the Lorentz factors or leave negative densities are refused.",
     ["inputs", "histories", "configurations"], "any distribution, up to two energy rates, relative and absolute injections, up to three groups, steps, methods, units, integer or real initial Lorentz factors",
     "Tests follow synchrotron cooling of one blob and compare with percent-level tolerances.",
     [TE, TU, TT], [("TimeEvolution.evaluate, steps", TE), ("recalculation of densities and groups", TU)],
     "Independent discrete model of the update; found double injection in groups and integer grids (fixed).")
prop("C31", "Time evolution converges to the exact solution, whatever the steps",
     "Cooling, acceleration and escape or injection at constant rates give the density along the characteristics of the kinetic equation, within the error set by the step limits, in automatic and fixed steps, with Euler and Heun, with and without merging of close bins and bounds on the Lorentz factors. Automatic steps respect the requested limits on the change per step and add up to the requested duration.",
     ["inputs", "configurations"], "power-law-like distributions, cooling by up to 20 times, acceleration, escape, injection, limits per step, stepping modes",
     "Tests check one cooling case against an analytic solution.",
     [TE, TU], [("automatic steps and optimised rates", TE), ("merging of bins", TU)],
     "Closed-form characteristics; bounds on the change seen through the callback.")
prop("C32", "Time evolution keeps its books: resumption, groups, callbacks, refusals",
     "Interrupting an evolution and resuming it from its result equals an uninterrupted one; groups add up to the total and are immaterial when they share all rates; the results given to the callback and returned are those of that moment and never change afterwards; emptied and replenished distributions are handled; caller's arrays are left alone; the same evolution evaluated again from the same region gives the same result; groups keep their shares where nodes leave and enter; inconsistent requests are refused with ValueError and leave the region unchanged.",
     ["histories", "inputs"], "sequences of one to eight steps, all stepping modes, one or two groups, interruption points, invalid arguments",
     "Tests never resume, seldom look at intermediate results.",
     [TE, TU, TT], [("callback and results", TE), ("TimeEvaluationResult", TT)],
     "Relations between runs and the discrete model; found swapped injection rates, moving elapsed time and malformed empty distributions (fixed).")
prop("C33", "Energy-loss and acceleration rates for the time evolution",
     "The synchrotron, inverse-Compton and Thomson-limit losses offered for the time evolution are minus the loss rates of the emission region as it is when they are called, also after the region changed during the evolution; Fermi acceleration is the particle energy over the time scale, in any unit of time.",
     ["inputs", "histories"], "any region and distribution, Lorentz factors from 1 to 1e8, a change of field, size or distribution, live evolutions",
     "Tests evaluate the loss rates of one region once.",
     [TE, SS, SY], [("synchrotron_loss, ssc_loss, ssc_thomson_limit_loss, fermi_acceleration", TE)],
     "Loss rates from the independent model before and after a change.")
prop("C34", "Fit models return the SED of their scenario from their parameters",
     "For any parameter values within their limits, the gammapy model equals, and the sherpa model returns, the sum of synchrotron, self-Compton, and for external-Compton scenarios disk, torus and external-Compton emission on the listed targets, for every particle distribution, with or without self-absorption, the region's size following from variability time, Doppler factor and redshift. Order of the targets, unit and layout of the energies do not matter; the inputs are left alone and later parameter changes take effect.",
     ["inputs", "configurations", "histories"], "six distribution shapes, all parameters within limits, four lists of targets, self-absorption, energies from radio to 100 TeV as scalars or arrays in three units, a change of one parameter",
     "Tests fit two sources with fixed starting points, compare wrappers only through fit results, and are not in the stable suite.",
     [FG, FS, FM, FC], [("evaluate", FG), ("calc and _evaluate_sed_*_scenario", FS), ("_scale_spectral_parameters", FS)],
     "Independent model of all non-thermal components on the documented grids; found scalars rejected and nothing returned for another order of targets (fixed).")
prop("C35", "Parameters of the fit models describe the wrapped objects",
     "A fit model exposes, in order, the parameters of its particle distribution (initialised with its values, logarithms where named so), of the region and of its targets, with documented units, limits and free or frozen state; models do not influence one another nor the wrapped objects. Setting the parameters from a region and from targets makes the model return the SED of those very objects, in whatever units they are expressed, and keep it when these change afterwards. Unknown backends are refused.",
     ["inputs", "configurations", "histories"], "six distribution shapes, both backends, all lists of targets, any region and targets within the limits",
     "Tests only print or fit two models.",
     [FC, FG, FS, FM], [("get_spectral_parameters_from_n_e, make_*_parameters_dict", FC), ("set_*_parameters_from_*", FG + ", " + FS)],
     "Expected listing from the documentation; differential against the objects' own SEDs.")
prop("C36", "Flux points are loaded whole, with the errors of their own instrument",
     "Loading a table of flux points yields every point exactly once with its energy, flux and statistical errors, grouped by instrument, with the relative systematic error of its own instrument added in quadrature (none for instruments without one, whatever the others have), identically in both backends; only points within the requested energies, in any unit, take part in the fit. The file and the arguments are left alone.",
     ["inputs"], "tables of one to four instruments in any row and column order, dictionaries that list all, some, none or foreign instruments, energy ranges in three units",
     "Tests load two shipped files whose instruments are all listed.",
     [FD], [("load_sherpa_flux_points", FD), ("load_gammapy_flux_points, add_systematic_errors_gammapy_flux_points", FD)],
     "Values recomputed from the generated table; found failing or stolen systematics (fixed).")
prop("C37", "Static evaluations return the physics of the parameters passed to them",
     "The evaluation functions that need no object (synchrotron SED, opacity and delta approximation, proton synchrotron, self-Compton, external Compton on every target, optical depths, black bodies of torus and disk) depend on nothing but their arguments: for any values, related or not (Doppler factor and redshift and distance and viewing angle chosen freely), in any suitable units, with a distribution object or its class and a list of parameters, on the default grids or grids given by the caller, they equal the formula for those values.",
     ["inputs", "configurations"], "all static evaluations, every parameter drawn independently over its physical range, several units of each, default and own grids, both integrators, objects and classes",
     "Tests reach these functions only through objects, with parameters tied to one another and in cgs units.",
     [SY, PS_, SS, EC, AB, TA], [("evaluate_sed_flux*, evaluate_tau*", SY + ", " + PS_ + ", " + SS + ", " + EC), ("evaluate_tau_*", AB), ("evaluate_*_sed", TA)],
     "Independent cgs model of every formula; opacities against absorption objects holding the same target.")
prop("C38", "Queries leave no trace",
     "Asking anything of the objects of the package (spectra, luminosities, opacities, energy densities, totals, loss rates, constraints, plots, texts), in any order, any number of times, sharing objects and argument arrays, gives what freshly built objects would give; the arguments and every public attribute are afterwards what they were, also when the caller overwrites the arrays returned.",
     ["histories", "inputs"], "sequences of 3 to 12 queries out of about 80, on one emission region, five targets, their processes and absorptions, with analytic or interpolated distributions",
     "Tests make one query on fresh objects and never look at what it left behind.",
     [BL, SP, SY, SS, EC, TA, AB, CO, UM, UC], [("arrays handed out or stored", BL + ", " + SP), ("in-place arithmetic", SY + ", " + AB)],
     "Model-based sequences: every answer compared with that of fresh objects, attributes compared recursively before and after.",
     observe=["values returned", "arguments after the call", "public attributes of all objects"])
prop("C39", "Values do not depend on how the input numbers are stored",
     "Every query returns the same values for the same numbers, in any order and with repetitions, whether they come as a plain array, integers, big-endian or single-precision numbers, strided or reversed views, read-only arrays, columns of structured tables, or one at a time as scalars, in arrays of any length; physical parameters (lengths, fields, angles, energies, redshifts) may be whole numbers of Python or numpy (64 bit) or numpy floats alike; the input is left as it was.",
     ["inputs"], "about 80 queries, eight layouts, any physical parameters",
     "Tests pass freshly computed contiguous arrays of doubles only.",
     [SP, SY, PS_, SS, EC, TA, AB, EB, UM, UC], [("boundary correction in place", SP + " _correct_array_boundary_values"), ("reshaping of the axes", UM + " axes_reshaper"), ("attenuation", SY)],
     "Differential between layouts of the same numbers; found scalars and arrays on several axes rejected (fixed).")
prop("C40", "Plots and comparison helpers show and judge exactly the numbers given",
     "Plotting an SED or a particle spectrum adds one curve with exactly the data given (times the requested power of the Lorentz factor) on logarithmic, labelled axes, those given or the current ones, and returns them; comparison helpers read back sample files with their units, judge the relative deviation from the reference over the given range only, draw reference, comparison and their relative deviation, write the figure where asked and close it, and empty the directory asked for and nothing beside it.",
     ["inputs"], "any data, powers, axes, options; sample files, tolerances and ranges; nested directories inside a scratch folder",
     "Tests never look at what is drawn.",
     ["agnpy/utils/plot.py", "agnpy/utils/validation_utils.py", SP], [("plot_sed", "agnpy/utils/plot.py"), ("ParticleDistribution.plot", SP), ("check_deviation, extract_columns_sample_file, clean_and_make_dir, make_comparison_plot", "agnpy/utils/validation_utils.py")],
     "Data of the drawn curves against the numbers given; removals recorded and confined to a scratch directory.")
prop("C41", "Fits compare model and data point by point and recover known parameters",
     "In both fitting backends the statistic of a wrapped model on a loaded file of flux points is the sum, over the points between the energies asked for, of the squared difference between flux and predicted flux in units of the mean error combined in quadrature with the systematic error of the instrument. It depends on the current parameters only. Fitting noiseless points of the model itself from other starting values gives its parameters back.",
     ["inputs", "configurations"], "any model parameters, targets, two to five points from radio to TeV, errors, systematics and energy ranges; up to three free parameters",
     "Fit tests exist for one source and check that the fit ends.",
     ["agnpy/fit/core.py", "agnpy/fit/models.py", "agnpy/fit/data.py"], [("evaluation of wrapped models", "agnpy/fit/core.py"), ("load_sherpa_flux_points / load_gammapy_flux_points", "agnpy/fit/data.py")],
     "Statistic recomputed from the file and an independent assembly of the model out of the physics classes; recovery with sherpa LevMar and gammapy minuit.")
prop("C42", "Quantities of the wrong physical dimension are refused",
     "A frequency, distance, size, field, density, energy, luminosity, mass or temperature given to a constructor, an evaluation or a public attribute in the units of another dimension, or as a bare number, never turns into a spectrum, opacity or energy density: an exception is raised, at once or when the value is used, and all objects involved go on answering as before. Given in the right dimension, it does.",
     ["inputs", "histories"], "about 100 arguments, 13 units or none, any magnitude; sequences of up to 10 refusals followed by queries",
     "Tests pass the documented units only.",
     [BL, SP, SY, PS_, SS, EC, TA, AB, EB, UC], [("conversion of units", UC), ("units of results", SY + ", " + SS + ", " + EC + ", " + AB)],
     "Exception or not, and comparison with fresh objects afterwards. Where the package accepts several dimensions on purpose (frequency as photon energy in rest mass units, tesla for gauss, energy for EBL frequencies), these are not offered.")
prop("C43", "Copies, pickles and threads answer as the original does",
     "A deep copy or pickle of emission regions, processes, targets and absorptions answers every query as the original, also when the original was asked before, and neither notices what is later changed in the other. Several threads that ask the same objects with the same argument arrays at the same time, or each of them objects of its own, all get the answers of a single one.",
     ["histories", "schedules", "inputs"], "deep copies and pickles of protocols 2 and highest of a whole set of objects, about 80 queries; two to six threads of 3 to 8 queries each on shared objects, two to four on objects of their own, switching intervals of 1 to 100 microseconds",
     "Tests neither copy objects nor use threads.",
     [BL, SP, SY, PS_, SS, EC, TA, AB, EB, CO], [("references between objects", BL + ", " + SY + ", " + SS + ", " + EC + ", " + AB), ("state touched by evaluations", SP + ", " + AB)],
     "Differential against fresh objects; schedules sampled by shortening the interpreter's switching interval, not enumerated.")
prop("C44", "Printed summaries state the current parameters",
     "Printing an emission region, a particle distribution, a disk, a BLR or a torus gives a summary that names the species and each parameter together with its current value, in its unit and within the digits shown, whatever units or setters it was given through; an emission region lists its populations, and no others.",
     ["inputs", "histories"], "any parameters of six distributions, both species, blobs with and without protons, disks, lines and tori, values replaced after construction in other units",
     "Tests never print anything.",
     [SP, BL, TA], [("__str__ of the distributions", SP), ("Blob.__str__", BL), ("__str__ of SSDisk, SphericalShellBLR, RingDustTorus", TA)],
     "Names, numbers and units are parsed out of the text and compared with the generated values within half a unit of the last digit shown; the layout is not judged.")
prop("C45", "The units in which the parameters are given do not matter",
     "Each size, radius, distance, field, density, luminosity, mass, temperature and frequency may be given in any unit of its dimension, each argument in a unit of its own, at construction or put in place afterwards: every query gives the same physical answer as with all of them in cgs units, apart from rounding.",
     ["inputs", "configurations"], "fifteen arguments, each in one of five to eight units (T, mG, pc, AU, L_sun, km-3, GHz, d-1...), about 90 queries, five targets, interpolated and analytic distributions",
     "Tests give parameters in the units of the documentation.",
     [BL, SP, SY, PS_, SS, EC, TA, AB, CO, UC], [("conversions before arithmetic on plain numbers", UC + ", " + TA + ", " + EC + ", " + AB)],
     "Differential against the same objects in cgs units; where the two differ, the difference is compared with what rounding-size changes of the inputs do.")
