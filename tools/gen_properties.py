"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

RT="rayflare/ray_tracing/rt.py"; MM="rayflare/matrix_formalism/multiply_matrices.py"
PS="rayflare/matrix_formalism/process_structure.py"; ID="rayflare/matrix_formalism/ideal_cases.py"
TM="rayflare/transfer_matrix_method/tmm.py"; LT="rayflare/transfer_matrix_method/lookup_table.py"
RC="rayflare/rigorous_coupled_wave_analysis/rcwa.py"; AN="rayflare/angles.py"; UT="rayflare/utilities.py"
TX="rayflare/textures/standard_rt_textures.py"; DT="rayflare/textures/define_textures.py"
OP="rayflare/options.py"; ST="rayflare/structure.py"; DI="rayflare/analytic/diffraction.py"

prop("C01","Ray-traced light is fully accounted for",
 "For every ray-traced structure (bulk layers, textured or planar surfaces, Fresnel or multilayer interfaces), wavelength, polarisation and incidence direction, the reported reflected, transmitted, bulk-absorbed and interface-absorbed fractions all lie between 0 and 1 and together add up to 1, except for at most the intensity cut-off that may be dropped from each ray when it is abandoned. The absorption reported per layer of an interface adds up to the total reported for that interface, and the initial reflected fraction never exceeds the total reflected fraction.",
 ["inputs","configurations"],"all structures, materials, wavelengths, polarisations, incidence angles, cut-offs and random ray outcomes",
 "tests check a handful of textures and sum only R+A+T on one or two structures; the ledger must close for every mix of interface types, layer counts and random ray histories",
 [RT],[("per-ray event loop","rt.py single_ray_stack"),("aggregation over rays","rt.py rt_structure.calculate, parallel_inner")],
 observe="dict returned by the ray-tracing structure's calculate")
prop("C02","Ray energy is booked where each ray actually ended",
 "A ray starts in the requested medium travelling in the requested direction and meets the surfaces of the stack in order; when it leaves through the first medium its energy is reported as reflected, through the last medium as transmitted, and when it is absorbed at an interface it is reported under exactly that interface and that layer of it. The reported numbers of passes and interactions and the outgoing polar and azimuthal directions belong to the route the ray took.",
 ["histories","configurations"],"all sequences of reflect/transmit/absorb outcomes at the interfaces, all numbers of interfaces and layers, all initial media and directions",
 "tests only see statistical averages of a few structures, in which a mis-booked route is invisible",
 [RT],[("per-ray event loop","rt.py single_ray_stack, single_interface_check"),("booking per interface and layer","rt.py rt_structure.calculate")],
 [("ray state","medium, direction, next surface, remaining intensity")], "R, T, A_per_layer, A_per_interface, A_interfaces, n_passes, n_interactions, thetas, phis, R0")
prop("C03","Bulk absorption in ray tracing follows Beer-Lambert along the path",
 "Each time a ray crosses a bulk layer of thickness d at polar angle t it loses the fraction 1-exp(-alpha*d/|cos t|) of its remaining intensity to that layer and no other. The reported depth profile is the sum of the corresponding exponentials measured from the side at which the ray entered that layer, so it integrates to the absorption reported for each layer.",
 ["inputs","histories"],"all absorption coefficients, thicknesses, incidence angles, crossing directions, numbers of layers and initial media",
 "tests compare integrated profiles of one structure with tolerance; orientation and layer placement of upward crossings are not observed",
 [RT],[("bulk traversal","rt.py traverse"),("profile accumulation","rt.py single_ray_stack / rt_structure.calculate")],observe="A_per_layer and profile")
prop("C04","Redistribution matrices conserve power per incidence channel",
 "For every interface method, side of incidence, wavelength and incidence channel that is populated, the reflected and transmitted power over all outgoing channels plus the absorption over all layers equals 1 within the method's own truncation (binning, ray cut-off or order truncation), with no negative or undefined entries; channels that were deliberately not simulated contain exactly zero. The stored depth-profile matrix integrates to the stored layer absorption for every channel.",
 ["configurations","inputs"],"all interface methods, sides, layer stacks, polarisations, angle discretisations, symmetry angles and wavelengths",
 "tests only check a few normal-incidence columns of a few interfaces",
 [TM,RT,ID,RC,LT],[("matrix builders","TMM(), RT(), RCWA(), mirror_matrix, lambertian_matrix")],observe="matrices saved by process_structure")
prop("C05","The matrix method accounts for every bounce of the light",
 "Given the stored redistribution matrices, the matrix method's reflection, transmission, bulk absorption and interface absorption are exactly what repeatedly sending the light front-surface, bulk, back-surface, bulk, front-surface gives, with bulk transmission exp(-alpha*d/|cos t|) per channel, continuing until the power left inside is at or below the cut-off at every wavelength. The per-pass results add up to the totals, and the totals add up to 1 minus the power left inside, whether or not depth profiles are requested and even when no light enters the bulk.",
 ["inputs","histories"],"all matrices, angle discretisations, incidence angles, bulk thicknesses, absorption spectra, cut-offs and profile requests",
 "tests compare to other methods within a few percent on a few structures",
 [MM],[("iteration","matrix_multiplication"),("bulk transmission","make_D"),("channel hand-over","out_to_in_matrix"),("launch","make_v0")],
 [("channel power vector","power per angular channel at each wavelength"),("ledger","r, t, a, A per pass")],"values returned by calculate_RAT")
prop("C06","Angular channels partition all directions",
 "For every polar bin count, polar spacing, azimuthal symmetry and azimuthal fineness the channels cover every direction exactly once, mirror-symmetrically above and below the surface plane, with each channel's listed centre inside it. Light launched at, leaving or re-entering at any direction is assigned to the channel that contains that direction; handing light from one surface to the next maps every outgoing channel to exactly one incoming channel at the mirrored polar bin and opposite azimuth, and doing that twice restores the original polar bin.",
 ["configurations","inputs"],"all bin counts, spacings, symmetry angles, azimuthal fineness and directions",
 "tests use one or two discretisations and normal incidence",
 [AN,MM],[("channel table","make_angle_vector"),("folding","fold_phi"),("channel lookup","overall_bin, make_v0, out_to_in_matrix")])
prop("C07","Equivalent azimuths give identical results",
 "Azimuthal incidence angles that differ by a whole number of symmetry periods (including angles equal to the period, negative or larger than a full turn) give the same matrix-method results, and results for light spread over all azimuths equal the average over the azimuthal channels. Azimuth folding always returns the equivalent angle inside the symmetry element.",
 ["inputs"],"all azimuths, symmetry angles and discretisations",
 "tests use azimuth 0 or one value", [AN,MM],[("folding","fold_phi"),("launch","matrix_multiplication/make_v0")])
prop("C08","Stored matrices are reused, replaced and kept apart correctly",
 "With overwriting off, a stored result for the same location, project, surface name and side is reused unchanged; with overwriting on, or when a requested part (such as the depth-profile data) is missing, it is recomputed for the current inputs and the stored files replaced. Different locations, project names, surface names and sides never affect one another, and results read back are the values that were computed.",
 ["histories","configurations"],"all sequences of processing and calculation requests over locations, projects, surfaces, methods, parameters, profile requests and overwrite flags",
 "tests run a single request, mostly with overwriting on",
 [UT,PS,LT,TM,RT,ID,MM],[("store lookup","get_matrices_or_paths, get_savepath"),("lookup-table store","make_TMM_lookuptable")],
 [("store","files per (location, project, surface, side)")])
prop("C09","An interrupted computation never yields silently wrong results",
 "If processing is killed at any point of its file writing and the same request is then repeated, the repeated run either produces exactly the results of an uninterrupted run or fails with an error; it never returns different numbers. Files belonging to other surfaces, projects or locations are unaffected by the interruption.",
 ["crash_points","fault_sequences"],"all kill points in the sequence of file writes, repeated kills, both overwrite settings",
 "tests never interrupt anything",[UT,PS,LT,TM,RT,ID],[("write order of stored files","save_npz / to_netcdf calls"),("reuse condition","get_matrices_or_paths")],
 [("store","files per (location, project, surface, side), absent/torn/complete")])
prop("C10","Lookup tables agree with direct multilayer calculation on both sides",
 "For every multilayer interface, each entry of its lookup table (reflection, transmission, absorption per layer and profile coefficients, for either side of incidence and every wavelength, angle and polarisation) equals what a direct multilayer calculation of the stack seen from that side gives, with layers numbered as seen from the front for both sides. The unpolarised entries are the mean of the two polarisations, each entry closes to R+T+sum A=1, and front and rear transmission agree where the media are lossless.",
 ["inputs","configurations"],"all layer stacks, coherence settings, profile-layer subsets, wavelengths, angles, polarisations and sides",
 "tests never look at the table itself",[LT,TM],[("table construction","make_TMM_lookuptable")])
prop("C11","Multilayer calculation conserves energy and averages polarisation",
 "For every layer stack, coherence assignment, wavelength, angle and polarisation the multilayer calculation returns R, T, A and per-layer absorption that are real, defined and within [0,1], with R+T+A=1 and the per-layer absorption adding up to A. Unpolarised results are the mean of the s- and p-polarised ones, and both polarisations coincide at normal incidence.",
 ["inputs","configurations"],"all stacks, coherence lists, wavelengths, angles, polarisations, back-reflection settings",
 "tests sample a few stacks and check mostly totals",[TM],[("multilayer calculation","tmm_structure.calculate")])
prop("C12","Multilayer results depend only on the physical stack",
 "Splitting a layer in two of the same material, inserting a zero-thickness layer, marking every layer coherent instead of declaring the stack coherent, or changing thicknesses and changing them back leaves R, T and the absorption of the unchanged parts the same; a single interface gives the Fresnel values and a single film the Airy values. Light sent through a lossless-ended stack from the opposite side is transmitted equally.",
 ["inputs","histories"],"all stacks, split points, coherence settings, angles, polarisations and sequences of thickness changes and calculations",
 "tests fix one stack each",[TM],[("multilayer calculation","tmm_structure.calculate, set_widths")])
prop("C13","Depth profiles integrate to the reported absorption",
 "For every coherent, incoherent or mixed multilayer stack, a depth-resolved absorption profile integrates (to the discretisation accuracy) to the absorption reported for each layer, is never negative, and equals what its reported profile coefficients describe. Requesting only some layers gives exactly the corresponding part of the full profile.",
 ["inputs","configurations"],"all stacks, coherence settings, layer subsets, depth spacings, angles and polarisations",
 "tests check totals for a few full-profile requests",[TM],[("profiles","tmm_structure.calculate profile branch")])
prop("C14","Generation functions put absorption at the right depth",
 "The depth-position/absorption function built from any optical result reports, at every position of the structure, the absorption density of the layer that is physically there, in consistent units, and zero in interface layers or bulk regions for which no profile was requested. It is the same whichever combination of interfaces and layers profiles were requested for, apart from those zeros, and integrates to the reported absorption.",
 ["configurations"],"all structure types, layer counts, subsets of profiled layers and interfaces, bulk-profile settings and depth spacings",
 "tests use one full-profile configuration per structure type",[UT],[("position mapping","make_absorption_function")])
prop("C15","A textured surface keeps its shape through shift, refresh and copy",
 "After any sequence of shifting, randomised refreshing and copying, a surface's triangles, unit normals, bounding box and current points are mutually consistent, lateral coordinates of its points never change except by explicit scaling, every refreshed height lies within the prescribed height distribution relative to the (shifted) base, and a surface without a height distribution is unchanged by refresh. Copies are independent of the original.",
 ["histories"],"all sequences of shift/refresh/copy operations on all surface kinds",
 "tests never interleave these operations",[RT,DT],[("surface object","RTSurface")],
 [("surface","points, triangles, normals, extents, base points, shift")])
prop("C16","Standard textures describe the surface their parameters say",
 "For every size, elevation angle and orientation the standard textures cover their unit cell exactly once in projection, have the requested elevation angle and period, and consist of triangles whose normals all point to the same side; the front and back versions of one texture are mirror images of the same surface as seen from the two sides.",
 ["inputs","configurations"],"all texture kinds and parameters",
 "tests check a few example textures",[TX,DT],[("generators","regular_pyramids, V_grooves, planar_surface, rough_pyramids, hyperhemisphere, hemisphere_surface, heights_texture, xyz_texture")])
prop("C17","Wave-optical solver results do not depend on call history",
 "After any sequence of calculations, profile calculations, thickness, size or geometry edits and option changes on one wave-optical structure object, a calculation returns exactly what a freshly created object with the same geometry and options returns. A profile belongs to the currently requested wavelengths, angle and polarisation, never to an earlier request.",
 ["histories"],"all sequences of operations on the object with changing options",
 "tests create a fresh object for each calculation",[RC],[("session state","rcwa_structure (results, rat_output_A, widths, layer_stack)")],
 [("session","widths, geometry, wavelengths, cached result")])
prop("C18","Wave-optical results conserve energy and reduce to the planar limit",
 "Wave-optical calculations of lossless and absorbing structures return R, T and per-layer absorption within [0,1] that add up to 1 for every wavelength, angle, azimuth and polarisation, and the power per diffraction order adds up to the total. Laterally uniform structures agree with the planar multilayer calculation, and unpolarised results are the mean of the two linear polarisations.",
 ["inputs","configurations"],"all structures, wavelengths, angles, polarisations and layer counts",
 "no existing test runs the available solver beyond plotting",[RC],[("solver wrapper","rcwa_structure.calculate, RCWA_wl")])
prop("C19","Options mean the same however they are supplied",
 "Passing options as a dictionary or as an options object, and giving wavelengths under either accepted name (the plural one taking precedence), leads to identical results in every calculation. Unknown interface methods, polarisations or incomplete coherence information are rejected with an error instead of producing numbers, and default options are never shared between instances.",
 ["configurations"],"all calculation entry points and option combinations",
 "two error cases are tested",[OP,UT,ST,PS,MM,TM,RT,RC],[("options handling","default_options, get_wavelength, State conversion"),("validation","Interface, build_coh_list, process_pol")])
prop("C20","Each wavelength is computed independently of the others",
 "Results for a wavelength are the same whether it is computed alone, with others, in another order or repeatedly, and whether wavelengths are processed in parallel or one after the other (statistically for randomised ray tracing, exactly otherwise, apart from light weaker than the intensity threshold at which repeated passes end). Outputs are always listed in the order of the requested wavelengths.",
 ["schedules","inputs"],"all subsets and orders of wavelengths and all worker counts",
 "tests fix one wavelength grid and one parallel setting",[RT,RC,TM,MM],[("per-wavelength loops and workers","Parallel(...) calls, RT_wl, parallel_inner, RCWA_wl")])
prop("C21","Diffraction orders are grouped completely and consistently",
 "Grouping diffraction orders by equal outgoing direction assigns every supplied order to exactly one group, groups exactly those orders with equal in-plane wavevector magnitude, and keeps the order data aligned; group results are the sums over their members.",
 ["inputs"],"all lattices and order sets","one example is tested at most",[DI],[("grouping","group_diffraction_orders")])
prop("C22","Angle summaries preserve power",
 "Summarising a redistribution matrix over azimuth gives, for each incident and outgoing polar angle, the power into that outgoing polar bin averaged over the incident azimuths, for front and rear incidence alike, so that totals per incident polar angle are the averages of the column totals. The absorption summary gives, for each layer and incident polar angle, the absorption summed over the incident azimuths, as documented, so that totals per layer are preserved.",
 ["inputs","configurations"],"all matrices and discretisations","tests never call these with more than one azimuth per bin",[AN],[("summaries","theta_summary, theta_summary_A")])
prop("C23","Planar surfaces reflect and refract by Snell and Fresnel",
 "Ray tracing of planar surfaces reproduces the Fresnel reflectance for every polarisation, angle and refractive index pair, sends reflected light at the mirrored direction and transmitted light at Snell's angle with the azimuth of the incident plane, and reflects totally beyond the critical angle. For a textured surface each outgoing direction obeys the same laws at the facet that was hit.",
 ["inputs"],"all index pairs, angles, azimuths, polarisations","tests compare a handful of averages",[RT],[("single interface","single_interface_check, calc_R, decide_RT_Fresnel")])
prop("C24","Calculations leave their inputs untouched",
 "No calculation changes the structures, layer lists, textures, materials, geometry descriptions, saved matrices it only reads, or the values of options it was given (apart from resolving the wavelength alias), so repeating a deterministic calculation on the same objects gives the same result.",
 ["histories"],"all calculation entry points and repeated calls","tests build fresh objects for every call",[RT,RC,TM,LT,PS,MM,UT],[("argument handling","all public entry points")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
