prop('C11', 'Projected time derivative is the best tangent vector to -iH|psi>',
     'The time derivative computed for a finite state is the orthogonal projection of -iH|psi> on the tangent space of the state (orthogonal to the state itself), for a sum of neighbour terms or one full matrix, in any gauge of its tensors, and for both copies of a thermofield double. Hence the norm and the energy do not change to first order, and where the manifold is the whole space the exact Schrodinger equation results; the state is left unchanged.',
     'every Hermitian neighbour Hamiltonian and full Hamiltonian; listed states with truncated and full bonds, canonical on either side, orthogonal only, mixed, with replaced tensors, or one integrator stage away from canonical; every amplitude of two- and three-site product states',
     'tests compare against exact evolution for full bond dimension and real symmetric Hamiltonians; the truncated projection, complex Hamiltonians and the copies of a thermofield double need every entry free.',
     [F], [('finite', F + ': fMPS.dA_dt, left_null_projector, left_transfer'), ('thermofield', F + ': fTFD.dA_dt')])
prop('C12', 'Tangent-space coordinates and linearised flow match the dense derivatives',
     'Coordinates of tangent vectors are orthonormal, cover the tangent space and convert back and forth without loss, in any gauge of the state, and null-space projectors annihilate exactly the site tensor. For a canonical state the matrix elements of H between tangent vectors, the second derivatives, the connection and the Jacobian of the projected flow equal those computed from the dense derivatives of the state, whether or not results are cached.',
     'every Hermitian neighbour Hamiltonian, every tangent vector, every pair of sites; listed fixed states of two to five sites (twelve for the cache)',
     'tests compare code paths with each other for real symmetric Hamiltonians, where transposed legs cancel.',
     [F], [('coordinates', F + ': tangent_space_dims, import_tangent_vector, extract_tangent_vector, null projectors'), ('second order', F + ': F1, F2, christoffel, jac, ddA_dt')], over=('inputs', 'histories', 'configurations'),
     state=[('caches', 'partial contractions kept between calls of one Jacobian')])
prop('C13', 'Integration steps, recorded histories and exact evolution are what they say',
     'An Euler or fourth-order Runge-Kutta step moves a finite or uniform state by the classical formula for any velocity field, and an integration (by these steps or by the library solver) records one state per requested time, leaves the initial state alone and can be read back state by state even if the bond dimension changes between records. Exact evolution applies exp(-iHdt) at each step, so it conserves norm and energy; values, overlaps, energies and entropies along a trajectory are those of the recorded states.',
     'every velocity (arbitrary tensors at each stage), every step size, every Hermitian H on two or three qubits, every one-site operator',
     'tests plot or compare trajectories to a loose tolerance for one Hamiltonian, where a lower-order formula, a shifted record or a lost state is not seen.',
     ['xmps/fTDVP.py', 'xmps/iTDVP.py'], [('steps', 'xmps/fTDVP.py, xmps/iTDVP.py: euler, rk4'), ('runs', 'eulerint, rk4int, edint, expand, clear'), ('readout', 'xmps/fTDVP.py: mps_list, mps_evs, mps_energies, ed_evs, loschmidt, schmidts, entropies, ed_OTOC')], over=('inputs', 'histories', 'configurations'),
     state=[('history', 'one serialised state per time with its own bond dimension')])

prop('C15', 'Canonical forms of uniform states describe the same normalised state',
     'Left, right, mixed and Vidal canonical forms of a uniform state satisfy their isometry and Schmidt-value equations and describe the same state as the original tensor, normalised. The dominant eigenmatrices are Hermitian, obey their eigen-equations and are normalised against each other whatever phases the eigensolver returns; one-site values, transfer maps, null-space projectors and item-wise arithmetic are those of the tensors.',
     'every one-tensor cell with bond dimension two and physical dimension two (three in the deeper tier), every operator entry, listed eigenvector phases',
     'tests canonicalise a few random cells and check one gauge each; a form that is isometric but describes another state, a conjugated environment or a lost phase passes.',
     [I], [('canonical forms', I + ': canonicalise, left_canonicalise, right_canonicalise, ivMPS'), ('environments', I + ': TransferMatrix.eigs, Map'), ('values', I + ': E, Es'), ('projectors', I + ': left_null_projector, right_null_projector')])
prop('C20', 'TDVP velocity of a uniform state is its projected Schrodinger equation',
     'The energy density of a uniform state is the value of the two-site term in that state. Its left and right Hamiltonian environments solve the geometric-series equations with the energy removed, and the velocity derived from them is the orthogonal projection of -iH acting on the state off the state itself, so that it keeps the gauge and, with it, norm and energy to first order.',
     'every left (right) canonical cell with bond dimension two, every positive environment of it, every Hermitian two-site term',
     'tests follow energy conservation of one real trajectory; transposed environments vanish for real symmetric tensors.',
     [I], [('energy', I + ': energy'), ('environments', I + ': Lh, Rh'), ('velocity', I + ': dA_dt')])
prop('C21', 'Tensor tools complete, embed, group and split as documented',
     'The shared tensor tools do what their names promise: the extension of an isometry to a larger unitary is unitary and keeps the block it was given, an embedding of a state in a unitary has that state as its first column, a null space is orthonormal and annihilated, and the direct sum is block diagonal. Grouping legs keeps every entry and is undone by ungrouping, four-leg forms of two-site operators and truncated splittings keep the matrix elements they should, and padding, zero removal, spectra and purities agree with their dense definitions.',
     'every complex entry of matrices and tensors up to 4x4 or four legs of dimension two, every truncation dimension, every bipartition',
     'tests use a few random square matrices; rectangular blocks, wide isometries and complex entries take other branches.',
     ['xmps/tensor.py', 'xmps/peps_tools.py'], [('unitary completions', 'xmps/tensor.py: unitary_extension, embed, haar helpers'), ('splits', 'xmps/tensor.py: direct_sum, eye_like, split_up, get_null_space; xmps/peps_tools.py: tensor grouping, purity')])
prop('C22', 'Doubled states and the Vidal form describe the state they were made from',
     'A thermofield double built from a state is two copies of that state, exchanging its copies only swaps them, a random double is unchanged by the exchange, and its local overlap with a product state is the weight of that product on the chosen sites, whatever gauge the double is in. An entangled comparison state is refused, and the Vidal form of a finite state multiplies back to the same canonical tensors.',
     'every amplitude on one site of states of two to four sites and listed states elsewhere, every set of sites, histories of one operation',
     'tests compare norms for one random state; a conjugated copy or a wrong subset of sites keeps the norm.',
     ['xmps/fMPS.py'], [('doubles', 'xmps/fMPS.py: fTFD.from_fMPS, symmetry, local overlap'), ('Vidal form', 'xmps/fMPS.py: vfMPS.from_fMPS, to_fMPS')], over=('inputs', 'histories', 'configurations'),
     state=[('canonical form', 'orthogonality centre of the state the double is made from')])
PP = 'xmps/fPEPS.py'
prop('C23', 'Two-dimensional states agree with their dense amplitudes',
     'Amplitudes of a projected entangled pair state in reading or snake order, overlaps, norms, normalisation, one-site and block expectation values (operator in reading order), marginals of product states, environments of a site, merged rows and columns, and sums are those of the dense state, for any grid shape and bond dimensions. A finite chain embedded along the snake keeps its amplitudes, operator chains multiply like their matrices, and none of this changes the states it was computed from.',
     'every complex entry of the listed tensors on grids up to 3x3, every operator entry',
     'tests use square grids with equal bonds and real or random tensors; exchanged width and height, swapped legs or a wrong reading order need other shapes and generic entries.',
     [PP], [('contraction', PP + ': recombine, overlap, norm, row_contract, col_contract, environment'), ('values', PP + ': apply, E, E_k, rho, rho_proj'), ('sums and embeddings', PP + ': add, from_mps'), ('operator chains', PP + ': fMPO, row_mpos, col_mpos')])
prop('C24', 'Reflections, truncations and isometric form of two-dimensional states',
     'Transposing or reflecting a projected entangled pair state permutes its amplitudes and orthogonality centre accordingly and is undone by repeating it; truncating bonds slices exactly the bonds named on both sides. The isometric form keeps neighbouring bonds equal and turns every tensor except the centre into an isometry towards the centre, so that expectation values at the centre need the centre tensor alone; copies are independent and compare equal exactly when every tensor and label agrees.',
     'every entry of single tensors and of the listed tensors on grids up to 4x3, every centre listed, every operator entry',
     'tests check square grids and compare one value; rectangular grids, other centres and per-tensor isometry are not sampled.',
     [PP], [('reflections', PP + ': T, R, U'), ('truncation', PP + ': truncate_*, fix_neighbours'), ('isometric form', PP + ': tensor grouping, tensor_isometrise_*, isometrise, iso_E, iso_Es'), ('bookkeeping', PP + ': copy, __eq__, create_structure')])
prop('C25', 'Environments, transfers, gauge matching and comparison of finite states',
     'An operator carried left or right through a finite state is the plain contraction with the tensors and their conjugates at every bond on the way, and environments of a state in any gauge are those of its tensors. Matching the gauge of a state to another changes neither the state (up to a phase) nor the other one, makes every site overlap positive, and recovers the tensors of a state that differs by gauge only; tangent states are orthogonal to the state and as long as their coordinates. States compare equal exactly when every tensor agrees.',
     'every transferred operator, every entry of the listed tensors, stretches of one to six sites, every site',
     'tests use one or two sites or real symmetric operators, where exchanged legs, a stale value or a lost phase cancel.',
     [F], [('transfers', F + ': left_transfer, right_transfer, links'), ('environments', F + ': get_envs'), ('gauge', F + ': match_gauge_to, tangent_state'), ('comparison', F + ': __eq__, __getitem__, __call__')])
prop('C26', 'Uniform states: fixed points, overlaps, mixed gauge and the Vidal form',
     'The fixed points of the map between two uniform states are eigenvectors of largest modulus with the eigenvalue returned, the overlap per site is the squared modulus of that eigenvalue for the canonical states, and echoes compare every recorded state with the first. Each half step of the mixed gauge carries the given gauge through the tensor into an isometry, unique factorisations are factorisations, and the Vidal form describes the same state with normalised diagonal weights and left and right isometries. The ground-state search steps against the velocity and returns the canonical form of its last step.',
     'every entry of one-tensor cells with bond dimension two (maps also three), every phase listed that an eigensolver may return, every start gauge',
     'tests compare one random or real state; the phase of an eigenvector, its conjugate or a non-normalised start rarely shows there.',
     [I, 'xmps/tensor.py', 'xmps/iOptimize.py', 'xmps/iTDVP.py'], [('fixed points', I + ': Map, overlap'), ('gauges', I + ': mixed, ivMPS; xmps/tensor.py: uqr, urq, r_eigenmatrix, l_eigenmatrix'), ('search', 'xmps/iOptimize.py: find_ground_state'), ('echoes', 'xmps/iTDVP.py: Trajectory.loschmidts')])
prop('C27', 'Example states, random states and what states report about themselves',
     'Each named example (Bell pairs, products of z or x states, uniform z states, the AKLT and cat states) is the state its name says: no operator or comparison state can tell it from that state. A random state has the requested length, dimensions and bonds, one independent draw per entry and no memory of an earlier gauge, and uniform product states have the norm, values and overlaps of their one-site vector. Entanglement entropies and the reported isometric forms, norm, weights and rank are those of the dense state, for whatever history led to it.',
     'every operator and comparison state; every uniform product state; every tensor an isometric form was made from; listed fixed states and histories for entropies',
     'tests look at one spin component of each example and never at entropies of complex states; a wrong coefficient or sign that keeps the spin component passes.',
     ['xmps/mps_examples.py', F, 'xmps/tests.py', I], [('examples', 'xmps/mps_examples.py'), ('random states', F + ': random, create_structure; ' + I + ': random'), ('reports', F + ': entanglement_entropy, update_properties; xmps/tests.py'), ('product cells', I + ': arnoldi, TransferMatrix.eigs, canonicalise')], over=('inputs', 'histories', 'configurations'),
     state=[('gauge record', 'orthogonality centre and canonical flags')])
prop('C28', 'Lyapunov spectra measure the growth of tangent-space volumes',
     'The Lyapunov spectrum of a trajectory is the growth, per unit time, of the lengths, areas and volumes spanned by tangent vectors: every step multiplies the basis by the exponential of the Jacobian at the current state, with the tangent frame carried along, and keeps the growth factors and their running averages, also averaged with the reversed flow. In between the state moves by one fourth-order step and is recorded, a second run continues the first, and a run of one vector follows its length. Exponents vanish where nothing interacts or nothing is projected away, and a saved run reads back as it was.',
     'every starting basis of up to four tangent vectors, for fixed generic states and Hamiltonians',
     'tests only ask that exponents vanish for local or exact evolution, and none of them runs reliably; a lost frame, a wrong average or a run that does not continue changes no such value.',
     ['xmps/fTDVP.py', F], [('spectra', 'xmps/fTDVP.py: Trajectory.lyapunov, save'), ('frames', F + ': jac, tangent_space_basis, match_gauge_to')], over=('inputs', 'histories'),
     state=[('run', 'basis, growth factors and tangent frame kept between runs')])
