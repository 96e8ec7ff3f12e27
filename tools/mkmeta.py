"""writes properties.jsonl and MANIFEST.json (run by hand after editing; checks do not use it)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, text, why, files, mech, over=('inputs', 'configurations'), note='', na=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': list(over), 'text': text}, why_tests_cant=why, anchors=a, note=note, na=na))

F, I = 'xmps/fMPS.py', 'xmps/iMPS.py'
prop('C01', 'Overlap and norm of finite states equal the dense inner product',
     'The overlap of two finite matrix product states equals the inner product of the state vectors they stand for, linear in one argument and conjugate in the other, and the norm is the squared length of that vector. Recombining a state yields exactly the tensor of amplitudes its site tensors define.',
     'every complex (and real) tensor entry, every pair of bond structures within the bounds (unequal bonds included)',
     'tests compare a few random normalised states of equal structure; an error in one index order, a dropped conjugation on unequal bonds or a special boundary shape needs every entry to be free.',
     [F], [('overlap', F + ': overlap / full_overlap / norm'), ('recombine', F + ': recombine')])
prop('C02', 'Adding and scaling states acts linearly on the amplitudes',
     'The proper sum and scalar multiple of matrix product states have as amplitudes the sum and scalar multiple of the amplitudes, also for pure thermofield doubles. Element-wise arithmetic acts on every tensor and leaves the operands unchanged; appending, extending and product-state constructors build exactly the tensors given.',
     'every entry of both operands, every scalar, chains of one to four sites with unequal bond dimensions',
     'tests add states of the same structure and check overlaps of two random instances; block placement errors for unequal or boundary bonds are invisible there.',
     [F], [('block sum', F + ': add, fTFD.add'), ('arithmetic', F + ': __add__ ... __truediv__, mul, append, extend, from_product_state')])
prop('C03', 'Expectation values equal the dense ones, whatever was called before',
     'The expectation value of an operator on one site, on a group of neighbouring sites, or on the whole chain equals <psi|O|psi>/<psi|psi> of the dense state, and the energy of a sum of local terms (or of a full Hamiltonian) is the sum of those. Asking for values never changes the state: a later question, at any site and in any order, gets the same answer.',
     'every Hermitian and non-Hermitian operator entry, every state, every site, every order of two or three queries',
     'tests use real symmetric or Hermitian Pauli operators on freshly canonicalised random states, so a transposed operator, a stale orthogonality centre or a query that moves the centre passes.',
     [F], [('single site', F + ': E, E_, Es'), ('several sites', F + ': E_k, E_L, energy'), ('thermofield', F + ': fTFD.E, fTFD.Es')], over=('inputs', 'histories', 'configurations'),
     state=[('orthogonality centre', 'site at which the tensors change from left to right isometric; moved by queries')])
prop('C04', 'Reduced density matrices and local overlaps equal partial traces',
     'The reduced density matrix of any set of sites equals the partial trace of |psi><psi| over the others, and its two-state version the partial trace of |psi><phi|. Local and k-local approximate overlaps are those traces of products of reduced matrices.',
     'every entry of product states, one symbolic tensor at a time (others generic) of entangled ones, all site subsets',
     'tests compare single-site density matrices of a few random normalised states; site ordering, conjugation and subsets with gaps are not exercised over all values.',
     [F], [('density matrices', F + ': rho, rho_proj'), ('overlaps', F + ': local_overlap, k_local_approx_overlap, approx_overlap')])
prop('C05', 'Gates and post-selection act as the dense operator on the named sites',
     'Applying a one-site operator, a two-site gate (neighbouring or distant sites), an isometry or a post-selection gives the state the dense operator gives, up to the truncation asked for. Afterwards the state is usable as any other: its norm, overlaps and expectation values are those of the new amplitudes.',
     'every gate entry, every ordered pair of sites i<j, both canonical sides, sequences of two gates, states within the bounds',
     'tests apply a handful of fixed gates to product states; wrong leg order for non-symmetric gates, stale bookkeeping after a gate and distant pairs need symbolic gates and follow-up queries.',
     [F], [('gates', F + ': apply, apply_two_site, apply_unitary'), ('isometries', F + ': apply_two_site_isometry'), ('measurement', F + ': post_select')], over=('inputs', 'histories', 'configurations'),
     state=[('orthogonality centre', 'must be reset or moved when a gate changes tensors'), ('length', 'changes with post-selection')])
prop('C06', 'Serialising or storing a state and reading it back gives the same state',
     'Turning a finite or infinite state into a vector, a vector of real numbers, or a file and reading it back gives the same tensors with the same shapes. The vector has one entry per tensor entry (two when real).',
     'every tensor entry; lengths up to 7, all standard bond structures within the bounds and explicit ones, all periods up to 3',
     'tests round-trip a few random shapes; off-by-one slices of one structure, or mixing of real and imaginary halves, appear only at other lengths.',
     [F, I], [('finite', F + ': serialize, deserialize, store, load, create_structure'), ('infinite', I + ': serialize, deserialize, store, load')])
prop('C07', 'Orthogonalising keeps the state and makes the tensors isometric',
     'Orthogonalising to the left, right or around any centre leaves the amplitudes unchanged and makes every tensor left of the centre a left isometry and every tensor right of it a right isometry. Partial sweeps touch only the sites they name.',
     'every tensor entry, every centre (and change of centre), every matrix decomposed of full rank',
     'tests check isometry or state on a few random states, never both for all values; boundary tensors and non-square bonds are where implementations slip.',
     [F], [('sweeps', F + ': left_orthogonalise, right_orthogonalise, mixed_orthogonalise')], over=('inputs', 'histories', 'configurations'))
prop('C08', 'Canonical forms: same state, isometric tensors, diagonal Schmidt environments',
     'Canonicalising from either side, or mixed around any centre, keeps the amplitudes (up to the norm), makes the tensors isometric on the stated side, and leaves the other environment diagonal with the squared Schmidt coefficients. With a bond limit the result respects it and is the best approximation available at the bond truncated.',
     'every tensor entry, each side, every centre, bond limits from 1 upward',
     'tests sample random normalised states with even structure; the statement is about all inputs, limits and centres.',
     [F], [('canonical forms', F + ': left_canonicalise, right_canonicalise, mixed_canonicalise'), ('truncation', 'xmps/tensor.py: truncate_A, truncate_B, diagonalise')])
prop('C09', 'Decomposing a state vector into a chain and recombining it is the identity',
     'Building a matrix product state from a full tensor of amplitudes, from either side, and recombining gives back those amplitudes up to normalisation, with the isometric tensors the side promises. The input array is left unchanged.',
     'every amplitude, chains of 2 to 6 sites, local dimensions up to 6, real and complex amplitudes',
     'tests do this for two or three random vectors of one size.',
     [F], [('from amplitudes', F + ': left_from_state, right_from_state')])
prop('C10', 'Merging, gating and splitting two neighbouring tensors loses nothing',
     'Grouping two neighbouring tensors, applying a gate to them and separating them again (by QR, RQ or SVD) multiplies back to the gated pair, with the isometric side promised. With a bond limit the singular value split keeps the largest singular values and no more than the limit.',
     'every tensor and gate entry, equal site dimensions up to 4, bond dimensions up to 3, every bond limit',
     'tests apply a few unitary gates without truncation.',
     [F, 'xmps/tensor.py'], [('kernels', F + ': group_tensors, apply_unitary, apply_isometry, separate_tensor_svd/qr/rq'), ('decompositions', 'xmps/tensor.py: tr_svd, uqr, urq')])
prop('C14', 'Transfer matrices of uniform states act as their dense matrix',
     'The transfer matrix of a uniform state (or of two) applied to a vector from the right or left equals the dense matrix and its adjoint applied to that vector, and its eigenvector tests accept exactly eigenvectors. Copying and element-wise arithmetic on uniform states act on every tensor and leave operands unchanged.',
     'every tensor entry and every vector, d and D up to 4',
     'tests verify a fixed point of one random state; the adjoint action and two-state maps on arbitrary vectors are never compared with the dense matrix.',
     [I], [('maps', I + ': Map, TransferMatrix, ivMPS.transfer_matrix'), ('arithmetic', I + ': __add__ ... copy')])
S = 'xmps/spin.py'
prop('C16', 'Spin operators and generators satisfy their algebra in every direction',
     'Spin operators of any size satisfy the commutation and Casimir relations for arbitrary directions, raising and lowering operators act as ladder operators, and the unitary-algebra generators are Hermitian, traceless and orthogonal. Group elements built from them are unitary exponentials of the stated generator, and embeddings, coordinates and fixed gates agree with their definitions.',
     'symbolic directions and coefficients; spins 1/2 to 4, algebras up to dimension 6',
     'tests check a few basis commutators; arbitrary directions, coordinates and group elements are sampled at most.',
     [S], [('operators', S + ': spins, paulis, ladder, su, levi_civita'), ('group elements', S + ': SU, U4, U1, U2, rotations'), ('gates', S + ': CNOT, swap, symmetrise')])
prop('C17', 'Operators placed on a chain and partial traces act on the right factors',
     'Placing an operator, a product of operators or a neighbour term on a chain acts as that operator on the named sites and as the identity elsewhere. The partial trace over any subset of factors equals the sum over their basis states, for every factor dimension.',
     'every operator entry, every site, every kept subset, factor dimensions up to 3 and unequal',
     'tests look at one or two sites of small chains with Pauli matrices.',
     [S, 'xmps/tensor.py'], [('placement', S + ': n_body, N_body_spins, chain operators'), ('traces', 'xmps/tensor.py: partial_trace, rhoA')])
HM = 'xmps/Hamiltonians.py'
prop('C18', 'Spin-chain Hamiltonians agree between strings, matrices, MPO and full operator',
     'A Hamiltonian given by strings of spin operators with coefficients yields bond matrices that sum over the chain to exactly that operator, for every length, with each field counted once per site; the full matrix and the matrix product operator are the same operator. Reading the strings back from a matrix inverts it, and neither the terms given nor earlier questions influence the answer.',
     'every coefficient of every one- and two-letter string, lengths 2 to 7, repeated questions for different lengths',
     'tests compare one Ising or Heisenberg chain of fixed length; end corrections, mixed strings and reuse of an object are not covered.',
     [HM], [('strings to matrices', HM + ': to_matrix, to_matrices, to_full'), ('mpo', HM + ': to_mpo'), ('inverse', HM + ': from_matrix')], over=('inputs', 'histories', 'configurations'))
prop('C19', 'Network contraction equals the sum over shared labels in any order',
     'Contracting a labelled tensor network gives the sum over shared labels with open legs in the order of their labels, for every contraction order asked for, including traces, disconnected parts and trailing unit legs. The argument lists are left unchanged and ill-formed networks are rejected.',
     'every tensor entry of the listed networks; every contraction order for up to four labels',
     'tests exercise the contraction only through states; orders, partial traces and scalars are not compared with an independent sum.',
     ['xmps/ncon.py'], [('contraction', 'xmps/ncon.py: ncon, con_helper, binary_con, partial_trace')])

exec(open(os.path.join(V, 'tools', 'meta_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'meta_more.py')) else None

TECH = 'symbolic execution of the real functions over symbolic tensor entries, obligations decided by an SMT solver (z3, linear real arithmetic over monomials)'
NOTE = ('Bounded: every value within the stated box and shapes, decided by the solver; nothing beyond. Trusts the numpy operation semantics of the symbolic array '
        '(cross-checked against real numpy on every run), the contracts used for LAPACK decompositions (exact arithmetic, distinct nonzero singular values), and rounding below the tolerance. ')
def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}, ensure_ascii=False) + '\n')
    checks = [{'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
               'technique': TECH, 'level': 'other', 'level_note': NOTE + p['note']} for p in P if not p['na']]
    for c in checks: assert os.path.exists(os.path.join(V, 'props', c['property'] + '.py')), c
    M = {'version': 1, 'setup_cmd': './check --selftest', 'checks': checks,
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
         'notes': 'No hooks: the machinery imports the unmodified package from /repo. See DESIGN.md.'}
    json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
main()
