#!/usr/bin/env python3
"""DESIGN.md: fixed text plus one section per property (bounds from the property's module, cost from the last quick run)"""
import ast, json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {
'C01': 'overlap, norm, recombine and structure queries of the real class are executed on chains of symbolic tensors; the oracle contracts the same tensors with plain `tensordot` to the dense vector and takes the inner product there. States "with a past" (gates, canonical forms, sums performed before) are real objects whose tensors are then multiplied with any state.',
'C02': 'add, left_multiply/right scalar multiples, element-wise arithmetic, append and extend; oracle: the same linear combination of dense vectors. Mutation of the operands is compared too.',
'C03': 'E, EE, Es, E_ and energy against `<psi|op|psi>/<psi|psi>` computed densely, cross-multiplied so that no division enters the solver. Histories: several values, gauge changes and gates on one object in sequence (a stale orthogonality centre or a cached form shows there).',
'C04': 'rho, rho_proj, local overlaps, k-local overlaps against partial traces of the dense projector, tested against any operator.',
'C05': 'one- and two-site gates for every pair of sites (swap networks for distant pairs), isometries, post-selection, bond caps; oracle: dense operator on those legs. Histories of several gates.',
'C06': 'serialise/deserialise/store/load as exact equality of every entry and of the structure; files are written in a scratch directory that the check creates.',
'C07': 'orthogonalising sweeps with QR/RQ by contract: isometry of every tensor, dense state preserved, sites outside a partial sweep untouched, recorded centre.',
'C08': 'canonical forms with the SVD by contract: isometry, diagonal Schmidt environments equal to the recorded weights, dense state preserved up to the norm, caps, best rank-D approximation of one bond; degenerate spectra (GHZ, Bell) as fixed states against any state.',
'C09': 'from a vector of free amplitudes to tensors and back; the dense vector is recovered for every amplitude.',
'C10': 'merge, gate, split by QR, RQ and truncated SVD of two neighbouring tensors: product restored, isometry on the named side, truncation keeps the leading weights.',
'C11': 'dA_dt of the real class: the oracle builds the tangent space by dense differentiation and projects -iH|psi> with a numerical orthonormal basis of fixed states; H is free, the gauge of the state is varied (canonical, orthogonal, mixed, raw, edited, an integrator stage). Norm and energy conservation, two calls in sequence, linearity in H, thermofield doubles.',
'C12': 'extract/import of tangent coordinates, metric, F1, F2, christoffel, jac, null projectors against second derivatives of the dense state; the coordinates are compared after opening the null-space basis so that any basis passes. Chains of five and six sites with one free neighbour term at a time (everything is linear in each term).',
'C13': 'one step of every integrator with an arbitrary velocity at each stage (the vector field is a recorder that returns free tensors), recorded histories, exact evolution against a fresh unitary, quantities along a trajectory, clearing and reading back.',
'C14': 'matvec, rmatvec, dense matrix, adjoint and eigenvector tests of the (mixed) transfer maps against the entry-wise definition.',
'C15': 'canonicalise in the four gauges, from the contract of the dominant eigenpair (positive eigenvalue and positive definite eigenmatrices); the state is compared through traces of words, values through the dense two-point formula; null-space projectors.',
'C16': 'spin operators for any direction, su(N) generators and coordinates, embeddings, swap symmetrisation, one- and two-spin unitaries (exponential by contract).',
'C17': 'n_body and partial traces against explicit Kronecker products and index sums.',
'C18': 'strings, matrices, MPO and full operator of the Hamiltonian class for symbolic couplings; the oracle places Pauli matrices by Kronecker products. Histories: several lengths from one object, several objects from one dictionary.',
'C19': 'ncon on listed networks, every order, against a sum over labels.',
'C20': 'energy, Lh, Rh and dA_dt of uniform states: the linear solver by contract (its function vanishes at the returned point), the projection condition of the velocity, also after the same object was asked for another term; one generic state in each canonical form and larger bonds with every term.',
'C21': 'group/ungroup, unitary extensions and embeddings, null spaces, direct sums, operator splitting, truncation, padding, purities.',
'C22': 'from_fMPS and symmetry of doubles, local overlap with product states, Vidal round trip.',
'C23': 'recombine (both orders), overlap, norm, values, blocks, environments, merged lines, sums, embeddings of chains, operator chains, against explicit contraction of the grid.',
'C24': 'reflections as permutations of amplitudes, truncations as slices, every tensor of the isometric form an isometry towards the centre, values at the centre, copies and comparison.',
'C25': 'left_transfer/right_transfer step by step, pairing of both at every bond, environments, match_gauge_to with the polar decomposition by contract, tangent states, comparison and indexing.',
'C26': 'fixed points from the contract of the eigensolver (any listed phase), overlap, half steps of the mixed gauge, Vidal canonicalisation (positive eigenmatrices; the transformed map has to fix the identity with the same eigenvalue), factorisations, ground-state search with any velocity.',
'C27': 'every example constructor against explicit amplitudes through any operator, any comparison state and the density matrix; the AKLT tensors against the spin-two projector with any boundary; uniform product states with free amplitudes; random states with the draws as free symbols; entropies and reports of fixed states after every history.',
'C28': 'Trajectory.lyapunov with any starting basis (free entries, orthogonal-triangular factorisation by contract) step by step against the Jacobians of the states reached, whose frames are carried along by a separate loop; resumed and one-vector runs; named bases orthonormal and complete; vanishing exponents; volumes as Gram determinants; saved runs. Jacobians themselves are the subject of C12 (for canonical states: matching gauges between steps leaves the state slightly off canonical form, so on entangled chains exponents are claimed to vanish at the first state only).',
}
def bounds(p):
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUNDS': return ast.literal_eval(n.value)
def main():
    out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read().rstrip() + '\n\n## Properties\n']
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l); i = p['id']
        out.append('### %s %s\n' % (i, p['title']))
        out.append('*Decided:* ' + D[i])
        out.append('*Bounds:* ' + bounds(os.path.join(ROOT, 'props', i + '.py')) + '. Outside: other shapes, lengths and call orders.')
        try:
            e = json.load(open(os.path.join(ROOT, 'evidence', i + '.json')))
            out.append('*Cost:* ' + cost(e))
        except (OSError, KeyError): pass
        out.append('')
    cat = {}
    for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        j = json.load(open(m)); cat[os.path.basename(os.path.dirname(m))] = j
    out.append('## Planted bugs\n\nEach is kept in `seeded/` with its demonstration; "caught" is the outcome of the quick check of its property on the patched tree.\n')
    out.append('| id | property | what breaks | needs | quick check |\n|---|---|---|---|---|')
    caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
    for k, j in cat.items():
        out.append('| %s | %s | %s | %s | %s |' % (k, j['property'], j['what_it_breaks'], j['needs'], caught.get(k, '?')))
    out.append('')
    out.append(open(os.path.join(ROOT, 'tools', 'design_tail.md')).read().rstrip())
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
def cost(e):
    c = e['coverage']
    return '%s tier %.0f s: %d cases, %d obligations (%d scalar), %d solver queries, %d functions of xmps encoded.' % (
        e['tier'], e['wall_s'], c['evaluations'], c['obligations'], c['scalar_obligations'], c['queries'], c['n_functions_encoded'])
if __name__ == '__main__': main()
