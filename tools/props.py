#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = 'src/physics/single_chain/'
CO = 'src/constitutive/'
P = []
def prop(id, title, statement, over, text, why, files, mech, note=None, technique='TLA+ specification, TLC trace validation of recorded runs', state=[], observe=[], na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None), _note=note, _tech=technique, _na=na))

prop('C01', 'Units: all forms of a quantity agree',
  'For every single-chain model and every parameter state, the total, per-link, dimensional and nondimensional functions for one quantity return the same quantity in different units: energies scale with kT and with the number of links, lengths with the link length and the number of links, forces with kT over the link length, and distributions with the inverse contour length (cubed for the vector distribution). Radial distributions are 4*pi*gamma^2 times the vector distribution in the same units.',
  ['inputs', 'configurations'], 'every model, approximation and ensemble; every number of links, link length, hinge mass, temperature and model parameter in the domain; every controlled force, length or potential',
  'Unit tests draw parameters close to one (link length and hinge mass near 1, 5 to 25 links, 250 to 350 K), where a missing factor of the link length or mass is within reach of the random spread, and check each function pair separately; the claim is over all scales and all models at once.',
  [SC], [('dimensional functions convert their arguments and call the nondimensional ones', SC + '*/thermodynamics/**/mod.rs')],
  'Each recorded result is a 53-bit number taken exactly into the specification, which evaluates the relations with 135-bit arithmetic. Sampled parameter states (all 51 modules, scales over several decades); trusts the recorder and TLC.')
prop('C02', 'Relative free energies and the momentum term',
  'In a session with one model, changing the controlled variable moves the absolute and the relative free energy by the same amount, and the relative free energy is zero at the reference state. Changing temperature, hinge mass and link length at the same nondimensional state leaves relative free energies unchanged and shifts absolute ones by exactly the configuration-independent momentum (and link-vibration) term of the number of links that the ensemble leaves free; adding links changes per-link quantities only through that term.',
  ['histories', 'inputs', 'configurations'], 'every session of create, pull, reheat, grow and rest steps with any model of the library, over all parameters',
  'The tests compare one pair of evaluations at a time at fixed temperature and unit mass; how the reference state and momentum term behave over a sequence of parameter changes is not sampled.',
  [SC], [('relative free energies subtract the value at the reference state', SC + '*/thermodynamics/**/mod.rs'), ('ln(8 pi^2 m l^2 kT / h^2) per link', SC + '*/thermodynamics/**/mod.rs')],
  'State machine of sessions in SessionTrace.tla; random sessions of five steps per model; the relation between consecutive states is exact up to a computed rounding bound.')
prop('C03', 'The ensembles are Legendre transforms of each other',
  'For every model with Legendre-transformed counterparts, the transformed Helmholtz free energy is the Gibbs free energy plus force times extension, and the Legendre-transformed isometric force at a given length is the isotensional force whose extension is that length, with matching relative free energies. Going from force to extension and back returns the force that one started from.',
  ['inputs', 'configurations', 'histories'], 'every family (ideal, FJC, EFJC, SWFJC, uFJC with each potential, WLC where defined), every approximation, every force, stiffness, number of links',
  'Tests check the transform at random forces of order one to ten with very stiff links (about 5e5), where all elastic corrections vanish; stiffness- and force-dependent terms are never exercised together.',
  [SC], [('legendre modules', SC + '*/thermodynamics/**/legendre/mod.rs'), ('Newton inversion', 'src/math/mod.rs')],
  'Cycles force -> extension -> force through the real isotensional, Legendre and isometric modules validated against LegendreTrace.tla; tolerance is that of the library\'s Newton iteration (3e-6 in the extension).')
prop('C04', 'First law and monotonicity along loading paths',
  'Along any quasi-static loading path of a model the change of its free energy equals the work done: Gibbs energy changes by minus extension times force increment, Helmholtz energy by force times extension increment. Extension never decreases with force in the isotensional ensemble, the work over a closed cycle vanishes, and the response depends on the current state only, not on the path.',
  ['histories', 'inputs'], 'every loading and unloading path of every model, ensemble and approximation',
  'Tests check derivatives with finite differences at isolated random points with a loose tolerance, never along a path or across the internal regime switches of the implementation.',
  [SC], [('force and extension functions against the free energies', SC + '*/thermodynamics/**/mod.rs')],
  'LoadingTrace.tla bounds each step by the convexity sandwich (no truncation error), or by Simpson\'s rule with a computed remainder where the energy is not convex; paths are random and include turning points and closed cycles.')
prop('C05', 'Responses equal the statistical mechanics of the model',
  'For every model, ensemble and approximation of the library, the nondimensional extension, force, Gibbs and Helmholtz free energies (absolute and relative) equal those given by the model\'s partition function or stated approximation, throughout the domain of the model. This includes all regime switches: weak and strong forces, short and long chains, soft and stiff links, flexible and stiff persistence lengths.',
  ['inputs', 'configurations'], 'every parameter state in the domain of each of the 51 thermodynamic modules',
  'The tests compare the library with itself (derivatives, limits, round trips), so a consistent error in a potential and its derivative passes, and they sample a narrow window of parameters (stiffness near 5e5, 5 to 25 links).',
  [SC], [('closed forms and quadratures of each module', SC + '*/thermodynamics/**/mod.rs')],
  'Reference.tla defines each model from its partition function and evaluates it in 135-bit arithmetic in TLC, including derivative quantities, on sampled parameter states; tolerances follow from computed bounds of the rounding of the evaluated formula. Quadrature-based models are specified on the library\'s 64-point midpoint grid.')
prop('C06', 'The isometric FJC is the exact N-fold convolution',
  'The equilibrium distribution, force and free energies of the isometric freely jointed chain are those of the exact convolution of N uniformly distributed unit vectors for every number of links and every extension, including the support boundaries of each polynomial piece. In particular the distribution is a non-negative density with unit norm, mean-square extension 1/N and vanishing weight beyond full extension.',
  ['inputs', 'configurations'], 'every number of links from 2 up and every extension in (0, 1)',
  'Tests use N between 5 and 25 at random extensions and compare the function with itself; the exact distribution, its moments and its polynomial seams are never computed independently.',
  [SC + 'fjc/thermodynamics/isometric/mod.rs'], [('Treloar sums', SC + 'fjc/thermodynamics/isometric/mod.rs')],
  'L1: ConvolutionModel.tla derives the density by N-fold convolution in exact rational arithmetic and TLC checks it equals the closed form; L2: recorded runs over every N in 2..40 with extensions at and around every seam.')
prop('C07', 'Equilibrium distributions are normalised Boltzmann weights',
  'Each equilibrium distribution of a model object is a probability density: non-negative, with unit norm over its support as given by the object\'s own normalisation, the radial distribution being 4 pi gamma^2 times it. Ratios of the distribution at two lengths are the Boltzmann factor of the difference in Helmholtz free energy, and each object keeps its own normalisation whatever other objects are created in between.',
  ['inputs', 'configurations', 'histories'], 'every model with a distribution, every number of links and parameter, every history of object constructions',
  'Tests integrate the distribution for a few random chains only for some models; ratios and interleaved objects are not tested.',
  [SC], [('normalisation computed at construction', SC + '*/thermodynamics/isometric/**/mod.rs')],
  'DistributionTrace.tla integrates the recorded densities over the support and checks ratios against recorded free energies for interleaved objects.')
prop('C08', 'Modified canonical ensemble and its limits',
  'For the freely jointed chain with one end in a harmonic potential, force, extension, Gibbs and Helmholtz free energies follow from the configuration integral of chain plus potential, the mean end-to-end length and the force being related by the potential\'s stiffness. The asymptotic modules equal their stated expansion, and converge to the full model, to the isotensional model (weak potential) and to the isometric model (strong potential).',
  ['inputs', 'configurations'], 'every number of links, potential stiffness and potential distance in the domain',
  'Tests only check trends at a few stiffnesses; the quantitative order of convergence for all states is not sampled.',
  [SC + 'fjc/thermodynamics/modified_canonical'], [('quadrature of chain density times Gaussian', SC + 'fjc/thermodynamics/modified_canonical/mod.rs'), ('asymptotic', SC + 'fjc/thermodynamics/modified_canonical/asymptotic')],
  'ModifiedTrace.tla relates recorded results of the modified canonical, asymptotic, isometric and isotensional modules along sweeps of the potential stiffness.')
prop('C09', 'Inversion finds the root, or the nearest it was asked for',
  'The Newton inversions evaluate the function and its derivative at the guess and then at successive (damped) Newton iterates only, stop one step after the first iterate whose function value matches the target to the given relative tolerance or when the iteration limit is reached, and return that last iterate. For monotone functions of the kind the library inverts (links stretched by a force, Langevin functions) the function value at the result matches the target to that tolerance, whatever the guess within the region of convergence, including a guess that is already the root.',
  ['inputs', 'histories'], 'every function in the class used, every target, guess, tolerance and iteration limit',
  'One test inverts one function at one point; the sequence of iterates and its stopping rule are not observed.',
  ['src/math/mod.rs'], [('inverse_newton_raphson, inverse_newton_raphson_powered, inverse_langevin', 'src/math/mod.rs')],
  'Newton.tla is the iteration as a state machine; every call of the supplied function and derivative by the real code is recorded and must be a behaviour of it.')
prop('C10', 'Quadrature rules',
  'The integration routines evaluate the midpoint rule on the requested number of points: the integrand is evaluated exactly once at each midpoint and nowhere else, the result is the sum times the spacing, and the error for smooth integrands is second order in the spacing. Higher-dimensional forms do so in each dimension.',
  ['inputs', 'histories'], 'every integrand, interval and number of points',
  'Tests integrate one polynomial per routine with a tolerance.',
  ['src/math/mod.rs'], [('integrate, integrate_1d, integrate_1d_grid, integrate_2d, integrate_3d', 'src/math/mod.rs')],
  'Quadrature.tla is the rule as a state machine; the sequence of evaluations made by the real code is validated against it.')
prop('C11', 'Special functions over the whole real line',
  'The inverse Langevin function (to its tolerance of 1e-6), the error functions erf, erfc and erfcx, the modified Bessel functions I0 and I1, and the principal branch of Lambert\'s W equal their mathematical definitions over the whole domain on which the library can call them, on both sides of every seam between the internal approximations and in every piece of their tables. Symmetries (odd, even, complementary) hold for negative arguments.',
  ['inputs'], 'every argument in the domain of each function, seams and both signs',
  'Tests evaluate a handful of points, mostly positive and of order one.',
  ['src/math/mod.rs'], [('special functions', 'src/math/mod.rs')],
  'Elem.tla defines the functions by series, continued fractions and identities in 135-bit arithmetic; recorded values at dense samples, both sides of all seams, and extremes are validated.')
prop('C12', 'Monte Carlo configurations obey the model\'s constraints',
  'For every history of random numbers, each generated chain configuration satisfies the model\'s geometric constraints: freely jointed and freely rotating links have unit length, fixed-angle links keep the bond angle to their predecessor, the configuration is a connected chain from the origin with the stated number of links, and the reported end-to-end length is that of its end. Free directions are isotropic, azimuths about the previous link uniform, successive links independent, and extensible lengths normal with mean one and variance 1/kappa.',
  ['histories', 'inputs'], 'every sequence of random numbers and every chain parameter',
  'Tests look at an aggregate histogram of a fixed number of samples.',
  [SC + 'fjc/thermodynamics/isometric/monte_carlo/mod.rs', SC + 'efjc/thermodynamics/isometric/monte_carlo/mod.rs', SC + 'frc', SC + 'efrc'], [('random_configuration', SC + '*/thermodynamics/isometric/monte_carlo/mod.rs')],
  'MonteCarlo.tla adds links one by one; configurations of the real generator on recorded random numbers must be its behaviours, and the state accumulates the moments of directions, azimuths and lengths (six standard deviations).')
prop('C13', 'Monte Carlo histograms account for every sample',
  'The estimated radial distribution counts each sampled end-to-end length per link below the maximum exactly once, in the half-open bin that contains it; bins are uniform between zero and the maximum (the contour length, that of the straight zigzag for fixed angles, or the one given), returned abscissae are the bin centres, and the estimate is the count divided by samples times bin width, so that it integrates to the share of samples in range. Samples beyond the given maximum are refused rather than misplaced; a chain never exceeds the maximum that its model implies. For freely jointed chains the share of samples in each bin is that of the exact distribution, within statistical error.',
  ['histories', 'inputs'], 'every sequence of random numbers, number of links, bins and samples',
  'Tests check an approximate second moment of the histogram of many samples.',
  [SC + 'fjc/thermodynamics/isometric/monte_carlo/mod.rs'], [('nondimensional_equilibrium_radial_distribution', SC + '*/thermodynamics/isometric/monte_carlo/mod.rs')],
  'Histogram.tla replays the same random words through specified configurations and bins and must reproduce the returned arrays.')
prop('C14', 'Objects are faithful views of the free functions',
  'Every structure obtained by initialising a model, at any level of the hierarchy and in any order, carries the parameters that it was given, and each of its methods returns the value of the corresponding free function for those parameters. Methods are pure: repeating a call, or interleaving calls on other objects, does not change any result.',
  ['histories', 'inputs', 'configurations'], 'every object of the hierarchy, every interleaving of constructions and method calls, all parameters',
  'Tests construct one object at a time, with the same parameters at all levels, and never interleave.',
  [SC], [('init constructs nested models', SC + '**/mod.rs')],
  'ObjectTrace.tla holds a store of live objects; recorded histories of constructions and interleaved calls must return the value that the store determines.')
prop('C15', 'Hyperelastic constitutive model',
  'The hyperelastic network model gives the stress of an incompressible network of chains that respond as the chosen single-chain model: the average over the equilibrium distribution of chains, moved affinely with the principal stretches, of the chain force projected on the loading direction, evaluated on the stated 256 by 256 grid of cylindrical cells and normalised on that grid. This holds in uniaxial and equibiaxial tension for every stretch, for both chain distributions (reduced EFJC and Gaussian), every stiffness and number of links; the equibiaxial stress at a stretch is minus the uniaxial stress at its inverse square, and results do not depend on the calls made before.',
  ['inputs', 'configurations'], 'every chain distribution, link stiffness, number of links, loading mode and stretch',
  'The constitutive modules have no Rust tests; the Julia and Python suites do not evaluate their stresses. A wrong factor or transposed axis in the cylindrical sum shifts the stress of every state.',
  [CO], [('quadrature of the deformed distribution', CO + 'hyperelastic/buche_silberstein/mod.rs'), ('exported cell sums', CO + 'hyperelastic/buche_silberstein/ex.rs'), ('chain distribution on the grid', CO + 'hyperelastic/buche_silberstein/mod.rs')],
  'Hyperelastic.tla states chains, distribution, deformation and quadrature; TLC evaluates the same 65536-cell sum in 135-bit arithmetic and single cells through the exported functions. The stated quadrature is specified, not the exact integral. Sampled states.')
prop('C16', 'Damage is irreversible and depends on the largest stretch only',
  'In the damaging network a chain whose extension exceeds the critical extension, at rest or at any later stretch, is broken for the remainder of the history. Stress and probability of intact chains therefore depend on the history only through the current and the largest stretch so far: reloading retraces unloading, at the same stretch the probability never grows with the largest stretch, the order and number of earlier steps do not matter, and each result equals the sum over the intact chains of the swollen network.',
  ['histories', 'inputs'], 'every history of stretches of at least one, every critical extension, stiffness, number of links, swelling ratio and chain distribution',
  'The constitutive modules have no Rust tests, and irreversibility is a statement about histories: it needs unloading, reloading and new maxima in one run.',
  [CO], [('intact condition and running maximum', CO + 'hyperelastic_damage/buche_silberstein/mod.rs')],
  'L1: DamageModel.tla breaks a lattice of chains one by one over all histories and shows that largest stretch and rest decide. L2: recorded histories of the real network must be behaviours of DamageTrace.tla; selected steps are recomputed cell by cell (Damage.tla).',
  state=['maximum_previous_stretch (running maximum over the history given to uniaxial_tension)'])
prop('C17', 'The C interface is the Rust library',
  'Each exported C function returns exactly what the Rust function of the same name returns for the same arguments, with the arguments in the documented order, for every model.',
  ['inputs', 'configurations'], 'every exported entry point and every argument vector',
  'The C entry points have no Rust tests; the Julia and Python tests that use them cannot run everywhere and use unit parameters for which swapped arguments go unnoticed.',
  [SC], [('extern "C" wrappers', SC + '**/ex.rs')],
  'InterfaceTrace.tla requires equality of each recorded entry point with the function it exports, for asymmetric argument vectors.')
prop('C18', 'The Python interface is the Rust library',
  'Each class of the Python package constructs the model with the parameters given by name, at every level of the hierarchy and nested in every object above it, and its attributes are those parameters. Each method returns, for a NumPy array of any shape and memory order, an array of the same shape whose elements are the values of the Rust function of the same name for the same parameters; every function of a model is available, and repeated or interleaved calls on other objects change nothing. The network models return the same histories of stress and intact probability.',
  ['inputs', 'configurations', 'histories'], 'every class and method of the Python package, all parameters, arrays of all shapes, and every interleaving of constructions and calls',
  'The Rust tests do not build the bindings; the Python tests cannot run without an installed package, and evaluate each class on its own with parameters close to one, for which exchanged arguments go unnoticed.',
  [SC, CO, 'src/py.rs'], [('pyclass wrappers', SC + '**/py.rs'), ('network wrappers', CO + '**/py.rs')],
  'Recorded histories of objects and networks are replayed through the Python module built from the working tree; the result must be a behaviour of ObjectTrace.tla (the specification of C14) and PythonNetTrace.tla. Sampled histories; trusts NumPy and the replay script.')
prop('C19', 'The Julia interface is the Rust library',
  'Each structure of the Julia package carries the parameters it was constructed with, at every level of the hierarchy and nested in every structure above it. Each function-valued field of a structure (for a scalar or an array of the controlled variable), and each function of its module (for scalars and, by broadcasting, arrays in any arguments), returns the values of the Rust function of the same name for the same arguments; every function of the package is available, and repeated or interleaved calls on other structures change nothing. The physical constants of the package are those of the library.',
  ['inputs', 'configurations', 'histories'], 'every structure and function of the Julia package, all parameters, arrays of all broadcastable shapes, and every interleaving of constructions and calls',
  'The Rust tests do not touch the Julia sources, whose own tests need an installed Julia and evaluate each structure on its own with parameters close to one, for which exchanged arguments go unnoticed.',
  [SC, 'src/Polymers.jl'], [('broadcast ccall wrappers and structures', SC + '**/mod.jl'), ('C entry points', SC + '**/ex.rs')],
  'Recorded histories of objects are replayed through the Julia sources of the working tree; the result must be a behaviour of ObjectTrace.tla (the specification of C14). No Julia is installed: the sources are evaluated by tools/julia.py (the part of the language that they use), which calls the shared library built from the working tree; constructs that it does not know are reported in the evidence and not judged.')

def main():
    import sys; sys.path.insert(0, os.path.join(ROOT, 'tools'))
    from checks import CHECKS
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as h:
        for p in P: h.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    m = dict(version=1, setup_cmd='bin/check --setup', checks=[], not_applicable=[], notes='See DESIGN.md. known_findings.json lists the recorded defects and repairs.')
    for p in P:
        if p['id'] in CHECKS:
            m['checks'].append(dict(property=p['id'], quick_cmd='bin/check ' + p['id'], thorough_cmd='bin/check %s --thorough' % p['id'], technique=p['_tech'],
                                    level='model_checking', level_note=p['_note']))
        else:
            m['not_applicable'].append(dict(property=p['id'], reason=p['_na'] or 'check not built yet'))
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
main()
