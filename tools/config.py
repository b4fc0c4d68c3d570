"""Per-property settings of the checks."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = [
    'floating point arithmetic is treated as real arithmetic (rounding, overflow, NaN are not modelled); the concrete runs use IEEE doubles with a tolerance',
    'unsigned arithmetic is modelled with wrap-around, signed arithmetic with an obligation that it does not overflow',
    'memory allocation succeeds; containers hold fewer than 2^60 elements',
    'templates are verified for the instantiations used in the drivers',
    'machine code produced by the compiler implements the C++ source',
]
NOTE = ('Every obligation generated from the current source of the functions the contract driver reaches is discharged for all inputs '
        '(no bound), with floating point treated as real arithmetic and C++ library contracts assumed; the verifier (vcg/) and the clang-based extractor are trusted. '
        'The same contracts are also executed on concrete inputs, to find a failing input when a proof fails.')
NA = {}
P = {
    'C01': {},
    'C02': {},
    'C03': {},
    'C04': {},
    # the terms stated by the contract sum to the commutator
    'C05': {'lemmas': ['Commutator']},
    'C06': {},
    'C09': {},
    'C08': {},
    'C10': {},
    'C12': {},
    'C13': {},
    'C14': {},
    'C16': {},
    'C17': {},
    'C18': {},
    'C19': {},
    'C20': {},
    'C21': {},
    'C28': {},
    'C22': {},
    'C26': {},
    'C23': {},
    'C29': {},
    'C24': {'drivers': ['C24.cpp', 'C24_eigen.cpp'], 'clang': ['-I' + HERE + '/stubs/eigen']},
    'C27': {},
    # callers of is_skippable_line are checked against its contract (skippable), or else with its body
    'C31': {'fn_opts': {f: {'pure': ['ieompp::io::is_skippable_line']} for f in ('next', 'next_two', 'end')},
            'alts': {f: [{'pure': []}] for f in ('next', 'next_two', 'end')}},
    'C30': {'drivers': ['C30.cpp', 'C30_sums.cpp', 'C30_eigen.cpp'], 'clang': ['-I' + HERE + '/stubs/eigen'], 'kinds': ['race', 'bounds', 'post']},
    'C25': {},
    'C15': {'nosym': ['apply_monomial']},
    'C07': {'nosym': ['collect_real_terms']},
}


def get(prop):
    return P.get(prop, {})
