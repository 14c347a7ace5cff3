"""which theories decide which property (see DESIGN.md)"""
# safety: unlabelled run-time safety obligations (index, slice, overflow, panic, termination) count for this property
# ends: failed termination obligations of these theories count for this property
# all: every failed obligation of the theories counts for this property
PROPS = {
    'C01': dict(theories=['sem', 'rtok', 'errs']), 'C02': dict(theories=['sem', 'rtok']), 'C03': dict(theories=['sem', 'rtok']),
    'C04': dict(theories=['sem', 'rtok']), 'C05': dict(theories=['sem', 'rtok']),
    'C06': dict(theories=['base', 'sem', 'rtok', 'errs']),
    'C07': dict(theories=['bal', 'rtok', 'errs']),
    'C08': dict(theories=['base', 'rng', 'rtok', 'errs']),
    'C09': dict(theories=['base', 'err', 'rtok']), 'C10': dict(theories=['opt', 'sem', 'rtok']), 'C11': dict(theories=['conv'], safety=True), 'C12': dict(theories=['conv']),
    'C13': dict(theories=['refs']), 'C14': dict(theories=['cursor']), 'C15': dict(theories=['jsonw'], safety=True), 'C16': dict(theories=['search'], safety=True),
    'C17': dict(theories=['report', 'errs', 'files'], safety=['report', 'errs']),
    'C18': dict(theories=['base', 'rtok', 'errs'], safety=True),
    'C19': dict(theories=['load', 'files', 'boot', 'meta', 'conv', 'opt', 'base', 'sem', 'rtok', 'report'], safety=['load', 'boot', 'files']),
    'C20': dict(theories=['term', 'opt', 'boot', 'load', 'rtok'], ends=['term', 'load', 'boot']),
}
