TECH = {}
NOTE = {}
DEFAULT_NOTE = (
    'Static analysis of the source on every run: sound for all inputs within '
    'the modelled library semantics and real arithmetic; where two canonical '
    'forms differ, equality of the terms is tested by random interpretation; '
    'obligations the '
    'analysis cannot decide are counted as undecided in the evidence and not '
    'claimed.')
