DEFNOTE = ('Bounded: each listed or seed-generated grammar, all token sequences up to the length stated in the evidence file, all payload values. '
           'The quantification over grammars is by construction of the set, the quantification over inputs is by the solver.')
TECHS = {}
