"""The properties and the rules that decide them. floor: fewer decided obligations mean the analysis lost its subject."""
import rules_value as V, rules_layout as L, rules_equal as E, rules_compat as K, rules_access as A, rules_ops as O, rules_const as Q, rules_types as T, rules_members as M, rules_coll as S, rules_visit as W, rules_text as X, rules_module as N, rules_owner as Ow, rules_idl as I, rules_names as Nm

PROPS = {
    'P01': dict(rules=[V.P01, S.slots], floor=400),
    'P02': dict(rules=[L.P02, S.entry_places, Ow.sized], floor=100),
    'P03': dict(rules=[E.P03], floor=60),
    'P04': dict(rules=[E.P04], floor=120),
    'P05': dict(rules=[K.P05, Ow.converted], floor=300),
    'P06': dict(rules=[K.P06], floor=300),
    'P07': dict(rules=[A.P07, S.entry_types], floor=2500),
    'P08': dict(rules=[A.P08], floor=250),
    'P10': dict(rules=[Q.P10], floor=500),
    'P12': dict(rules=[O.P12], floor=700),
    'P11': dict(rules=[T.P11], floor=60),
    'P13': dict(rules=[T.P13], floor=100),
    'P14': dict(rules=[T.P14], floor=70),
    'P15': dict(rules=[M.P15], floor=200),
    'P16': dict(rules=[M.P16], floor=200),
    'P17': dict(rules=[S.P17], floor=120),
    'P18': dict(rules=[S.P18], floor=90),
    'P19': dict(rules=[S.P19, Ow.parts], floor=200),
    'P20': dict(rules=[W.P20], floor=120),
    'P25': dict(rules=[W.P25], floor=60),
    'P21': dict(rules=[X.P21], floor=150),
    'P22': dict(rules=[N.refusals, N.lookup, N.symbols, N.declaring, N.submodules, N.names, N.listing, N.omitted], floor=80),
    'P23': dict(rules=[I.spelling, I.scopes, I.labels, I.aliases, I.structures, I.unions, I.enumerations, I.dimensions, I.constants, I.sentences, I.tables, I.emission], floor=60),
    'P24': dict(rules=[Ow.constructing, Ow.destroying, Ow.assigning, Ow.references, Ow.keeping, Ow.parts, Ow.borrowed], floor=250),
    'P26': dict(rules=[T.P26], floor=300),
    'P27': dict(rules=[Nm.P27], floor=10),
    'P09': dict(rules=[A.P09, N.refusals], floor=300),
}
