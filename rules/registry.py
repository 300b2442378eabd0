RULES = {
    'C01': ('shell', 'slots'),
    'C02': ('shell', 'readouts'),
    'C03': ('shell', 'aggregates'),
    'C04': ('shell', 'setup'),
    'C06': ('rib', 'records'),
    'C07': ('rib', 'flat_values'),
    'C08': ('rib', 'mesh_values'),
    'C09': ('rib', 'sampling'),
    'C05': ('shell', 'method_rejected'),
    'C10': ('shell', 'candidates'),
    'S01': ('shape', 'surface'),
    'S02': ('shape', 'slicing'),
    'M01': ('mesh', 'file_load'),
    'M02': ('mesh', 'refusals'),
    'M03': ('mesh', 'coherence'),
    'M04': ('mesh', 'query'),
    'M06': ('mesh', 'grammar'),
    'M05': ('mesh', 'cutting'),
    'B01': ('tree', 'box_algebra'),
    'B02': ('tree', 'tree_build'),
    'B03': ('tree', 'tree_query'),
    'B04': ('tree', 'nearest'),
    'G01': ('ground', 'ground_ctors'),
    'G02': ('ground', 'triangle_data'),
    'G03': ('ground', 'copies'),
    'G04': ('ground', 'shared_state'),
    'A01': ('acme', 'dispatch'),
    'A02': ('kernel', 'predicates'),
    'A03': ('meet', 'meets'),
    'A04': ('entity', 'members'),
    'A05': ('collection', 'lists_of_entities'),
    'F01': ('frame', 'pose'),
    'K01': ('store', 'storing'),
    'K02': ('constants', 'constants'),
    'P01': ('printing', 'prints'),
    'X01': ('simulink', 'sfunction'),
    'X02': ('matlab', 'commands'),
}
