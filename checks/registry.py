"""property -> module, deciding rule, minimum of obligations on a run, engine notes."""
MODULE = {}
for _m, _ps in (('c_parser', 'C01 C02 C03 C04'), ('c_io', 'C05 C06 C07 C08 C09 C10 C11 C12 C13 C32'),
                ('c_par', 'C15 C16 C17 C18 C19 C20 C21'), ('c_vars', 'C22 C23 C24 C25 C26 C27 C28 C29 C35'),
                ('c_misc', 'C14 C30 C31 C33 C34'), ('c_author', 'C36 C37'), ('c_gen', 'C38'), ('c_pack', 'C39'), ('c_pure', 'C40')):
    for _p in _ps.split():
        MODULE[_p] = _m
# an analysis that states fewer obligations than this has lost its subject: no answer
FLOOR = {
    'C01': 21743, 'C02': 24940, 'C03': 26874, 'C04': 1228, 'C05': 2341, 'C06': 3487, 'C07': 4240,
    'C08': 11746, 'C09': 20320, 'C10': 45648, 'C11': 1663, 'C12': 29485, 'C13': 37890, 'C14': 462,
    'C15': 2323, 'C16': 2032, 'C17': 3426, 'C18': 788, 'C19': 7569, 'C20': 1008, 'C21': 232,
    'C22': 5124, 'C23': 24388, 'C24': 36600, 'C25': 12081, 'C26': 17940, 'C27': 33120, 'C28': 2053,
    'C29': 963, 'C30': 236, 'C31': 15513, 'C32': 18928, 'C33': 22489, 'C34': 17462, 'C35': 77310,
    'C36': 40000, 'C37': 1500, 'C38': 19000, 'C39': 1000, 'C40': 15000,
}
