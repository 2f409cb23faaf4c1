# Per-property build and run settings.
CONFIG = {
    'S01': {},
    'C01': {},
    'C02': {},
    'C03': {},
    'C04': {'opt': '-O0'},
    'T01': {},
    'T02': {},
    'S02': {},
    'S03': {},
    'S04': {},
    'M01': {},
    'S05': {},
    'G01': {},
    'G02': {},
    'G03': {},
    'G04': {},
    'G05': {},
    'L01': {},
    'L02': {},
    'L03': {},
    'L04': {},
    'X01': {},
    'X02': {},
    'X03': {},
    'X04': {},
    'O01': {},
    'O04': {},
    'O03': {},
    'O05': {},
    'I01': {},
    'I02': {},
    'O02': {},
    'O06': {},
    'I03': {},
    'I04': {},
    'I05': {},
    'I06': {},
    'L05': {},
    'E01': {'opt': '-O2', 'time': 30},
    'K01': {'programs': {'autogenerate_ground_truth': 'cartographer/ground_truth/autogenerate_ground_truth_main.cc',
                         'compute_relations_metrics': 'cartographer/ground_truth/compute_relations_metrics_main.cc'}},
    'K03': {},
}
