"""names and call counts of the corpus (no peak import: broken code must fail inside a scenario)"""
CORPUS_STEPS = {
    'alu': 1, 'early': 1, 'nested': 1, 'union': 1, 'sum': 1, 'signed': 1, 'ops': 1, 'counter': 3, 'pipe': 3, 'sub': 1,
    'regpe': 3, 'attr': 3, 'adt_state': 3, 'build': 1, 'swap': 1, 'boolops': 1, 'hier': 3,
}
