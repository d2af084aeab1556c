"""Contracts, one module per property (or group of properties)."""
INDEX = {
    'C01': ['c01'],
    'C02': ['c01'],
    'C03': ['c01'],
    'C21': ['c01'],
    'C22': ['c01'],
    'C06': ['c06'],
    'C05': ['c05'],
    'C04': ['c04'],
    'C07': ['c07'],
    'C08': ['c08'],
    'C09': ['c09'],
    'C10': ['c10'],
    'C11': ['c10'],
    'C12': ['c10'],
    'C13': ['c13'],
    'C14': ['c13'],
    'C15': ['c15'],
    'C16': ['c15'],
    'C17': ['c17'],
    'C18': ['c17'],
    'C19': ['c17'],
    'C20': ['c20'],
}
META = {
    'C01': {},
    'C02': {},
    'C03': {},
    'C21': {},
    'C22': {},
    'C06': {},
    'C05': {},
    'C04': {},
    'C07': {},
    'C08': {},
    'C09': {},
    'C10': {},
    'C11': {},
    'C12': {},
    'C13': {},
    'C14': {},
    'C15': {},
    'C16': {},
    'C17': {},
    'C18': {},
    'C19': {},
    'C20': {},
}
