"""Which harness modules decide which property."""
PLAN = {
    'S00': ['selftest'],
    'C01': ['values', 'subs'],
    'C02': ['names', 'subs'],
    'C03': ['values', 'subs'],
    'C04': ['guard', 'long'],
    'C05': ['conds', 'long', 'cross', 'frame'],
    'C06': ['conds', 'long', 'frame'],
    'C07': ['conds', 'long', 'frame'],
    'C08': ['write', 'long', 'cross', 'frame'],
    'C09': ['write', 'long', 'cross', 'frame'],
    'C10': ['args', 'long', 'subs'],
    'C11': ['tables', 'long', 'cross', 'frame'],
    'C12': ['orders', 'long', 'cross', 'frame'],
    'C13': ['orders', 'cross', 'frame'],
    'C14': ['orders', 'frame'],
    'C15': ['shape', 'long', 'cross'],
    'C16': ['shape', 'long'],
    'C17': ['shape', 'long'],
    'C18': ['shape', 'long'],
    'C19': ['dialect', 'long'],
    'C20': ['funcs', 'long', 'cross', 'frame'],
    'C21': ['funcs', 'long', 'cross', 'frame'],
    'C22': ['args'],
    'C23': ['custom', 'long', 'frame'],
    'C24': ['lists', 'long', 'cross', 'frame'],
    'C25': ['lists', 'long', 'frame'],
    'C26': ['lists', 'long'],
}

# Explored twice: as is, and with every statement rendered after each call that builds it.
PEEK = {'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C20', 'C21', 'C24', 'C25'}
NO_PEEK = {'h_long', 'h_shared', 'h_keywords', 'h_frame'}
