REG = {
    'C01': ('linear', {}), 'C02': ('linear', {}), 'C03': ('linear', {}), 'C04': ('linear', {}), 'C05': ('linear', {}), 'C06': ('linear', {}),
    'C19': ('linear', {}), 'C20': ('linear', {}),
    'C07': ('locking', {}), 'C18': ('locking', {}),
    'C08': ('conc', {}), 'C09': ('conc', {}),
    'C10': ('waitlist', {}), 'C11': ('addrsearch', {}),
    'C12': ('ordering', {}), 'C13': ('ordering', {}),
    'C14': ('waiting', {}), 'C15': ('waiting', {}), 'C16': ('waiting', {}), 'C17': ('waiting', {}),
}
