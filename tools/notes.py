"""Text for MANIFEST.json: technique and level note per property, reasons for unclaimed ones."""
DB = 'stateless model checking: delay-bounded exhaustive schedule exploration of the real code'
HI = 'exhaustive enumeration of operation histories'
NOTES = {
    'C01': (DB + '; ' + HI, ''),
    'C02': (DB, ''),
    'C03': (DB + '; ' + HI, ''),
    'C04': (DB + '; ' + HI, ''),
    'C05': (DB + '; ' + HI, ''),
    'C06': (DB + '; ' + HI, ''),
    'C07': (DB, ''),
    'C08': (DB + '; ' + HI, ''),
    'C09': (DB + '; ' + HI, ''),
    'C10': (DB + '; ' + HI, ''),
    'C11': (DB, ''),
    'C12': (DB + '; ' + HI, ''),
    'C13': (DB + '; ' + HI, ''),
    'C14': (DB + '; ' + HI, ''),
    'C15': (DB + '; ' + HI, ''),
    'C16': (DB, ''),
    'C17': (HI + '; ' + DB, ''),
    'C18': (DB, ''),
    'C19': (HI, ''),
    'C20': (DB, ''),
    'C21': (DB, ''),
    'C22': ('exhaustive enumeration of the preemption point over every memory access of the library calls; ' + DB, ''),
    'C23': ('exhaustive enumeration of the answers of the operating system to every call, on the real code', ''),
    'C24': ('exhaustive enumeration of the answers of the operating system to every call, on the real code', ''),
    'C25': (HI + '; ' + DB, ''),
    'C26': (DB, ''),
    'C27': (DB, ''),
    'C28': (DB, ''),
    'C29': (DB + '; ' + HI, ''),
}
NOT_APPLICABLE = {}
HOOKS = None
