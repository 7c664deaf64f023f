MODULES = {}


def _reg(mod, *ids):
    for i in ids:
        MODULES[i] = mod


_reg('dates', 'C01', 'C02', 'C03')
_reg('sexag', 'C04', 'C05')
_reg('times', 'C06', 'C07', 'C11')
_reg('comb', 'C08', 'C09', 'C10')
_reg('vecs', 'C12', 'C13', 'C20')
_reg('horizon', 'C15')
_reg('tplane', 'C17')
_reg('frames', 'C14', 'C16')
_reg('linalg', 'C18', 'C19')
_reg('refract', 'C21')
_reg('series', 'C22', 'C23')
_reg('site', 'C24')
_reg('distort', 'C25')
_reg('misc', 'C26', 'C27')
