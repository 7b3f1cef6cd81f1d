# generated by tools/gen.py
MODULES = {
    'C01': 'c01_pad',
    'C02': 'hific',
    'C03': 'dvc',
    'C04': 'layers',
    'C05': 'prob',
    'C06': 'prob',
    'C07': 'prob',
    'C08': 'layers',
    'C09': 'layers',
    'C10': 'layers',
    'C11': 'metrics',
    'C12': 'metrics',
    'C13': 'metrics',
    'C14': 'layers',
    'C15': 'dvc',
    'C16': 'losses',
    'C17': 'losses',
    'C18': 'losses',
    'C19': 'vct',
    'C20': 'vct',
    'C21': 'vct',
    'C22': 'vct2',
    'C23': 'vct2',
    'C24': 'rans',
    'C25': 'illm',
    'C26': 'vqvae',
    'C27': 'data',
    'C28': 'zoo',
    'C29': 'bbdiff',
    'C30': 'arith',
    'C31': 'dvctrain',
    'C32': 'runs',
}
