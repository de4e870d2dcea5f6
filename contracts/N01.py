"""Positions: signed decimal degrees of every sentence of the chosen talker, NaN where blank."""
from .navtext import *


def run(C):
    for ship in SHIPS:
        for tk in ([TALKER[ship]] if ship != 'Ride' else ['INGGA', 'GPGGA']):
            for sep in (',', ' ,'):
                def build(I, ship=ship, tk=tk, sep=sep):
                    I.files = nav_files(ship, tk, sep)
                    I.assume(ge(nfix(ONE_FILE), 1))
                    if ship == 'Revelle':
                        stamped(I)
                    return [ship, path_word(ONE_FILE)], dict(talker=tk, progressbar=False), {}

                def post(P_, I, env, v, ship=ship, tk=tk):
                    nav_table(P_, I, v, ship, tk, ('pos',))
                C.call('%s/%s%s' % (ship, tk, '/blank after the talker' if sep != ',' else ''), 'io.read_nav', build, post)
