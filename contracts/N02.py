"""Instants: the UTC time every ship's log gives for a fix, and only that."""
from .navtext import *


def run(C):
    for ship in SHIPS:
        for tk in ([TALKER[ship]] if ship != 'Ride' else ['INGGA', 'GPGGA']):
            def build(I, ship=ship, tk=tk):
                I.files = nav_files(ship, tk, ',')
                I.assume(ge(nfix(ONE_FILE), 1))
                if ship == 'Revelle':
                    stamped(I)
                return [ship, path_word(ONE_FILE)], dict(talker=tk, progressbar=False), {}

            def one(what, ship=ship, tk=tk, build=build):
                def go():
                    C.call('%s/%s' % (ship, tk), 'io.read_nav', build, lambda P_, I, env, v: nav_table(P_, I, v, ship, tk, what))
                return go
            if ship == 'Thompson':
                # the time column of the log's own sentence carries fractions of a second; the reader drops them
                C.either('N02-thompson-fraction', one(('time',)), one(('time', 'whole')))
            else:
                one(('time',))()
