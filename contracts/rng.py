"""RNG: ranges of the written meta data (C08)"""
import base


def theory():
    return base.build('rng', ('C08',), ', grp_rng', ['rngs.rs'], pwi='reveal(tok_in); ')
