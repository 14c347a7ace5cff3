"""BAL: meta data is well nested (C07)"""
import base


def theory():
    return base.build('bal', ('C07',), ', grp_bal', ['nest.rs'])
