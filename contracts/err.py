"""ERR: the meaning theory with errors (C09)"""
import sem


def theory():
    return sem.theory(True)
