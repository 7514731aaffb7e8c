"""Lockset analysis by abstract interpretation: on every path of every collection operation the bytes of the collection and the array it owns are accessed only while a mutex inside it is held."""


def run(ck):
    ck.rule('a storage access with an empty lockset, a mutex taken twice, one held at return, or one held while user code runs is a violation')
    ck.irx('locks')
