from .base import *
FILES = ['src/common/floating_point.cpp', 'src/common/helpers.cpp', 'src/common/constants.cpp']
def build(reg, P):
    add_floating_point(reg); add_conjugate(reg)
